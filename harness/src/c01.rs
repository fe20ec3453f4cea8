//! C01: entropy coding is lossless.  Proved for all sequences in Verus
//! (verus/coder.py); the evaluations here give failing inputs.
use crate::nd::*;
use crate::coder::*;

fn round_trip(evs: &[Ev]) -> Result<(), String> {
    let bytes = encode(evs);
    let r = std::panic::catch_unwind(|| decode(evs, &bytes));
    let (got, _) = match r {
        Ok(x) => x,
        Err(e) => return Err(format!("decoding panics ({}): {}", eval::message(&e), show(evs, evs.len()))),
    };
    for i in 0..evs.len() {
        ensure!(got[i] == evs[i], "event {} decoded as {:?} instead of {:?}: {}", i, got[i], evs[i], show(evs, i));
    }
    Ok(())
}

harnesses! {}

evals! {
    //@ of: coding::encoder::Encoder::{new,encode_bit,encode_rare_event,normalize,output_byte,add_with_carry,drop}, coding::decoder::Decoder::{new,decode_bit,decode_rare_event,input_byte,normalize}
    //@ bound: 100000 event sequences of up to 300000 events steered into undecided carries, runs of 0xff and boundary ranges
    //@ rule: profiles of events (random, extreme, straddling, boundary, rare) from VERIF_SEED
    fn c01_steered() {
        let s = eval::seed();
        let n = if eval::thorough() { 2_000_000 } else { 100_000 };
        eval::par(n, |i| round_trip(&sequence(i, s)).map_err(|e| format!("case {} (VERIF_SEED={}): {}", i, s, e)))
    }
    //@ of: coding::encoder::Encoder::{new,encode_bit,encode_rare_event,normalize,output_byte,add_with_carry,drop}, coding::decoder::Decoder::{new,decode_bit,decode_rare_event,input_byte,normalize}
    //@ bound: every sequence of at most 6 events over 14 boundary events
    fn c01_short() {
        eval::par(SHORT, |i| round_trip(&short(i)).map_err(|e| format!("{:?}: {}", short(i), e)))
    }
    //@ of: coding::encoder::Encoder::{new,encode_bit,encode_rare_event,normalize,output_byte,add_with_carry,drop}, coding::decoder::Decoder::{new,decode_bit,decode_rare_event,input_byte,normalize}
    //@ bound: 30000 steered event sequences written to and read from byte-at-a-time, interrupted streams
    fn c01_trickle() {
        let s = eval::seed();
        let n = if eval::thorough() { 300_000 } else { 30_000 };
        eval::par(n, |i| {
            let evs = sequence(i, s);
            let evs = &evs[..evs.len().min(5000)];
            let r = std::panic::catch_unwind(|| {
                let mut t = Trickle { bytes: vec![], at: 0, fail_at: None, r: eval::Rng(i) };
                encode_to(evs, &mut t);
                decode_from(evs, &mut t)
            });
            match r {
                Err(e) => Err(format!("case {} (VERIF_SEED={}): interrupted streams: panics ({})", i, s, eval::message(&e))),
                Ok(got) => match (0..evs.len()).find(|&j| got[j] != evs[j]) {
                    None => Ok(()),
                    Some(j) => Err(format!("case {} (VERIF_SEED={}): interrupted streams: event {} decoded as {:?} instead of {:?}",
                                           i, s, j, got[j], evs[j])),
                },
            }
        })
    }
}
