//! C02: the decoder consumes exactly what the encoder wrote.  Proved for all
//! sequences in Verus (verus/coder.py); the evaluations give failing inputs.
use crate::nd::*;
use crate::coder::*;

fn exact(evs: &[Ev]) -> Result<(), String> {
    let mut m = Model::new();
    for &e in evs { m.step(e) }
    let bytes = encode(evs);
    let n = bytes.len();
    ensure!(n as u64 == m.norms + 4, "{} bytes written for {} renormalisations (and 4): {}",
            n, m.norms, show(evs, evs.len()));
    let mut more = bytes.clone();
    more.extend_from_slice(&[0xff, 0x00, 0xa5, 0x5a, 0x80, 0x7f, 0x01, 0xfe]);
    let (_, left) = decode(evs, &more);
    ensure!(left == 8, "{} of {} bytes read: {}", more.len() - left, n, show(evs, evs.len()));
    let r = std::panic::catch_unwind(|| decode(evs, &bytes));
    ensure!(r.is_ok(), "decoder runs out of input: {}", show(evs, evs.len()));
    Ok(())
}

harnesses! {}

evals! {
    //@ of: coding::encoder::Encoder::{new,encode_bit,encode_rare_event,normalize,output_byte,add_with_carry,drop}, coding::decoder::Decoder::{new,decode_bit,decode_rare_event,input_byte,normalize}
    //@ bound: 100000 event sequences of up to 300000 events steered into undecided carries, runs of 0xff and boundary ranges
    //@ rule: profiles of events (random, extreme, straddling, boundary, rare) from VERIF_SEED
    fn c02_steered() {
        let s = eval::seed();
        let n = if eval::thorough() { 2_000_000 } else { 100_000 };
        eval::par(n, |i| exact(&sequence(i, s)).map_err(|e| format!("case {} (VERIF_SEED={}): {}", i, s, e)))
    }
    //@ of: coding::encoder::Encoder::{new,encode_bit,encode_rare_event,normalize,output_byte,add_with_carry,drop}, coding::decoder::Decoder::{new,decode_bit,decode_rare_event,input_byte,normalize}
    //@ bound: every sequence of at most 6 events over 14 boundary events
    fn c02_short() {
        eval::par(SHORT, |i| exact(&short(i)).map_err(|e| format!("{:?}: {}", short(i), e)))
    }
    //@ of: coding::encoder::Encoder::{new,encode_bit,encode_rare_event,normalize,output_byte,add_with_carry,drop}, coding::decoder::Decoder::{new,decode_bit,decode_rare_event,input_byte,normalize}
    //@ bound: 30000 steered event sequences written to and read from byte-at-a-time, interrupted streams; the sink failing once at every third position
    fn c02_trickle() {
        let s = eval::seed();
        let n = if eval::thorough() { 300_000 } else { 30_000 };
        eval::par(n, |i| {
            let evs = sequence(i, s);
            let evs = &evs[..evs.len().min(if i % 3 == 0 { 200 } else { 5000 })];
            let plain = encode(evs);
            let mut t = Trickle { bytes: vec![], at: 0, fail_at: None, r: eval::Rng(i) };
            encode_to(evs, &mut t);
            ensure!(t.bytes == plain, "case {} (VERIF_SEED={}): interrupted sink holds {} bytes, {} expected (or other values)",
                    i, s, t.bytes.len(), plain.len());
            t.bytes.extend_from_slice(&[0xff, 0x00, 0xa5, 0x5a]);
            decode_from(evs, &mut t);
            ensure!(t.at == plain.len(), "case {} (VERIF_SEED={}): {} of {} bytes read from an interrupted source",
                    i, s, t.at, plain.len());
            if i % 3 == 0 {
                let at = (i as usize / 3) % plain.len();
                let mut t = Trickle { bytes: vec![], at: 0, fail_at: Some(at), r: eval::Rng(i) };
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| encode_to(evs, &mut t)));
                ensure!(r.is_err(), "case {} (VERIF_SEED={}): the sink refused byte {} and encoding went on without it", i, s, at);
            }
            Ok(())
        })
    }
}
