//! Runs proof harnesses natively on the real code.
//!   replay list
//!   replay run NAME HEX[,HEX...]        values of a Kani counterexample
//!   replay search NAME SEED MILLIS      random search for a failing input
//!   replay eval NAME                    evaluation of a finite domain
//! Exit status: 0 held, 10 failed (report on stdout), 3 rejected/unknown.
use std::panic;
use vh::nd::{Source, LOG, QUIET, REJECTED, SRC};

fn hex(v: &[Vec<u8>]) -> String {
    v.iter().map(|b| b.iter().map(|x| format!("{:02x}", x)).collect::<String>())
        .collect::<Vec<_>>().join(",")
}

fn hook() {
    panic::set_hook(Box::new(|info| {
        if QUIET.with(|q| *q.borrow()) { return; }
        let msg = info.to_string().replace('\n', " | ");
        let vals = LOG.with(|l| hex(&l.borrow()));
        println!("FAILED {}", msg);
        println!("INPUTS {}", vals);
    }));
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("list");
    if cmd == "list" {
        for (n, _) in vh::all() { println!("{}", n); }
        return;
    }
    if cmd == "eval" {
        hook();
        let f = match vh::evals().into_iter().find(|(n, _)| *n == args[2]) {
            Some((_, f)) => f,
            None => { println!("unknown evaluation {}", args[2]); std::process::exit(3) }
        };
        let r = panic::catch_unwind(f);
        match r {
            Ok(Ok(r)) => {
                for s in r.samples.iter().take(8) { println!("SAMPLE {}", s.replace('\n', " ")); }
                println!("EVALUATED {} {}", r.evaluations, r.distinct);
                return;
            }
            Ok(Err(m)) => { println!("FAILED {}", m.replace('\n', " | ")); }
            Err(_) => {}
        }
        std::process::exit(10);
    }
    let f = match vh::all().into_iter().find(|(n, _)| *n == args[2]) {
        Some((_, f)) => f,
        None => { println!("unknown harness {}", args[2]); std::process::exit(3) }
    };
    hook();
    match cmd {
        "run" => {
            let vals = args.get(3).map(|s| s.as_str()).unwrap_or("").split(',')
                .filter(|s| !s.is_empty())
                .map(|s| (0..s.len() / 2).map(|i|
                    u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
                    .collect::<Vec<u8>>()).collect::<Vec<_>>();
            SRC.with(|s| *s.borrow_mut() = Source::Replay(vals, 0));
            let r = panic::catch_unwind(f);
            if REJECTED.with(|r| *r.borrow()) {
                println!("REJECTED by the precondition");
                std::process::exit(3);
            }
            std::process::exit(if r.is_err() { 10 } else { 0 });
        }
        "search" => {
            let seed: u64 = args[3].parse().unwrap();
            let millis: u128 = args[4].parse().unwrap();
            let start = std::time::Instant::now();
            let mut n = 0u64;
            let mut accepted = 0u64;
            while start.elapsed().as_millis() < millis {
                let s = seed.wrapping_mul(0x2545F4914F6CDD1D).wrapping_add(n);
                SRC.with(|x| *x.borrow_mut() = Source::Random(s));
                LOG.with(|l| l.borrow_mut().clear());
                REJECTED.with(|r| *r.borrow_mut() = false);
                let r = panic::catch_unwind(f);
                n += 1;
                if REJECTED.with(|r| *r.borrow()) { continue; }
                accepted += 1;
                if r.is_err() { std::process::exit(10); }
            }
            println!("HELD on {} of {} random inputs", accepted, n);
        }
        _ => std::process::exit(3),
    }
}
