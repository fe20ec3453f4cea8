//! C28: what the program reports about a file.
use crate::nd::*;

/// The program itself (src/main.rs), as a function.
#[cfg(not(kani))]
mod program {
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../repo/src/main.rs"));
    pub fn run() { main() }
}

#[cfg(not(kani))]
fn input(case: u64, seed: u64) -> Vec<u8> {
    let mut r = eval::Rng(seed.wrapping_mul(0x1F3D).wrapping_add(case));
    match case {
        0 => vec![],
        1 => vec![0x80],
        2 => vec![1],
        3 => (0..=255).collect(),
        4 => vec![0; 700],
        5 => vec![255; 700],
        6 => b"abracadabra, ".iter().cycle().take(2000).cloned().collect(),
        7 => (0..20000).map(|_| b"etaoin shrdlu\n"[r.below(14) as usize]).collect(),
        8 => (0..66000u32).map(|i| (i >> 8) as u8).collect(),
        _ => { let n = 1 + r.below(3000); let m = 1 << r.below(9); (0..n).map(|_| r.below(m) as u8).collect() }
    }
}

#[cfg(not(kani))]
fn report(case: u64, seed: u64) -> Result<(Vec<u8>, String), String> {
    let data = input(case, seed);
    let dir = std::env::temp_dir().join(format!("vh-c28-{}-{}", std::process::id(), case));
    let out = std::fs::create_dir_all(&dir)
        // the program reads the file its first argument names
        .and_then(|_| std::fs::write(dir.join("eval"), &data))
        .and_then(|_| std::process::Command::new(std::env::current_exe()?)
            .args(&["eval", "c28_report"]).env("C28_RUN", "1").current_dir(&dir).output());
    let _ = std::fs::remove_dir_all(&dir);
    let out = out.map_err(|e| e.to_string())?;
    ensure!(out.status.success(), "file {} ({} bytes): the program failed: {}", case, data.len(),
            String::from_utf8_lossy(&out.stderr).lines().last().unwrap_or(""));
    Ok((data, String::from_utf8_lossy(&out.stdout).into_owned()))
}

/// The report against the length and the summed cost of the bits.
#[cfg(not(kani))]
fn compare(case: u64, data: &[u8], text: &str, luts: &demixer::lut::LookUpTables) -> Result<(), String> {
    use demixer::bit::Bit;
    use demixer::fixed_point::FixedPoint;
    let mut p = demixer::predictor::Predictor::new(luts);
    let mut cost = 0f64;
    for &b in data {
        p.start_new_byte();
        for k in 0..8 {
            let one = b & (128 >> k) != 0;
            let zero = p.predict().as_f64();
            cost += (if one { 1.0 - zero } else { zero }).log2().abs();
            p.update(if one { Bit::One } else { Bit::Zero });
        }
    }
    let n = data.len() as f64;
    for &(label, want, half) in &[
        ("total cost in bytes", cost / 8.0, 0.00051), ("total cost in bits", cost, 0.00051), ("input length", n, 0.0),
        ("average cost", cost / n, 0.0000051), ("compression ratio", n * 8.0 / cost, 0.00051)] {
        let line = text.lines().find(|l| l.split('=').next().unwrap_or("").trim() == label)
            .ok_or_else(|| format!("file {} ({} bytes): no {} reported", case, data.len(), label))?;
        let v: f64 = line.split('=').nth(1).and_then(|t| t.split_whitespace().next()).and_then(|t| t.parse().ok())
            .ok_or_else(|| format!("file {}: {}", case, line))?;
        ensure!(v == want || v.is_nan() && want.is_nan() || (v - want).abs() <= half + want.abs() * 1e-9,
                "file {} ({} bytes, first {:?}): {} is {}, but reported: {}", case, data.len(), &data[..data.len().min(8)], label, want, line);
    }
    Ok(())
}

evals! {
    //@ of: main::estimate_compression
    //@ bound: 24 files of up to 66000 bytes
    //@ rule: the printed report against the file's length and the summed cost of its bits
    fn c28_report() {
        if std::env::var("C28_RUN").is_ok() {
            program::run();
            std::process::exit(0);
        }
        let seed = eval::seed();
        let luts = demixer::lut::LookUpTables::new();
        eval::par(24, |case| {
            let (data, text) = report(case, seed)?;
            compare(case, &data, &text, &luts)
        })
    }
    //@ of: main::estimate_compression
    //@ bound: 4 inputs that arrive in pieces
    //@ rule: the report does not depend on how much a read returns
    fn c28_pieces() {
        if std::env::var("C28_RUN").is_ok() {
            program::run();
            std::process::exit(0);
        }
        let seed = eval::seed();
        let luts = demixer::lut::LookUpTables::new();
        eval::par(4, |i| {
            use std::io::Write;
            let data = input(20 + i, seed);
            let dir = std::env::temp_dir().join(format!("vh-c28p-{}-{}", std::process::id(), i));
            let run = || -> std::io::Result<std::process::Output> {
                std::fs::create_dir_all(&dir)?;
                std::os::unix::fs::symlink("/proc/self/fd/0", dir.join("eval"))?;
                let mut child = std::process::Command::new(std::env::current_exe()?)
                    .args(&["eval", "c28_pieces"]).env("C28_RUN", "1").current_dir(&dir)
                    .stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped())
                    .stderr(std::process::Stdio::piped()).spawn()?;
                let mut pipe = child.stdin.take().unwrap();
                for piece in data.chunks(1 + data.len() / 3) {
                    let _ = pipe.write_all(piece);
                    std::thread::sleep(std::time::Duration::from_millis(700));
                }
                drop(pipe);
                child.wait_with_output()
            };
            let out = run();
            let _ = std::fs::remove_dir_all(&dir);
            let out = out.map_err(|e| e.to_string())?;
            ensure!(out.status.success(), "{} bytes in three pieces: the program failed", data.len());
            compare(20 + i, &data, &String::from_utf8_lossy(&out.stdout), &luts).map_err(|e| format!("in three pieces: {}", e))
        })
    }
    //@ of: main::estimate_compression
    //@ bound: a directory and a missing file in the place of the file
    //@ rule: what cannot be read to its end gives an error
    fn c28_unreadable() {
        if std::env::var("C28_RUN").is_ok() {
            program::run();
            std::process::exit(0);
        }
        eval::par(2, |case| {
            let dir = std::env::temp_dir().join(format!("vh-c28u-{}-{}", std::process::id(), case));
            let out = std::fs::create_dir_all(if case == 0 { dir.join("eval") } else { dir.clone() })
                .and_then(|_| std::process::Command::new(std::env::current_exe()?)
                    .args(&["eval", "c28_unreadable"]).env("C28_RUN", "1").current_dir(&dir).output());
            let _ = std::fs::remove_dir_all(&dir);
            let out = out.map_err(|e| e.to_string())?;
            ensure!(!out.status.success() && !String::from_utf8_lossy(&out.stdout).contains("input length"),
                    "{}: the program reports on it", if case == 0 { "a directory" } else { "a missing file" });
            Ok(())
        })
    }
}

harnesses! {}
