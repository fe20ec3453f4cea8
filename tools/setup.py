#!/usr/bin/env python3
"""Prebuilds what the checks rebuild incrementally (native and Kani builds of
the dependencies); every check still compiles /repo's current tree."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks, run
run.fresh_target(run.HARNESS)
run.fresh_target(run.REPLAY)
env = dict(os.environ, CARGO_NET_OFFLINE="true")
feats = [p.lower() for p in sorted(checks.CHECKS)]
subprocess.run(["cargo", "build", "--release", "--offline", "-q", "--features",
                ",".join(feats)], cwd=V + "/replay", check=True,
               env=dict(env, RUSTFLAGS="--cfg demixer_verif -Awarnings",
                        RUSTUP_TOOLCHAIN="stable"))
# any harness: builds the crate graph for Kani
f = [c for c in checks.CHECKS.values() if c.kani][0]
subprocess.run(["cargo", "kani", "-Z", "stubbing", "-Z", "function-contracts",
                "-Z", "loop-contracts", "-Z", "unstable-options",
                "--only-codegen", "--features", f.pid.lower()],
               cwd=V + "/harness", check=True, env=env,
               stdout=subprocess.DEVNULL, stderr=subprocess.STDOUT)
