#!/usr/bin/env python3
"""run.py PROPERTY: decides one property against /repo's current tree.

exit 0  every obligation discharged (or a stated bounded stand-in held)
exit 1  `VIOLATION property=<id> replay=<path> [no-failing-input-found]`
exit 2  the machinery itself failed (harness does not compile, tool missing)
"""
import hashlib, json, os, re, subprocess, sys, time, shutil

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
import checks  # noqa: E402
from tools import hooks  # noqa: E402

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
T0 = float(os.environ.get("VERIF_T0") or time.time())
WORK = os.path.join(VERIF, "work")
REPLAYS = os.path.join(VERIF, "replays")
HARNESS = os.path.join(VERIF, "harness")
REPLAY = os.path.join(VERIF, "replay")
DEADLINE = T0 + (800 if TIER == "quick" else 6 * 3600)


def left():
    return max(5.0, DEADLINE - time.time())


def sh(cmd, timeout=None, env=None, cwd=VERIF):
    """Runs a command in its own session; (exit status or None on timeout, out)."""
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e.update(dict(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never"))
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True, errors="replace",
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        return None, out


class Failure(Exception):
    pass


def tree_hash():
    """Content hash of everything of /repo that is compiled."""
    h = hashlib.sha256()
    for base, dirs, files in sorted(os.walk(os.path.join(REPO, "src"))):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(base, f)
            h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    for f in ("Cargo.toml", "Cargo.lock"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            h.update(open(p, "rb").read())
    return h.hexdigest()


def fresh_target(crate):
    """Cargo decides by modification times; build products of another tree
    (equal or older times notwithstanding) are never reused."""
    t = os.path.join(crate, "target")
    stamp = os.path.join(t, "tree-hash")
    want = tree_hash()
    have = open(stamp).read() if os.path.exists(stamp) else None
    if have != want:
        shutil.rmtree(t, ignore_errors=True)
        os.makedirs(t)
        with open(stamp, "w") as f:
            f.write(want)


# --------------------------------------------------------------------------
# native build of the harnesses and of the real code (replay, evaluation)

_native = {}


def native_bin():
    if "bin" not in _native:
        fresh_target(REPLAY)
        rc, out = sh(["cargo", "build", "--release", "--offline", "-q",
                      "--features", PROP.lower()],
                     timeout=600, cwd=REPLAY,
                     env=dict(RUSTFLAGS="--cfg demixer_verif -Awarnings",
                              RUSTUP_TOOLCHAIN="stable"))
        if rc != 0:
            raise Failure("native harness build failed:\n" + out[-3000:])
        _native["bin"] = os.path.join(REPLAY, "target", "release", "replay")
    return _native["bin"]


# --------------------------------------------------------------------------
# Kani

def kani_cmd(hs, extra=()):
    cmd = ["cargo", "kani", "-Z", "unstable-options", "-Z", "function-contracts",
           "-Z", "stubbing", "-Z", "loop-contracts",
           "--features", PROP.lower(), "--exact",
           "--no-assertion-reach-checks"]
    for h in hs:
        cmd += ["--harness", h.qual]
    return cmd + list(extra)


FAIL_RE = re.compile(r"^Failed Checks: (.*)$")
FILE_RE = re.compile(r'^\s*File: "([^"]*)", line (\d+), in (.*)$')


def run_kani(hs, timeout_s, unwind=None, tag="main"):
    """Runs the harnesses; returns {name: result dict}."""
    os.makedirs(WORK, exist_ok=True)
    js = os.path.join(WORK, "kani-%s-%s.json" % (PROP, tag))
    if os.path.exists(js):
        os.remove(js)
    extra = ["--export-json", js, "-j", str(min(8, max(1, len(hs)))),
             "--output-format", "terse",
             "--harness-timeout", "%ds" % int(timeout_s)]
    if unwind and len(hs) == 1:
        extra += ["--unwind", str(unwind)]
    rc, out = sh(kani_cmd(hs, extra), timeout=left(), cwd=HARNESS)
    with open(os.path.join(WORK, "kani-%s-%s.log" % (PROP, tag)), "w") as f:
        f.write(out)
    if "error: could not compile" in out or not os.path.exists(js):
        if rc is None:
            return {}, out  # nothing decided
        if "could not compile `demixer`" in out:
            raise Failure("/repo does not compile:\n" + out[-3000:])
        raise Failure("cargo kani failed:\n" + "\n".join(
            l for l in out.splitlines() if l.startswith("error"))[:3000]
            + out[-1500:])
    d = json.load(open(js))
    res = {}
    stats = {x["harness_id"]: x.get("cbmc_stats") or {}
             for x in d.get("cbmc", [])}
    props = {x["harness_id"]: x["property_details"]
             for x in d.get("property_details", [])}
    for r in d["verification_results"]["results"]:
        q = r["harness_id"]
        res[q] = dict(status=r.get("status"), secs=(r.get("duration_ms") or 0)
                      / 1000.0, props=props.get(q, {}), stats=stats.get(q, {}),
                      checks=r.get("checks", []), raw=r)
    return res, out


def classify(r, h):
    """-> (verdict, [failed checks]) with verdict in
    ok / failed / unwind / vacuous / undecided"""
    if r is None:
        return "undecided", []
    failed, unwind, unsat, undet, panics = [], [], [], 0, 0
    for c in r["checks"]:
        st = (c.get("status") or "").upper()
        desc = c.get("description") or ""
        if hooks.LOST in desc and st in ("FAILURE", "FAILED"):
            return "lost", []
        loc = c.get("location") or {}
        item = dict(description=desc,
                    category=c.get("category") or c.get("property_class") or "",
                    function=c.get("function") or loc.get("function") or "",
                    file=loc.get("file") or "", line=loc.get("line") or "")
        cover = item["category"] == "cover"
        if "NEVER" in desc:
            # must be unreachable: the code accepted what it must reject
            if st == "SATISFIED":
                failed.append(item)
            elif st not in ("UNSATISFIABLE", "UNREACHABLE"):
                undet += 1
        elif cover:
            if st in ("UNSATISFIABLE", "UNREACHABLE"):
                unsat.append(item)
            elif st != "SATISFIED":
                undet += 1
        elif st in ("FAILURE", "FAILED"):
            if "unwinding assertion" in desc or "recursion unwinding" in desc:
                unwind.append(item)
            elif h.rejects and item["category"] == "assertion" \
                    and "with overflow" not in desc:
                panics += 1
            else:
                failed.append(item)
        elif st in ("UNDETERMINED", "UNKNOWN", "SOLVERERROR"):
            undet += 1
    if failed:
        return "failed", failed
    if unwind:
        return "unwind", unwind
    if (r["status"] or "").lower() not in ("success", "successful") or undet:
        return "undecided", []
    if unsat or (h.rejects and not panics):
        return "vacuous", unsat
    return "ok", []


VEC_RE = re.compile(r"vec!\[([0-9, ]*)\]")


def counterexamples(h, unwind=None):
    """Concrete values of failing traces, from Kani's concrete playback."""
    extra = ["-Z", "concrete-playback", "--concrete-playback=print",
             "--harness-timeout", "%ds" % int(min(h.timeout * 2, left()))]
    if unwind:
        extra += ["--unwind", str(unwind)]
    rc, out = sh(kani_cmd([h], extra), timeout=left(), cwd=HARNESS)
    ces = []
    for block in re.split(r"let concrete_vals: Vec<Vec<u8>> = vec!\[", out)[1:]:
        body = block.split("];\n")[0]
        vals = []
        for line in body.splitlines():
            m = VEC_RE.search(line)
            if m:
                vals.append([int(x) for x in m.group(1).split(",") if x.strip()])
        ces.append(vals)
    return ces, out


def native_run(h, vals):
    arg = ",".join("".join("%02x" % b for b in v) for v in vals)
    rc, out = sh([native_bin(), "run", h.name, arg], timeout=min(120, left()))
    return rc, out, arg


def native_search(h, millis):
    rc, out = sh([native_bin(), "search", h.name, str(SEED), str(millis)],
                 timeout=millis / 1000.0 + 60)
    return (0 if hooks.LOST in out else rc), out


def find_input(h, unwind=None, search_ms=20000):
    """Tries to obtain a failing input on the real code; (kind, info) or None."""
    kani_out = ""
    if h.replayable:
        try:
            ces, kani_out = counterexamples(h, unwind)
        except Failure:
            ces = []
        for vals in ces:
            rc, out, arg = native_run(h, vals)
            if rc == 10 or (rc is not None and rc < 0) or rc == 134:
                return dict(kind="counterexample", harness=h.name, inputs=arg,
                            native_output=out[-2000:],
                            command="%s run %s %s" % ("replay/target/release/replay",
                                                      h.name, arg)), kani_out
        rc, out = native_search(h, search_ms)
        if rc == 10 or (rc is not None and rc < 0) or rc == 134:
            m = re.search(r"^INPUTS (.*)$", out, re.M)
            arg = m.group(1) if m else ""
            return dict(kind="native-search", harness=h.name, inputs=arg,
                        native_output=out[-2000:],
                        command="%s run %s %s" % ("replay/target/release/replay",
                                                  h.name, arg)), kani_out
        if rc is None:
            return dict(kind="native-nontermination", harness=h.name, inputs="",
                        native_output="the real code does not terminate on a "
                        "random input of this seed\n" + out[-1000:],
                        command="%s search %s %d %d" % (
                            "replay/target/release/replay", h.name, SEED,
                            search_ms)), kani_out
    return None, kani_out


# --------------------------------------------------------------------------
# reporting

def known_findings():
    """Lines `known: property=<id> key=<key> <text>` of known-findings.txt."""
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == PROP:
                out.append((m.group(2), m.group(3)))
    return out


VIOLATIONS = []


def violation(name, info, obligations, found):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-%s.json" % (PROP, re.sub(r"\W+", "_", name)))
    with open(path, "w") as f:
        json.dump(dict(property=PROP, obligation_group=name,
                       failed_obligations=obligations,
                       failing_input=info if found else None,
                       verifier_output=None if found else info,
                       rebuild="cd /verif/replay && RUSTFLAGS='--cfg "
                       "demixer_verif' cargo build --release --offline"), f,
                  indent=1)
    line = "VIOLATION property=%s replay=%s" % (PROP, path)
    if not found:
        line += " no-failing-input-found"
    VIOLATIONS.append(line)
    print("failed obligations in %s:" % name)
    for o in obligations[:8]:
        print("  - %s" % (o if isinstance(o, str) else
                          "%(description)s [%(function)s %(file)s:%(line)s]" % o))
    if found:
        print("  input: %s" % json.dumps(info)[:1500])
    print(line, flush=True)


def main():
    spec = checks.CHECKS[PROP]
    ev = dict(property=PROP, tier=TIER, seed=SEED, level=spec.level,
              coverage={}, assumptions=list(spec.assumptions), wall_s=0.0,
              violations=0)
    cov = ev["coverage"]
    ob = dis = 0
    bounded_ob = bounded_dis = 0
    groups, undecided, notes = [], [], []
    backend_secs = 0.0

    fresh_target(HARNESS)
    hs = [h for h in spec.kani if TIER == "thorough" or not h.thorough]
    if hs:
        timeout = max(h.timeout for h in hs) * (4 if TIER == "thorough" else 1)
        res, _ = run_kani(hs, timeout)
        for h in hs:
            r = res.get(h.qual)
            verdict, items = classify(r, h)
            unwind = None
            if verdict == "unwind":
                # a rewritten loop may need a larger bound: same obligations
                for unwind in (h.unwind * 2, h.unwind * 4):
                    rr, _ = run_kani([h], timeout, unwind=unwind, tag="unwind")
                    r = rr.get(h.qual)
                    verdict, items2 = classify(r, h)
                    if verdict != "unwind":
                        items = items2
                        break
            p = (r or {}).get("props") or {}
            n = lambda k: p.get(k) or 0  # noqa: E731 (absent after a timeout)
            total = n("total_properties")
            passed = n("passed") + n("unreachable")
            sat = n("satisfied")
            if h.rejects and verdict == "ok":
                # failed asserts are the required rejections; the obligation
                # is that the point after the call is unreachable
                passed = total - sat
            g = dict(group=h.name, backend="kani/cbmc+" + h.solver,
                     contract_of=h.functions, obligations=total - sat,
                     discharged=passed, covers_satisfied=sat,
                     secs=round((r or {}).get("secs", 0), 2), verdict=verdict)
            if h.bound:
                g["bounded"] = h.bound
            groups.append(g)
            backend_secs += (r or {}).get("secs", 0)
            if h.bound:
                bounded_ob += total - sat
                bounded_dis += passed
            else:
                ob += total - sat
                dis += passed
            if verdict == "ok" and total == 0:
                raise Failure("no obligations generated for " + h.name)
            if verdict == "ok":
                continue
            if verdict == "lost":
                undecided.append("%s: %s" % (h.name, hooks.LOST))
                print("UNDECIDED %s (%s)" % (h.name, hooks.LOST))
                continue
            if verdict == "failed":
                if len(VIOLATIONS) >= 1 and time.time() - T0 > 300:
                    continue
                info, kout = find_input(h, unwind)
                if info is not None:
                    violation(h.name, info, items, True)
                else:
                    tail = [l for l in kout.splitlines()
                            if "warning" not in l][-60:]
                    violation(h.name, "\n".join(tail), items, False)
            else:
                # unwinding bound, vacuity or solver limit: not decided by the
                # verifier; a bounded native search stands in
                info, _ = (None, "")
                rc, out = native_search(h, h.fallback_ms) if h.replayable \
                    else (0, "")
                if rc == 10 or rc is None or (rc and rc < 0) or rc == 134:
                    m = re.search(r"^INPUTS (.*)$", out, re.M)
                    violation(h.name, dict(
                        kind="native-search" if rc is not None else
                        "native-nontermination", inputs=m.group(1) if m else "",
                        native_output=out[-2000:]),
                        ["undecided by the verifier (%s), failing input found "
                         "by bounded search" % verdict], True)
                else:
                    undecided.append("%s: %s; bounded native search instead: %s"
                                     % (h.name, verdict, out.strip()[-200:]))
                    print("UNDECIDED %s (%s): bounded stand-in held"
                          % (h.name, verdict))

    # complete (or, where labelled, bounded) native evaluation
    evs = [e for e in spec.evals if TIER == "thorough" or not e.thorough]
    evaluations = distinct = 0
    samples = []
    for e in evs:
        t1 = time.time()
        rc, out = sh([native_bin(), "eval", e.name],
                     timeout=min(left(), e.timeout * (20 if TIER == "thorough" else 1)),
                     env=dict(VERIF_TIER=TIER, VERIF_SEED=str(SEED)))
        m = re.search(r"^EVALUATED (\d+) (\d+)$", out, re.M)
        g = dict(group=e.name, contract_of=e.functions,
                 backend="native evaluation of the real code, " +
                 ("bounded" if e.bound else "complete finite domain"),
                 secs=round(time.time() - t1, 2))
        if e.bound:
            g["bounded"] = e.bound
            bounded_ob += 1
        else:
            ob += 1
        if hooks.LOST in out:
            g.update(verdict="undecided", obligations=1, discharged=0)
            undecided.append("%s: %s" % (e.name, hooks.LOST))
            print("UNDECIDED %s (%s)" % (e.name, hooks.LOST))
        elif rc == 0 and m:
            g.update(verdict="ok", obligations=1, discharged=1,
                     evaluations=int(m.group(1)), distinct=int(m.group(2)))
            evaluations += int(m.group(1))
            distinct += int(m.group(2))
            samples += [e.name + ": " + x for x in
                        re.findall(r"^SAMPLE (.*)$", out, re.M)][:4]
            if e.bound:
                bounded_dis += 1
            else:
                dis += 1
        else:
            g.update(verdict="failed" if rc is not None else "timeout",
                     obligations=1, discharged=0)
            if rc == 3:
                raise Failure(out[-500:])
            f = re.search(r"^FAILED (.*)$", out, re.M)
            violation(e.name, dict(
                kind="evaluation", failing=f.group(1) if f else
                ("does not terminate" if rc is None else out[-1500:]),
                command="replay/target/release/replay eval " + e.name),
                ["%s: %s" % (e.name, f.group(1)[:300] if f else
                             "evaluation died (%s)" % rc)], True)
        backend_secs += time.time() - t1
        groups.append(g)
    if evs:
        cov.update(evaluations=evaluations, distinct_nontrivial=distinct,
                   rule="; ".join("%s: %s%s" % (e.name, e.rule, " (%s)" % e.bound
                                  if e.bound else "") for e in evs),
                   samples=samples or ["see groups"])

    # extra engines (Verus, complete native evaluation, bounded enumeration)
    for eng in spec.engines:
        if eng.thorough and TIER != "thorough":
            continue
        r = eng.run(sys.modules[__name__])
        ob += r.get("obligations", 0)
        dis += r.get("discharged", 0)
        bounded_ob += r.get("bounded_obligations", 0)
        bounded_dis += r.get("bounded_discharged", 0)
        groups += r.get("groups", [])
        undecided += r.get("undecided", [])
        notes += r.get("notes", [])
        for k, v in (r.get("coverage") or {}).items():
            cov[k] = v
        backend_secs += r.get("secs", 0)

    for key, text in known_findings():
        print("KNOWN-FINDING: property=%s %s" % (PROP, text))

    cov.update(dict(
        obligations=ob, discharged=dis,
        checker_cmd="python3 run.py %s" % PROP,
        trusted_base=list(checks.TRUSTED_BASE)
        + (list(checks.VERUS_BASE) if spec.engines else []) + list(spec.trusted),
        functions_under_contract=sorted({f for h in hs + evs for f in h.functions}
                                        | {f for e in spec.engines
                                           for f in e.functions}),
        backend_seconds=round(backend_secs, 2),
        groups=groups, undecided=undecided, notes=notes))
    if bounded_ob:
        cov["bounded_stand_ins"] = dict(obligations=bounded_ob,
                                        discharged=bounded_dis)
    ev["wall_s"] = round(time.time() - T0, 2)
    ev["violations"] = len(VIOLATIONS)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", PROP + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d/%d obligations discharged%s, %d violation(s), %.1f s" % (
        PROP, dis, ob, (", bounded stand-ins %d/%d" % (bounded_dis, bounded_ob))
        if bounded_ob else "", len(VIOLATIONS), ev["wall_s"]))
    return 1 if VIOLATIONS else 0


if __name__ == "__main__":
    PROP = sys.argv[1]
    try:
        sys.exit(main())
    except Failure as e:
        if re.search(r"could not compile `(demixer|vh)`", str(e)) and not VIOLATIONS and not os.environ.get("VERIF_HOOKS"):
            rc = hooks.rerun(VERIF, REPO, WORK, PROP, T0)
            if rc is not None:
                sys.exit(rc)
        print("ERROR property=%s %s" % (PROP, e))
        sys.exit(1 if VIOLATIONS else 2)
