"""Engines other than Kani: Verus proofs of mechanically extracted code."""
import concurrent.futures, importlib, json, os, re, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "tools"), os.path.join(HERE, "verus")]
import vx  # noqa: E402

PROOF_ERRORS = (
    "postcondition not satisfied", "precondition not satisfied",
    "precondition not met", "assertion failed", "invariant not satisfied",
    "loop invariant not satisfied", "possible arithmetic underflow/overflow",
    "possible division by zero", "possible bit shift underflow/overflow",
    "decreases not satisfied", "unable to prove", "index in bounds",
    "loop must have a decreases", "assertion not satisfied",
    "could not prove termination", "requires not satisfied",
    "bitvector assertion not satisfied", "assert_nonlinear_by",
)


class Verus:
    """One Verus target (verus/<name>.py); `prefix` maps function names of the
    extracted file to paths of the crate."""
    thorough = False

    def __init__(self, name, functions, timeout=300, keep=None):
        self.name = name
        self.functions = list(functions)
        self.timeout = timeout
        # report only these functions for this property (None: all)
        self.keep = keep

    def verify(self, rm, text, tag, seed=None):
        d = os.path.join(rm.WORK, "verus")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s%s-%s%s.rs" % (self.name, tag, rm.PROP, "" if seed is None else "-s%d" % seed))
        with open(p, "w") as f:
            f.write(text)
        opts = "--rlimit 20" if seed is None else ("--rlimit 40 --smt-option smt.random_seed=%d "
                                        "--smt-option sat.random_seed=%d" % (seed, seed))
        rc, out = rm.sh(["bash", "-c", "exec verus %s --output-json --time-expanded "
                         "--error-format=json --multiple-errors 4 %s 2>%s.err" % (p, opts, p)],
                        timeout=min(self.timeout, rm.left()), cwd=d)
        err = open(p + ".err", errors="replace").read()
        try:
            js = json.loads(out[out.index("{"):])
        except ValueError:
            js = {}
        return rc, js, err

    def judge(self, js, err, where):
        """-> (proof failures, other errors, diagnostics) of one Verus run"""
        diags = []
        for line in err.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("level") == "error" and m.get("message") and \
                    not m["message"].startswith("aborting"):
                diags.append(m)
        fails, limit, other = [], [], []
        for m in diags:
            msg = m["message"]
            lines = sorted((s["line_start"], s["line_end"], (s.get("text") or [{}])[0].get("text", "").strip(),
                            s.get("label")) for s in m.get("spans", [])
                           if s["file_name"].endswith(".rs") and "vstd" not in s["file_name"])
            fn = next((where[a] for a, b, _, _ in lines if a in where),
                      next((where[k] for a, b, _, _ in lines for k in range(a, b + 1) if k in where), None))
            item = dict(description="%s: %s" % (msg, "; ".join(t for _, _, t, _ in lines)[:300]),
                        function=fn[0] if fn else "(lemma)",
                        file=fn[1].rsplit(":", 1)[0] if fn else "verus/%s.py" % self.name,
                        line=fn[1].rsplit(":", 1)[1] if fn else "")
            if "rlimit" in msg or "Resource limit" in msg:
                limit.append(msg)
            elif any(msg.startswith(e) or e in msg for e in PROOF_ERRORS):
                fails.append(item)
            else:
                other.append(msg)
        if not fails and not limit and not other and \
                not (js.get("verification-results") or {}).get("success"):
            other.append(err[-500:] or "no result")
        return fails, limit, other, diags

    def run(self, rm):
        t0 = time.time()
        try:
            mod = importlib.import_module(self.name)
            text, where, info = vx.build(rm.REPO, mod.TARGET)
            canary, _, _ = vx.build(rm.REPO, dict(mod.TARGET, canary=True))
        except vx.Lost as e:
            return self.lost(rm, "extraction: %s" % e, t0)
        rc, js, err = self.verify(rm, text, "")
        if rc is None:
            return self.lost(rm, "verus: time limit", t0)
        fails, limit, other, diags = self.judge(js, err, where)
        seeds = [0]
        if (fails or limit) and not other and not info["unknown"]:
            # the solver's search is heuristic: a proof found with any seed is
            # a proof; a failure counts only when no seed finds one
            aided = vx.aid(text)
            if not limit and all(f["function"] != "(lemma)" for f in fails):
                # every lemma has just been proved without these facts
                aided = re.sub(r"(?m)^pub proof fn", "#[verifier::external_body] pub proof fn", aided)
            with concurrent.futures.ThreadPoolExecutor(4) as ex:
                more = list(ex.map(lambda s: (s,) + (self.verify(rm, text, "", s) if s else self.verify(rm, aided, "-aid")),
                                   (1, 2, 3, None)))
            for s, rc2, js2, err2 in more:
                if rc2 is None:
                    continue
                f2, l2, o2, d2 = self.judge(js2, err2, where if s else vx.where_of(aided))
                if s is None and (f2 or l2 or o2):
                    continue
                s = s or "with facts about shifts"
                seeds.append(s)
                better = not f2 and not l2 and not o2
                if better or (limit and f2 and not o2 and not (fails and l2)):
                    fails, limit, other, diags, js, err = f2, l2, o2, d2, js2, err2
                if better:
                    break
        if not fails:
            other += limit
        res = js.get("verification-results") or {}
        times = {}
        for mt in ((js.get("times-ms") or {}).get("smt") or {}).get("smt-run-module-times", []):
            for f in mt.get("function-breakdown", []):
                times[f["function"].split("::", 1)[-1]] = f["time"] / 1000.0
        solver = sum(times.values())
        verified = res.get("verified", 0)
        if other or (not fails and not res.get("success")):
            return self.lost(rm, "verus: %s" % (other[:2] or err[-500:]), t0)
        if info["unknown"]:
            if fails:
                return self.lost(rm, "functions without contract: %s" % info["unknown"], t0)
        groups = [dict(group="verus:%s" % self.name, backend="verus 0.2026.09.13 / z3",
                       contract_of=info["functions"], obligations=verified + len(fails),
                       discharged=verified, secs=round(time.time() - t0, 2),
                       solver_secs=round(solver, 2), verdict="failed" if fails else "ok",
                       units="one obligation per verified function, lemma or "
                             "recursive definition, each with all its "
                             "postconditions, invariants, asserts, overflow "
                             "and termination checks",
                       slowest=sorted(times.items(), key=lambda t: -t[1])[:6])]
        if len(seeds) > 1:
            groups[0]["solver_seeds_tried"] = seeds
        notes = ["verus:%s extracts on every run from /repo and rewrites only: %s"
                 % (self.name, "; ".join(vx.RULES + [d for _, _, d in mod.TARGET.get("rewrites", [])]))]
        if fails:
            found = bool(rm.VIOLATIONS)
            if not found:
                tail = "\n".join(m.get("rendered", "")[:700] for m in diags[:8])
                rm.violation("verus_" + self.name, tail, fails, False)
            else:
                print("also failed in Verus: " + "; ".join(
                    "%(function)s: %(description)s" % f for f in fails[:4]))
        elif canary is not None:
            # vacuity: with assert(false) at the start of every function under
            # contract, every one of them must fail
            # (lemmas stand by their contracts, loops see what precedes them)
            canary = "#![verifier::loop_isolation(false)] " + re.sub(
                r"(?m)^pub proof fn", "#[verifier::external_body] pub proof fn", canary)
            rc, js, err = self.verify(rm, canary, "-canary")
            bad = []
            hit = set()
            cwhere = vx.where_of(canary)
            for line in err.splitlines():
                try:
                    m = json.loads(line)
                except ValueError:
                    continue
                for s in m.get("spans", []) if m.get("level") == "error" else []:
                    if s["line_start"] in cwhere:
                        hit.add(cwhere[s["line_start"]][0])
            bad = [f for f in info["functions"] if f not in hit]
            if bad and rc is not None:
                raise rm.Failure("vacuous contracts: %s" % bad)
            notes.append("verus:%s vacuity: assert(false) at the start of each of "
                         "the %d functions is refuted" % (self.name, len(info["functions"])))
        return dict(obligations=verified + len(fails), discharged=verified, groups=groups, notes=notes,
                    secs=time.time() - t0)

    def lost(self, rm, why, t0):
        print("UNDECIDED verus:%s (%s): bounded stand-ins only" % (self.name, why[:300]))
        return dict(undecided=["verus:%s: %s; the bounded groups of this check stand in" % (self.name, why[:600])],
                    groups=[dict(group="verus:" + self.name, backend="verus", verdict="undecided",
                                 obligations=0, discharged=0, secs=round(time.time() - t0, 2))],
                    secs=time.time() - t0)
