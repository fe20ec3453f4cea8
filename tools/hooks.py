"""When the guarded hooks of /repo no longer compile (a private field was
renamed, say) although the code itself does, a check runs on a copy whose hooks
are repaired mechanically: a renamed field is followed, and a hook that cannot
be repaired panics with LOST, which makes the harnesses that use it undecided.
Nothing outside the guarded hooks differs from /repo's current source."""
import json, os, re, shutil, subprocess, sys

LOST = "verif: hook lost"
GUARD = "#[cfg(any(kani, demixer_verif))]"


def blank(s):
    """Comments, strings and characters as spaces (same length)."""
    return re.sub(r"//[^\n]*|/\*.*?\*/|\"(?:\\.|[^\"\\])*\"|'(?:\\.|[^'\\])'",
                  lambda m: re.sub(r"[^\n]", " ", m.group(0)), s, flags=re.S)


def close(b, i):
    d = 0
    for k in range(i, len(b)):
        d += b[k] in "{" or 0
        d -= b[k] in "}" or 0
        if d == 0:
            return k + 1
    return len(b)


def hook_bodies(s):
    """[(start of fn, start of body, end)] of the functions in guarded items"""
    b, out = blank(s), []
    for m in re.finditer(re.escape(GUARD), s):
        k = b.index("{", m.end())
        end = close(b, k)
        for f in re.finditer(r"\bfn\s+\w+", b[m.end():end]):
            i = m.end() + f.start()
            j = b.index("{", i)
            out.append((i, j, close(b, j)))
    return out


def fn_bodies(s):
    b = blank(s)
    out = []
    for m in re.finditer(r"\bfn\s+\w+", b):
        j = b.find("{", m.end())
        if j >= 0 and ";" not in b[m.end():j]:
            out.append((m.start(), j, close(b, j)))
    return out


def check(crate, cfg, *args):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable",
             RUSTFLAGS=("--cfg demixer_verif " if cfg else "") + "-Awarnings",
             CARGO_TARGET_DIR=os.path.join(os.path.dirname(crate), "target"))
    p = subprocess.run(["cargo", "check", "--offline", "--lib", "-q", "--message-format=json", *args],
                       cwd=crate, env=e, capture_output=True, text=True)
    errs = []
    for l in p.stdout.splitlines():
        try:
            m = json.loads(l).get("message") or {}
        except ValueError:
            continue
        if m.get("level") == "error":
            errs += [(x["file_name"], x["byte_start"], x["byte_end"], m["message"]) for x in m.get("spans", []) if x["is_primary"]][:1]
    return p.returncode == 0, errs


def fields(s, body):
    """Fields of the struct whose impl the hooks stand in."""
    head = [m for m in re.finditer(r"impl(?:<[^>]*>)?\s+(\w+)", s[:body])]
    m = head and re.search(r"struct\s+%s\b[^{;]*\{(.*?)\n\}" % head[-1].group(1), blank(s), re.S)
    return re.findall(r"(?:^|[\n,])\s*(?:pub\s+)?(\w+)\s*:", m.group(1)) if m else []


def repair(repo):
    """True if the hooks compile in the end."""
    for _ in range(8):
        ok, errs = check(repo, True)
        if ok:
            return True
        byfile = {}
        for f, at, to, msg in errs:
            byfile.setdefault(f, []).append((at, to, msg))
        done = False
        for f, es in byfile.items():
            p = os.path.join(repo, f)
            raw = open(p, "rb").read()
            s = raw.decode()
            es = [(len(raw[:a].decode()), len(raw[:z].decode()), m) for a, z, m in es]
            hs = hook_bodies(s)
            edits = {}
            casts = {}
            for at, to, msg in es:
                h = next((h for h in hs if h[0] <= at < h[2]), None)
                if h is None:
                    return False
                edits.setdefault(h, []).append(msg)
                if msg == "mismatched types" and h[1] < at and "TryFrom" not in s[h[1]:h[2]]:
                    casts.setdefault(h, []).append((at, to))
            if not edits:
                return False
            gone = []
            for msgs in edits.values():
                for m in msgs:
                    n = re.search(r"no field (?:named )?`(\w+)`", m)
                    if n and n.group(1) not in gone:
                        gone.append(n.group(1))
            have = fields(s, min(h[0] for h in edits))
            used = "\n".join(s[h[1]:h[2]] for h in hs)
            fresh = [x for x in have if not re.search(r"\b%s\b" % x, used)]
            order = sorted(gone, key=lambda g: re.search(r"\b%s\b" % g, used).start())
            names = dict(zip(order, fresh)) if gone and len(gone) == len(fresh) else {}
            for h in sorted(edits, reverse=True):
                body = s[h[1]:h[2]]
                if names:
                    for a, b in names.items():
                        body = re.sub(r"\.%s\b(?!\s*\()" % a, "." + b, body)
                        body = re.sub(r"(?<=[{,])(\s*)%s(\s*)(?=[,}])" % a, r"\1%s: %s\2" % (b, a), body)
                        body = re.sub(r"(?<=[{,])(\s*)%s(\s*):(?!:)" % a, r"\1%s\2:" % b, body)
                if not names and len(casts.get(h, [])) == len(edits[h]):
                    # a field of another integer type: checked conversion
                    for at, to in sorted(casts[h], reverse=True):
                        x = s[at:to]
                        short = re.fullmatch(r"\w+", x) and re.search(r"[{,]\s*$", s[h[1]:at]) and re.match(r"\s*[,}]", s[to:])
                        body = body[:at - h[1]] + (x + ": " if short else "") + \
                            'match ::std::convert::TryFrom::try_from(%s) { Ok(v) => v, Err(_) => panic!("%s") }' % (x, LOST) + body[to - h[1]:]
                if body == s[h[1]:h[2]]:
                    body = '{ panic!("%s") }' % LOST
                s = s[:h[1]] + body + s[h[2]:]
                done = True
            open(p, "w").write(s)
        if not done:
            return False
    return False


def drop_lost(harness, prop):
    """Harness functions that use what the code no longer has are made to panic
    with LOST.  True if the harnesses of the property compile in the end."""
    for _ in range(6):
        ok, errs = check(harness, True, "--features", prop.lower())
        if ok:
            return True
        hit = {}
        for f, at, _, _ in errs:
            p = os.path.join(harness, f)
            if not os.path.abspath(p).startswith(os.path.join(harness, "src")):
                return False
            raw = open(p, "rb").read()
            at = len(raw[:at].decode())
            inside = [h for h in fn_bodies(raw.decode()) if h[0] <= at < h[2]]
            if not inside:
                return False
            hit.setdefault(p, set()).add(min(inside, key=lambda h: h[0]))
        if not hit:
            return False
        for p, hs in hit.items():
            s = open(p).read()
            for h in sorted(hs, reverse=True):
                s = s[:h[1]] + '{ panic!("%s") }' % LOST + s[h[2]:]
            open(p, "w").write(s)
    return False


def rerun(verif, repo, work, prop, t0):
    """Exit status of the check on the copy, None if that cannot help."""
    d = os.path.join(work, "hooks-" + prop)
    shutil.rmtree(d, ignore_errors=True)
    skip = shutil.ignore_patterns("target", ".git", "work", "seeded", "evidence", "replays", "__pycache__")
    try:
        shutil.copytree(repo, os.path.join(d, "repo"), ignore=skip)
        if not check(os.path.join(d, "repo"), False)[0] or not repair(os.path.join(d, "repo")):
            return None
        v = os.path.join(d, "verif")
        shutil.copytree(verif, v, ignore=skip)
        if not drop_lost(os.path.join(v, "harness"), prop):
            return None
        print("NOTE runs in a copy: a guarded hook of /repo, or a harness, no longer compiles with the code", flush=True)
        p = subprocess.run([sys.executable, "run.py", prop], cwd=v, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=os.path.join(d, "repo"), VERIF_HOOKS="repaired", VERIF_T0=str(t0)))
        for sub in ("evidence", "replays"):
            if os.path.isdir(os.path.join(v, sub)):
                for f in os.listdir(os.path.join(v, sub)):
                    os.makedirs(os.path.join(verif, sub), exist_ok=True)
                    t = open(os.path.join(v, sub, f), errors="replace").read()
                    with open(os.path.join(verif, sub, f), "w") as o:
                        o.write(t.replace(v + "/", verif + "/"))
        sys.stdout.write(p.stdout.replace(v + "/", verif + "/"))
        sys.stderr.write(p.stderr)
        sys.stdout.flush()
        return p.returncode
    finally:
        shutil.rmtree(d, ignore_errors=True)
