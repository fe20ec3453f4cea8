"""Mechanical extraction of real functions for Verus.

`build(target)` reads /repo's current source, cuts out the items the target
names, splices the contracts (requires/ensures after the signature, a proof
block at the start of a body, invariants and proof blocks at loops) and writes
one Verus file.  Nothing of a function body is retyped by hand; what is
rewritten or dropped is the list RULES below plus the target's own `rewrites`,
and both are reported in the evidence.
"""
import os, re

RULES = [
    "items under #[cfg(any(kani, demixer_verif))] and #[cfg(test)] are left out",
    "comments and attributes are left out (derives: see the target's prelude)",
    "assert!(c, ..) / assert_eq!(a, b) / assert_ne!(a, b) become the proof "
    "obligations { let l = a; let r = b; assert(l == r) }: the operands are "
    "evaluated as written and the run-time check is proved never to fire",
    "the return value gets a name for the contract; unnamed loop indices `_` "
    "get one",
    "lifetime parameters are dropped where the target says so",
]


class Lost(Exception):
    """The source no longer has the shape the extraction needs."""


def blank(src):
    """Comments, strings and char literals replaced by spaces (same length)."""
    out, i, n = list(src), 0, len(src)

    def wipe(a, b):
        for k in range(a, b):
            if out[k] != "\n":
                out[k] = " "
    while i < n:
        if src.startswith("//", i):
            j = src.find("\n", i)
            j = n if j < 0 else j
            wipe(i, j)
            i = j
        elif src.startswith("/*", i):
            depth, j = 1, i + 2
            while j < n and depth:
                if src.startswith("/*", j):
                    depth += 1
                    j += 2
                elif src.startswith("*/", j):
                    depth -= 1
                    j += 2
                else:
                    j += 1
            wipe(i, j)
            i = j
        elif src[i] == '"':
            j = i + 1
            while j < n and src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            wipe(i + 1, j)
            i = j + 1
        elif src[i] == "'" and re.match(r"'(\\.|[^\\'])'", src[i:i + 4]):
            m = re.match(r"'(\\.|[^\\'])'", src[i:i + 4])
            wipe(i + 1, i + m.end() - 1)
            i += m.end()
        else:
            i += 1
    return "".join(out)


def strip_comments(src):
    b = blank(src)
    # keep strings: only blank what is a comment
    out, i = [], 0
    for m in re.finditer(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"', src, re.S):
        s = m.group(0)
        out.append(src[i:m.start()])
        out.append(s if s.startswith('"') else re.sub(r"[^\n]", " ", s))
        i = m.end()
    out.append(src[i:])
    r = "".join(out)
    return r if len(r) == len(src) else src


def close(b, i):
    """Index after the bracket matching the one at i (in blanked text)."""
    pair = {"{": "}", "(": ")", "[": "]"}
    want, stack = None, []
    for k in range(i, len(b)):
        c = b[k]
        if c in pair:
            stack.append(pair[c])
        elif c in "})]":
            if not stack or stack[-1] != c:
                raise Lost("unbalanced brackets")
            stack.pop()
            if not stack:
                return k + 1
    raise Lost("unbalanced brackets")


class Fn:
    def __init__(self, name, sig, body, line):
        self.name, self.sig, self.body, self.line = name, sig, body, line


class File:
    def __init__(self, repo, rel):
        p = os.path.join(repo, rel)
        if not os.path.exists(p):
            raise Lost("no file " + rel)
        self.rel = rel
        self.src = strip_comments(open(p).read())
        self.b = blank(self.src)
        # leave out guarded items
        for m in list(re.finditer(r"#\[cfg\((any\(kani|test)[^\]]*\]", self.b)):
            o = self.b.find("{", m.end())
            if o < 0:
                continue
            e = close(self.b, o)
            self.src = self.src[:m.start()] + re.sub(r"[^\n]", " ", self.src[m.start():e]) + self.src[e:]
            self.b = self.b[:m.start()] + re.sub(r"[^\n]", " ", self.b[m.start():e]) + self.b[e:]

    def line(self, pos):
        return self.src.count("\n", 0, pos) + 1

    def item(self, kind, name):
        m = re.search(r"(?:pub(?:\([a-z]+\))?\s+)?\b%s\s+%s\b[^;{(]*([;{(])" % (kind, re.escape(name)), self.b)
        if not m:
            raise Lost("no %s %s in %s" % (kind, name, self.rel))
        if m.group(1) == ";":
            return self.src[m.start():m.end()], self.line(m.start())
        e = close(self.b, m.end() - 1)
        if m.group(1) == "(":
            e = self.b.index(";", e) + 1
        return self.src[m.start():e], self.line(m.start())

    def const(self, name):
        m = re.search(r"\bconst\s+%s\s*:[^=;]*=[^;]*;" % re.escape(name), self.b)
        if not m:
            raise Lost("no const %s in %s" % (name, self.rel))
        return self.src[m.start():m.end()], self.line(m.start())

    def impls(self, header):
        """Bodies of all impl/trait blocks whose header (spaces squeezed)
        equals `header`."""
        out = []
        for m in re.finditer(r"\b(?:unsafe\s+)?(?:impl|pub trait|trait)\b[^;{}]*\{", self.b):
            h = re.sub(r"\s+", " ", self.src[m.start():m.end() - 1]).strip()
            if h == header:
                e = close(self.b, m.end() - 1)
                out.append((m.end(), e - 1))
        if not out:
            raise Lost("no `%s` in %s" % (header, self.rel))
        return out

    def members(self, start, end):
        """Functions and other items of a block, in order."""
        fns, rest, i = [], [], start
        depth0 = start
        pat = re.compile(r"(?:#\[[^\]]*\]\s*)*((?:pub(?:\([a-z]+\))?\s+)?(?:const\s+)?(?:unsafe\s+)?fn\s+(\w+)|(?:pub(?:\([a-z]+\))?\s+)?const\s+(\w+)\s*:|type\s+(\w+)\b)")
        while True:
            m = pat.search(self.b, i, end)
            if not m:
                break
            if m.group(2):
                # the body is the first { at bracket depth 0 after the name
                k = m.end()
                while k < end and self.b[k] not in "{;":
                    if self.b[k] in "([":
                        k = close(self.b, k)
                    else:
                        k += 1
                sig = self.src[m.start(1):k].strip()
                if self.b[k] == ";":
                    i = k + 1
                    continue
                e = close(self.b, k)
                fns.append(Fn(m.group(2), sig, self.src[k + 1:e - 1], self.line(m.start(1))))
                i = e
            else:
                k = m.end()
                while self.b[k] != ";":
                    k = close(self.b, k) if self.b[k] in "([{" else k + 1
                rest.append((m.group(3) or m.group(4), self.src[m.start(1):k + 1], self.line(m.start(1))))
                i = k + 1
        return fns, rest

    def free_fn(self, name, module=None):
        lo, hi = 0, len(self.b)
        if module:
            m = re.search(r"\bmod\s+%s\s*\{" % re.escape(module), self.b)
            if not m:
                raise Lost("no mod %s in %s" % (module, self.rel))
            lo, hi = m.end(), close(self.b, m.end() - 1) - 1
        for m in re.compile(r"(?:pub(?:\([a-z]+\))?\s+)?(?:const\s+)?fn\s+%s\b" % re.escape(name)).finditer(self.b, lo, hi):
            fns, _ = self.members(m.start(), hi)
            if fns and fns[0].name == name:
                return fns[0]
        raise Lost("no fn %s in %s" % (name, self.rel))


def asserts(s, partial=False):
    """assert macros -> obligations; in a `partial` target -> calls that return
    only if the condition holds (the run-time check stops otherwise)"""
    while True:
        b = blank(s)
        m = re.search(r"\b(?:debug_)?assert(_eq|_ne)?!\s*\(", b)
        if not m:
            return s
        e = close(b, m.end() - 1)
        args, depth, last = [], 0, m.end()
        for k in range(m.end(), e - 1):
            c = b[k]
            if c in "([{":
                depth += 1
            elif c in ")]}":
                depth -= 1
            elif c == "," and depth == 0:
                args.append(s[last:k])
                last = k + 1
        args.append(s[last:e - 1])
        args = [a.strip() for a in args if a.strip()]
        kind = m.group(1)
        if partial:
            r = "vx_stop_unless(%s.%s())" % (args[0], "is_none" if kind == "_eq" else "is_some") if kind and args[1] == "None" else "vx_stop_unless(%s)" % (args[0] if kind is None else "(%s) %s (%s)" % (
                args[0], "==" if kind == "_eq" else "!=", args[1]))
        elif kind is None:
            r = "{ let vx_c: bool = %s; assert(vx_c) }" % args[0]
        elif args[1] == "None":
            r = "{ let vx_l = %s; assert(vx_l is %s) }" % (args[0], "None" if kind == "_eq" else "Some")
        else:
            r = "{ let vx_l = %s; let vx_r = %s; assert(vx_l %s vx_r) }" % (
                args[0], args[1], "==" if kind == "_eq" else "!=")
        s = s[:m.start()] + r + s[e:]


def loops_of(body):
    """Positions (start of keyword, position of `{`) of the loops, in order."""
    b = blank(body)
    out = []
    for m in re.finditer(r"\b(while|for|loop)\b", b):
        if m.group(1) == "for" and re.match(r"for\s*<", b[m.start():]):
            continue
        k = m.end()
        while k < len(b) and b[k] != "{":
            if b[k] in "([":
                k = close(b, k)
            else:
                k += 1
        if k >= len(b):
            raise Lost("loop without body")
        out.append((m.group(1), m.start(), k))
    return out


# Loop forms the contracts are written for (function -> keywords in order)
LOOP_KINDS = {
    "normalize": ["while"], "output_byte": ["while"], "drop": ["for"], "new": ["for"],
    "for_each_suffix": ["loop"],
    "compare_for_equal_prefix": ["for"], "compare_for_equal_prefix_straight": ["for", "while"],
    "get_array_size": ["for"], "get_array_index_and_reset": ["for"],
    "gather_history_states": ["for", "for"], "compute_hash": ["while"], "process_input_bit": ["for", "for"],
    "new_by_scalar_seed": ["for"], "new_by_vector_seed": ["for", "for"], "next_int64": ["for", "for"],
    "remove_leftmost_suffix": ["while", "for", "while", "for", "for", "for", "for"], "extend": ["while"],
    "gather_states": ["for", "for"], "split_degenerate_root_edge": ["while"],
    "estimate_compression": ["loop", "while"], "print_state": ["for"],
    "print_costs_and_occurrences_by_context_type": ["for", "for"],
    "print_costs_and_occurrences_by_symbol_value": ["for", "for"], "mix_all": ["for"], "on_next_bit": ["for"], "predict": ["for"], "update": ["for"], "update_and_reset": ["for", "for"],
}


def params_end(sig):
    """Position after the parameter list of a signature."""
    m = re.search(r"\bfn\s+\w+\s*", sig)
    k, depth = m.end(), 0
    if sig[k] == "<":
        while True:
            if sig.startswith("->", k):
                k += 2
                continue
            depth += {"<": 1, ">": -1}.get(sig[k], 0)
            k += 1
            if depth == 0:
                break
    return close(blank(sig), sig.index("(", k))


def splice(fn, spec, partial=False):
    """Function text with its contract."""
    body = fn.body
    loops = loops_of(body)
    want = spec.get("loops", [])
    if len(loops) != len(want):
        raise Lost("%s: %d loops where the contract knows %d" % (fn.name, len(loops), len(want)))
    if want and [l[0] for l in loops] != LOOP_KINDS[fn.name]:
        raise Lost("%s: loops %s where the contract knows %s" % (fn.name, [l[0] for l in loops], LOOP_KINDS[fn.name]))
    for (kind, s, k), L in sorted(zip(loops, want), key=lambda t: -t[0][1]):
        e = close(blank(body), k)
        head = body[s:k].rstrip()
        if kind == "for":
            head = re.sub(r"^for\s+_\s+in", "for %s in" % L.get("index", "vx_i"), head)
            if "iter" in L:
                head = re.sub(r"^(for\s+.*?\s+in)\s+", r"\1 %s: " % L["iter"], head, flags=re.S)
        inner = body[k + 1:e - 1]
        body = (body[:s] + head + "\n" + L.get("inv", "") + "\n{\n" + L.get("begin", "")
                + inner + ("\n" + L["end"] if "end" in L else "") + "\n}\n" + L.get("after", "") + body[e:])
    for pat, rep in spec.get("insert", []):
        # proof text after a stated anchor of the body
        if not re.search(pat, body):
            raise Lost("%s: anchor %r not found" % (fn.name, pat))
        body = re.sub(pat, lambda m: m.group(0) + rep, body, count=1)
    sig = fn.sig
    k = params_end(sig)
    sig = sig[:k] + re.sub(r"->\s*(.+)$", lambda m: "-> (%s: %s)" % (spec.get("ret", "res"), m.group(1).strip()), sig[k:], flags=re.S)
    body = asserts(body, partial)
    tail = spec.get("end", "")
    return "%s%s\n%s\n{\n%s%s%s\n}\n" % (spec.get("attr", ""), sig, spec.get("spec", ""), spec.get("begin", ""), body, tail)


def build(repo, target):
    """-> (verus text, {line: (function, source position)}, info)"""
    files = {}

    def F(rel):
        if rel not in files:
            files[rel] = File(repo, rel)
        return files[rel]
    out = []
    marks = []       # (function, rel, source line)
    unknown = []

    def emit(t):
        out.append(t)

    def spliced(fn, sp):
        if target.get("canary"):
            head = re.match(r"(?:hide\(\w+\);\s*)*", sp.get("begin", "")).group(0)
            sp = dict(sp, begin=head + "proof { assert(false); }\n" + sp.get("begin", "")[len(head):])
        return splice(fn, sp, target.get("partial", False))

    def rw(t):
        for pat, rep, _ in target.get("rewrites", []):
            t = re.sub(pat, rep, t)
        return t

    def mark(name, rel, line):
        out.append("// @fn %s @src %s:%d\n" % (name, rel, line))
        marks.append(name)
    emit(target["prelude"])
    for u in target["units"]:
        f = F(u["file"]) if "file" in u else None
        k = u["kind"]
        if k == "text":
            emit(u["text"])
        elif k in ("struct", "enum"):
            t, line = f.item(k, u["name"])
            t = re.sub(r"#\[[^\]]*\]", "", t)
            emit("// @src %s:%d\n%s%s\n" % (f.rel, line, u.get("attr", ""), rw(pubify(t))))
        elif k == "const":
            t, line = f.const(u["name"])
            emit("// @src %s:%d\n%s\n" % (f.rel, line, rw(t)))
        elif k == "fn":
            fn = f.free_fn(u["name"], u.get("module"))
            if "shape" in u:
                u["shape"](fn)
            mark((u["module"] + "::" if u.get("module") else "") + u["name"], f.rel, fn.line)
            fn.sig, fn.body = rw(fn.sig), rw(fn.body)
            emit(spliced(fn, u["spec"]))
            emit("// @end\n")
        elif k == "impl":
            emit(u["emit"] + " {\n" + u.get("inside", ""))
            seen = set()
            for h in u["headers"]:
                for s, e in f.impls(h):
                    fns, rest = f.members(s, e)
                    for nm, t, line in rest:
                        if nm in u.get("skip", []) or (u.get("only") is not None and nm not in u["only"]):
                            continue
                        emit("// @src %s:%d\n%s\n" % (f.rel, line, rw(t)))
                    for fn in fns:
                        if fn.name in u.get("skip", []):
                            continue
                        if u.get("only") is not None and fn.name not in u["only"]:
                            continue
                        seen.add(fn.name)
                        sp = u["fns"].get(fn.name)
                        if sp is None:
                            unknown.append("%s::%s" % (u["name"], fn.name))
                            sp = {}
                        if "shape" in sp:
                            sp["shape"](fn)
                        mark("%s::%s" % (u["name"], fn.name), f.rel, fn.line)
                        fn.sig, fn.body = rw(fn.sig), rw(fn.body)
                        if u.get("rename", {}).get(fn.name):
                            fn.sig = re.sub(r"\bfn\s+%s\b" % fn.name, "fn " + u["rename"][fn.name], fn.sig)
                        emit(spliced(fn, sp))
                        emit("// @end\n")
            for nm in u["fns"]:
                if nm not in seen:
                    raise Lost("no fn %s::%s in %s" % (u["name"], nm, f.rel))
            emit("}\n")
    emit(target.get("postlude", ""))
    emit("\nfn main() {}\n}\n")
    text = "\n".join(out)
    return text, where_of(text), dict(functions=marks, unknown=unknown)


def aid(text):
    """The same functions, with what the solver does not know about the bit
    operations they use: shifts of literals written out, and for every other
    shift by a literal and every mask of low bits the fact (proved, per type)
    that it is a division, multiplication or remainder."""
    def fold(m):
        v = int(m.group(2).replace("_", ""), 0) << int(m.group(4))
        t = m.group(3) or ""
        return "%s%d%s" % (m.group(1), v, t) if v < 1 << 63 else m.group(0)
    pat = re.compile(r"([(,=\[{;&|<>]\s*)(0x[0-9a-fA-F_]+?|\d[\d_]*)([iu](?:8|16|32|64|size))?\s*<<\s*(\d+)(?:[iu](?:8|16|32|64|size))?"
                     r"(?=\s*(?:[)\],;}&|]|<[^<]|>[^>]|==|!=))")
    text = "\n".join(l if re.search(r"bit_vector|\b(?:ensures|requires|invariant|spec|proof)\b", l) else pat.sub(fold, l)
                     for l in text.split("\n"))
    shifts = sorted({int(k) for k in re.findall(r"(?:<<|>>)=?\s*(\d+)", text) if 0 < int(k) < 64})
    masks = sorted({k for k in (int(x.replace("_", ""), 0) + 1 for x in re.findall(
        r"&=?\s*\(?(0x[0-9a-fA-F_]+?|\d[\d_]*)(?:[iu](?:8|16|32|64|size))?(?![\w.])", text)) if k > 1 and k & (k - 1) == 0 and k <= 1 << 62})
    out, names = [], []

    def fact(name, head, body):
        names.append("vx_aid::" + name)
        out.append("pub broadcast proof fn %s%s { %s }" % (name, head, body))
    word = [("usize", 64)] if re.search(r"size_of\s+usize\s*==\s*8", text) else []
    for t, w in [("u8", 8), ("u16", 16), ("u32", 32), ("u64", 64)] + word:
        for k in shifts:
            if k < w:
                d = 1 << k
                fact("shr_%s_%d" % (t, k), "(x: %s) ensures #[trigger] (x >> %d) == x / %d" % (t, k, d),
                     "assert(x >> %d == x / %d) by (bit_vector);" % (k, d))
                fact("shl_%s_%d" % (t, k), "(x: %s) ensures x <= %d ==> #[trigger] (x << %d) == x * %d" % (t, ((1 << w) - 1) >> k, k, d),
                     "assert(x <= %d ==> x << %d == x * %d) by (bit_vector);" % (((1 << w) - 1) >> k, k, d))
        for k in masks:
            if k < 1 << w:
                fact("low_%s_%d" % (t, k), "(x: %s) ensures #[trigger] (x & %d) == x %% %d" % (t, k - 1, k),
                     "assert(x & %d == x %% %d) by (bit_vector);" % (k - 1, k))
        if re.search(r"<<|>>", text):
            # one bit: as a mask and as a digit
            fact("bit_%s" % t, "(x: %s, k: u64) ensures k < %d ==> ((#[trigger] (x & (1%s << k)) != 0) <==> ((x >> k) & 1 == 1))" % (t, w, t),
                 "assert(k < %d ==> ((x & (1%s << k) != 0) <==> ((x >> k) & 1 == 1))) by (bit_vector);" % (w, t))
            fact("digit_%s" % t, "(x: %s, k: u64) ensures k < %d ==> ((x & (1%s << k) != 0) <==> (#[trigger] ((x >> k) & 1) == 1))" % (t, w, t),
                 "assert(k < %d ==> ((x & (1%s << k) != 0) <==> ((x >> k) & 1 == 1))) by (bit_vector);" % (w, t))
            fact("zero_one_%s" % t, "(x: %s) ensures #[trigger] (x & 1) == x %% 2" % t, "assert(x & 1 == x % 2) by (bit_vector);")
    for t, w in (("i32", 32), ("i64", 64)):
        for k in shifts:
            if k < w - 1:
                d = 1 << k
                fact("shr_%s_%d" % (t, k), "(x: %s) ensures #[trigger] (x >> %d) == x as int / %d" % (t, k, d),
                     "assert(x >= 0 ==> x >> %d == x / %d) by (bit_vector); "
                     "assert(x < 0 ==> x >> %d == -1 - ((-1 - x) / %d)) by (bit_vector);" % (k, d, k, d))
                m = ((1 << (w - 1)) - 1) >> k
                fact("shl_%s_%d" % (t, k), "(x: %s) ensures 0 <= x <= %d ==> #[trigger] (x << %d) == x * %d" % (t, m, k, d),
                     "assert(0 <= x <= %d ==> x << %d == x * %d) by (bit_vector);" % (m, k, d))
        for k in masks:
            if k < 1 << (w - 1):
                fact("low_%s_%d" % (t, k), "(x: %s) ensures x >= 0 ==> #[trigger] (x & %d) == x %% %d" % (t, k - 1, k),
                     "assert(x >= 0 ==> x & %d == x %% %d) by (bit_vector);" % (k - 1, k))
    if names:
        facts = "pub mod vx_aid { use super::*;\n%s\n}\n" % "\n".join(out)
        text, n = re.subn(r"(?m)^broadcast use \{?([^;}]*)\}?;", lambda m: "broadcast use {%s, %s};" % (m.group(1), ", ".join(names)), text, count=1)
        facts += "" if n else "broadcast use {%s};\n" % ", ".join(names)
        i = text.rindex("\nfn main() {}")
        text = text[:i] + "\n" + facts + text[i:]
    return text


def where_of(text):
    """Line -> (function, source position)."""
    where, cur = {}, None
    for i, l in enumerate(text.split("\n"), 1):
        m = re.match(r"// @fn (\S+) @src (\S+)", l)
        if m:
            cur = (m.group(1), m.group(2))
        elif l.startswith("// @end"):
            cur = None
        if cur:
            where[i] = cur
    return where


def pubify(t):
    """All fields readable in specifications."""
    if re.match(r"(pub\s+)?struct", t.strip()) and "{" in t:
        head, body = t.split("{", 1)
        body = re.sub(r"(^|[,\n]\s*)(?!pub\b)(\w+\s*:)", r"\1pub \2", body)
        t = head + "{" + body
    elif re.match(r"(pub\s+)?struct", t.strip()):
        t = re.sub(r"\(\s*(?!pub)", "(pub ", t)
    return t if t.strip().startswith("pub") else "pub " + t.lstrip()
