"""Weaves contracts into functions sliced from /repo's current source and runs Verus on the result."""
import json, os, re, subprocess, time
from rsx import File, Lost, tokenize, find_loops, find_closures, OPEN

REPO = os.environ.get("VERIF_REPO", "/repo")
_files = {}


def F(path):
    p = os.path.join(REPO, path)
    if p not in _files:
        try:
            _files[p] = File(p)
        except FileNotFoundError:
            raise Lost(f"{path}: file is gone")
        except (IndexError, ValueError, TypeError) as e:
            raise Lost(f"{path}: cannot tokenize ({e})")
    return _files[p]


# ---------------------------------------------------------------- token-tree rewriting
def _trees(T, lo, hi):
    out = []
    i = lo
    while i < hi:
        if T[i].k == "punct" and T[i].t in OPEN:
            out.append((i, T[i].m + 1))
            i = T[i].m + 1
        else:
            out.append((i, i + 1))
            i += 1
    return out


def _pat(p):
    p = re.sub(r"\$\$(\w+)", r"__MM_\1", p)
    p = re.sub(r"\$(\w+)", r"__M_\1", p)
    return tokenize(p)


def _match(P, pi, pe, T, i, hi, b):
    """match P[pi:pe] at T[i:]; returns end or None"""
    while pi < pe:
        p = P[pi]
        if p.k == "id" and p.t.startswith("__MM_"):
            nm = p.t[5:]
            j = i
            while True:
                b2 = dict(b)
                r = _match(P, pi + 1, pe, T, j, hi, b2)
                if r is not None and (pi + 1 < pe or j == hi):
                    b2[nm] = (i, j)
                    b.clear()
                    b.update(b2)
                    return r
                if j >= hi:
                    return None
                if T[j].k == "punct" and T[j].t in OPEN:
                    j = T[j].m + 1
                else:
                    j += 1
        if i >= hi:
            return None
        if p.k == "id" and p.t.startswith("__M_"):
            if p.t.startswith("__M_L_") and T[i].k != "str":   # $L_x: a string literal
                return None
            e = T[i].m + 1 if (T[i].k == "punct" and T[i].t in OPEN) else i + 1
            b[p.t[4:]] = (i, e)
            i = e
            pi += 1
            continue
        if p.k == "punct" and p.t in OPEN and p.m is not None:
            if T[i].t != p.t or T[i].k != "punct":
                return None
            if _match(P, pi + 1, p.m, T, i + 1, T[i].m, b) != T[i].m:
                return None
            i = T[i].m + 1
            pi = p.m + 1
            continue
        if T[i].t != p.t:
            return None
        i += 1
        pi += 1
    return i


def _match_full(P, T, i, hi, b):
    return _match(P, 0, len(P), T, i, hi, b)


def rewrite(src, rules, log=None):
    """rules: [(pattern, replacement)] applied left to right, each to a fixpoint of non-overlapping scans."""
    for pat, rep in rules:
        P = _pat(pat)
        start = 0
        while True:
            T = tokenize(src)
            hit = None
            for i in range(len(T)):
                if T[i].s < start:
                    continue
                b = {}
                e = _match_full(P, T, i, len(T), b)
                if e is not None:
                    hit = (i, e, b)
                    break
            if hit is None:
                break
            i, e, b = hit

            def sub(m):
                x, y = b[m.group(2)]
                return src[T[x].s:T[y - 1].e] if y > x else ""
            r = re.sub(r"(\$\$|\$)(\w+)", sub, rep)
            if log is not None:
                log[(pat, rep)] = log.get((pat, rep), 0) + 1
            src = src[:T[i].s] + r + src[T[e - 1].e:]
            start = T[i].s + len(r)
    return src


def strip_comments(src):
    T = tokenize(src)
    out = []
    last = 0
    for t in T:
        gap = src[last:t.s]
        if "/" in gap:
            gap = "\n" if "\n" in gap else " "
        out.append(gap)
        out.append(src[t.s:t.e])
        last = t.e
    return "".join(out)


class Fn:
    def __init__(self, file, spec, requires="", ensures="", ret="r", loops=None, closures=None, entry="",
                 ghost=(), attrs="", decreases="", rewrites=(), rename=None, optional=False, exit="", props=None,
                 opens="", no_loops_ok=False, header=None, tail="", nocanary=False, pre=None):
        self.__dict__.update(locals())
        self.loops = loops or {}
        self.closures = closures or {}


class Loop:
    def __init__(self, kind, invariant="", decreases="", start="", end="", before="", after="", ensures="", head=None,
                 ieb="", nocanary=False):
        self.__dict__.update(locals())


class Raw:
    """Type/const item copied verbatim (attributes dropped unless listed)."""

    def __init__(self, file, spec, attrs="", rewrites=(), pub=False):
        self.__dict__.update(locals())


class Text:
    def __init__(self, text):
        self.text = text


class Mod:
    def __init__(self, name, parts):
        self.name, self.parts = name, parts


class Unit:
    def __init__(self, name, parts, rewrites=(), uses="", flags=(), nocanary=()):
        self.name, self.parts, self.rewrites, self.uses, self.flags = name, parts, list(rewrites), uses, list(flags)
        self.nocanary = nocanary


def _fn_text(fn, unit, log, canary=False):
    f = F(fn.file)
    it = f.find(fn.spec)
    if it.kind != "fn" or not it.body:
        raise Lost(f"{fn.file}: `{fn.spec}` is not a function with a body")
    text = strip_comments(f.src[it.s:it.e])
    if fn.pre:   # mechanical, source-driven pre-transformation
        text = fn.pre(text)
    text = rewrite(text, list(fn.rewrites) + unit.rewrites, log)
    # re-locate in the rewritten text
    from rsx import parse_items
    T = tokenize(text)
    its = parse_items(text, T)
    if len(its) != 1 or its[0].kind != "fn":
        raise Lost(f"{fn.spec}: rewritten text is not one function")
    x = its[0]
    lo, hi = x.body_ti
    edits = []   # (pos, insertion) or (s, e, repl)
    # signature
    sig = text[x.s:x.sig_e]
    if x.ret and fn.ret:
        rs, re_ = x.ret
        edits.append((rs, re_, f"({fn.ret}: {text[rs:re_]})"))
    if fn.rename:
        m = re.search(r"\bfn\s+(\w+)", sig)
        edits.append((x.s + m.start(1), x.s + m.end(1), fn.rename))
    spec = ""
    if fn.requires.strip():
        spec += "\n    requires " + fn.requires.strip().rstrip(",") + ","
    if fn.ensures.strip():
        spec += "\n    ensures " + fn.ensures.strip().rstrip(",") + ","
    if fn.opens:
        spec += "\n    " + fn.opens
    if fn.decreases:
        spec += "\n    decreases " + fn.decreases
    edits.append((x.sig_e, x.sig_e, spec + "\n"))
    ent = fn.entry
    # without loop isolation one failing assert(false) hides those after it: keep the innermost one
    flat = "loop_isolation(false)" in fn.attrs
    if canary and not fn.nocanary and not (flat and fn.loops):
        ent += f"\nproof {{ assert(false); }} /*CANARY {fn.spec} entry*/"
    edits.append((x.body[0], x.body[0], "\n" + ent + "\n" if ent else ""))
    if fn.exit:
        semi = "" if x.ret or hi <= lo or T[hi - 1].t in (";", "}") else ";"
        edits.append((x.body[1], x.body[1], semi + "\n" + fn.exit + "\n"))
    if fn.tail:
        # before the tail expression of the body
        q, i = x.body[0], lo
        while i < hi:
            if T[i].k == "punct" and T[i].t in OPEN:
                brace = T[i].t == "{"
                i = T[i].m
                if brace and i + 1 < hi:
                    q = T[i].e
            elif T[i].t == ";":
                q = T[i].e
            i += 1
        edits.append((q, q, "\n" + fn.tail + "\n"))
    # loops
    loops = find_loops(T, lo, hi)
    if not (fn.no_loops_ok) and len(loops) != len(fn.loops):
        raise Lost(f"{fn.spec}: {len(loops)} loop(s), contract has {len(fn.loops)}")
    for k, lp in fn.loops.items():
        l = loops[k]
        if l["kind"] != lp.kind:
            raise Lost(f"{fn.spec}: loop {k} is `{l['kind']}`, contract has `{lp.kind}`")
        if lp.head:
            h = [t.t for t in T[l["kw"]:l["open"]]]
            ph = [t.t for t in tokenize(lp.head)]
            if h != ph:
                raise Lost(f"{fn.spec}: loop {k} header changed")
        s = ""
        if lp.ieb.strip():
            s += "\n    invariant_except_break " + lp.ieb.strip().rstrip(",") + ","
        if lp.invariant.strip():
            s += "\n    invariant " + lp.invariant.strip().rstrip(",") + ","
        if lp.ensures.strip():
            s += "\n    ensures " + lp.ensures.strip().rstrip(",") + ","
        if lp.decreases:
            s += "\n    decreases " + lp.decreases + ","
        p = T[l["open"]].s
        edits.append((p, p, s + "\n"))
        st = lp.start
        inner = flat and any(k2 != k and l["open"] < loops[k2]["kw"] < l["close"] and not fn.loops[k2].nocanary for k2 in fn.loops)
        if canary and not fn.nocanary and not lp.nocanary and not inner:
            st += f"\nproof {{ assert(false); }} /*CANARY {fn.spec} loop {k}*/"
        if st:
            edits.append((T[l["open"]].e, T[l["open"]].e, "\n" + st + "\n"))
        if lp.end:
            edits.append((T[l["close"]].s, T[l["close"]].s, "\n" + lp.end + "\n"))
        if lp.before:
            # before the statement that starts with the loop keyword (labels included)
            q = T[l["kw"]].s
            if T[l["kw"] - 1].t == ":" and T[l["kw"] - 2].k == "life":
                q = T[l["kw"] - 2].s
            edits.append((q, q, lp.before + "\n"))
        if lp.after:
            edits.append((T[l["close"]].e, T[l["close"]].e, "\n" + lp.after + "\n"))
    # closures
    cl = find_closures(T, lo, hi)
    cspecs = dict(fn.closures)
    star = cspecs.pop("*", None)
    if star:
        for k in range(len(cl)):
            cspecs.setdefault(k, star)
    for k, spec in cspecs.items():
        if k >= len(cl):
            raise Lost(f"{fn.spec}: closure {k} is gone")
        c = cl[k]
        body = text[T[c["b"]].s:T[c["be"] - 1].e]
        params = [t.t for t in T[c["start"] + 1:c["pend"]]]
        sp = spec
        if callable(spec):
            sp = spec(text[T[c["start"]].s:T[c["pend"]].e], body)
            if sp is None:
                continue
        for n, pn in enumerate([p for p in params if re.match(r"[A-Za-z_]\w*$", p) and p not in ("mut", "char", "u8", "str")][:1]):
            sp = sp.replace("$0", pn)
        edits.append((T[c["start"]].s, T[c["pend"]].e, sp + " "))
        edits.append((T[c["b"]].s, T[c["b"]].s, "{ "))
        edits.append((T[c["be"] - 1].e, T[c["be"] - 1].e, " }"))
    for g in fn.ghost:
        where, pat, txt = g[:3]
        nth = g[3] if len(g) > 3 else 0
        P = _pat(pat)
        hits = []
        i = lo
        while i < hi:
            b = {}
            e = _match_full(P, T, i, hi, b)
            if e is not None:
                hits.append((i, e))
                i = e
            else:
                i += 1
        if nth == "all":
            sel = hits
            if not hits:
                raise Lost(f"{fn.spec}: ghost anchor `{pat}` is gone")
        elif nth == "any":
            sel = hits
        else:
            if len(hits) <= nth:
                raise Lost(f"{fn.spec}: ghost anchor `{pat}` #{nth} is gone")
            sel = [hits[nth]]
        for i, e in sel:
            q = T[i].s if where == "before" else T[e - 1].e
            edits.append((q, q, "\n" + txt + "\n"))
    # apply (stable for equal positions)
    edits = [(a, b, c, n) for n, (a, b, c) in enumerate(edits)]
    edits.sort(key=lambda z: (z[0], z[1], z[3]))
    out = []
    last = 0
    for a, b, c, _ in edits:
        out.append(text[last:a])
        out.append(c)
        last = max(b, last)
    out.append(text[last:])
    body = fn.attrs + ("\n" if fn.attrs else "") + "".join(out)
    return body, it, f


class Gen:
    def __init__(self, unit):
        self.unit = unit
        self.log = {}
        self.fns = []       # (name, file, line, gen_start, gen_end)
        self.buf = []
        self.line = 1
        self.canary_all = False

    def put(self, s):
        self.buf.append(s)
        self.line += s.count("\n")

    def part(self, p):
        if isinstance(p, Text):
            self.put(p.text + "\n")
        elif isinstance(p, Mod):
            self.put(f"pub mod {p.name} {{\nuse super::*;\n")
            self.parts(p.parts)
            self.put("}\n")
        elif isinstance(p, Raw):
            f = F(p.file)
            it = f.find(p.spec)
            t = strip_comments(f.src[it.s:it.e])
            # drop attributes on fields/variants
            t = rewrite(t, [("#[$$a]", "")], None)
            t = rewrite(t, list(p.rewrites) + self.unit.rewrites, self.log)
            im = getattr(it, "impl", None)
            if im is not None:
                t = f"{im.header} {{ {t} }}"
            self.put(p.attrs + "\n" + t + "\n")
        else:
            raise AssertionError(p)

    def parts(self, parts):
        i = 0
        while i < len(parts):
            p = parts[i]
            if isinstance(p, Fn):
                f = F(p.file)
                it = f.find(p.spec)
                im = getattr(it, "impl", None)
                group = [p]
                if im is not None:
                    while i + 1 < len(parts) and isinstance(parts[i + 1], Fn) and parts[i + 1].file == p.file:
                        it2 = f.find(parts[i + 1].spec)
                        if getattr(it2, "impl", None) is im and parts[i + 1].header == p.header:
                            group.append(parts[i + 1])
                            i += 1
                        else:
                            break
                    hdr = p.header or rewrite(strip_comments(im.header), self.unit.rewrites, None)
                    self.put(hdr + " {\n")
                for q in group:
                    body, itx, ff = _fn_text(q, self.unit, self.log, self.canary_all)
                    a = self.line
                    self.put(body + "\n")
                    self.fns.append((q.spec, q.file, ff.line(itx.s), a, self.line, q))
                if im is not None:
                    self.put("}\n")
            else:
                self.part(p)
            i += 1

    def generate(self):
        self.put("// generated on every run from /repo's current source; do not edit\n"
                 "#![allow(unused_imports, unused_variables, dead_code, unused_mut, unused_parens, unused_assignments, "
                 "non_camel_case_types, unreachable_patterns, unused_braces, unused_must_use, ambiguous_glob_reexports)]\n"
                 "use vstd::prelude::*;\n" + self.unit.uses + "\nverus! {\nglobal size_of usize == 8;\n")
        self.parts(self.unit.parts)
        self.put("} // verus!\nfn main() {}\n")
        return "".join(self.buf)


SEMANTIC = [
    "postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed",
    "possible arithmetic underflow/overflow", "possible division by zero", "decreases not satisfied",
    "could not prove termination", "possible bit shift", "loop must have a decreases", "recursive function must have a decreases",
    "possible array index", "unreachable", "index out of", "loop ensures not satisfied", "constructed value may fail",
    "cannot show invariant", "requires not satisfied", "callee may", "cannot prove that call to", "panic is not",
    "loop invariant",
]


def run_verus(path, timeout=600, flags=(), threads=8):
    t0 = time.time()
    cmd = ["verus", path, "--output-json", "--time", "--num-threads", str(threads), *flags, "--error-format=json"]
    env = dict(os.environ)
    env.pop("RUSTUP_TOOLCHAIN", None)
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(path), env=env)
    except subprocess.TimeoutExpired:
        return {"status": "timeout", "wall": time.time() - t0, "verified": 0, "errors": [], "raw": "timeout"}
    res = {"wall": time.time() - t0, "raw": p.stderr[-20000:], "cmd": " ".join(cmd)}
    errs = []
    for ln in p.stderr.splitlines():
        if not ln.startswith("{"):
            continue
        try:
            d = json.loads(ln)
        except ValueError:
            continue
        if d.get("level") == "error":
            errs.append(d)
    try:
        j = json.loads(p.stdout)
    except ValueError:
        j = {}
    vr = j.get("verification-results", {})
    res["verified"] = vr.get("verified", 0)
    res["nerr"] = vr.get("errors", 0)
    res["success"] = bool(vr.get("success")) and p.returncode == 0
    res["smt_ms"] = (j.get("times-ms") or {}).get("smt", {}).get("total", 0) if isinstance((j.get("times-ms") or {}).get("smt", {}), dict) else 0
    out = []
    for d in errs:
        msg = d["message"]
        if msg.startswith("aborting due to"):
            continue
        sem = any(s in msg for s in SEMANTIC)
        spans = [(s["line_start"], s["line_end"], s.get("label") or "", "\n".join(x["text"] for x in s.get("text", [])[:3]), s.get("is_primary"))
                 for s in d.get("spans", [])]
        out.append({"message": msg, "semantic": sem, "rlimit": "rlimit" in msg.lower() or "resource limit" in msg.lower(),
                    "spans": spans, "rendered": d.get("rendered", "")})
    res["errors"] = out
    if res["success"] and not out and res["verified"] > 0:
        res["status"] = "ok"
    elif out and all(e["semantic"] for e in out):
        res["status"] = "failed"
    elif any(e["semantic"] for e in out) and all(e["semantic"] or e["rlimit"] for e in out):
        res["status"] = "failed"
    else:
        res["status"] = "undecided"
    return res


def trusted_scan(text):
    """Mechanical scan of the generated file for everything that is assumed."""
    found = []
    for m in re.finditer(r"assume_specification[^;]*?\[([^\]]*(?:\[[^\]]*\])?[^\]]*)\]", text):
        found.append("assume_specification " + re.sub(r"\s+", " ", m.group(1)).strip())
    for m in re.finditer(r"external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub\s+)?(?:broadcast\s+)?((?:proof\s+)?(?:fn|struct|enum)\s+\w+)", text):
        found.append("external_body " + m.group(1))
    for m in re.finditer(r"(?<!\w)(assume|admit)\s*\(", text):
        found.append(m.group(1) + "(..)")
    for m in re.finditer(r"uninterp\s+spec\s+fn\s+(\w+)", text):
        found.append("uninterpreted " + m.group(1))
    for m in re.finditer(r"\baxiom\s+fn\s+(\w+)", text):
        found.append("axiom " + m.group(1))
    return sorted(set(found))
