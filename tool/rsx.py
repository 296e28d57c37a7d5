"""Rust source slicing: tokenizer, item finder, loop/closure finder.

Nothing here interprets Rust; it finds byte-exact slices of the current source
so that the verified text is the text that is compiled and run.
"""
import re

class Lost(Exception):
    """An anchor (item, loop, closure, statement) is not where the contract expects it."""

_ID = re.compile(r"[A-Za-z_\u0080-\uffff][A-Za-z0-9_\u0080-\uffff]*")
_NUM = re.compile(r"[0-9][0-9A-Za-z_]*(?:\.[0-9][0-9A-Za-z_]*)?")
_P3 = ("<<=", ">>=", "...", "..=")
_P2 = ("::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||", "..", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<", ">>")
OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {")": "(", "]": "[", "}": "{"}


class Tok:
    __slots__ = ("k", "t", "s", "e", "m")

    def __init__(self, k, t, s, e):
        self.k, self.t, self.s, self.e, self.m = k, t, s, e, None

    def __repr__(self):
        return f"{self.k}:{self.t!r}"


def tokenize(src, base=0):
    """Tokens without whitespace/comments. k in id num str char life punct."""
    out = []
    i, n = 0, len(src)
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1
            continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
            continue
        if src.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith("/*", j):
                    d += 1
                    j += 2
                elif src.startswith("*/", j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            i = j
            continue
        m = re.match(r"(?:b|c|br|cr|r)?(#*)\"", src[i:i + 40])
        if m and (c in "\"bcr"):
            pre = m.group(0)
            raw = "r" in pre.split('"')[0].split("#")[0]
            if raw:
                end = '"' + m.group(1)
                j = src.index(end, i + len(pre)) + len(end)
                out.append(Tok("str", src[i:j], i + base, j + base))
                i = j
                continue
            if not m.group(1):
                j = i + len(pre)
                while src[j] != '"':
                    j += 2 if src[j] == "\\" else 1
                j += 1
                out.append(Tok("str", src[i:j], i + base, j + base))
                i = j
                continue
        m = re.match(r"b?'(?:\\(?:u\{[0-9A-Fa-f_]+\}|x[0-9A-Fa-f]{2}|.)|[^\\'])'", src[i:i + 16], re.S)
        if m and c in "'b":
            out.append(Tok("char", m.group(0), i + base, i + base + m.end()))
            i += m.end()
            continue
        if c == "'":
            m = _ID.match(src, i + 1)
            out.append(Tok("life", src[i:m.end()], i + base, m.end() + base))
            i = m.end()
            continue
        m = _ID.match(src, i)
        if m:
            if m.group(0) == "r" and src.startswith("r#", i):
                m2 = _ID.match(src, i + 2)
                if m2:
                    out.append(Tok("id", src[i:m2.end()], i + base, m2.end() + base))
                    i = m2.end()
                    continue
            out.append(Tok("id", m.group(0), i + base, m.end() + base))
            i = m.end()
            continue
        if c.isdigit():
            m = _NUM.match(src, i)
            e = m.end()
            # "0..4" : do not swallow the range operator; x.0.1 tuple fields are rare enough
            if out and out[-1].t == "." and "." in m.group(0):
                e = i + m.group(0).index(".")
            out.append(Tok("num", src[i:e], i + base, e + base))
            i = e
            continue
        for p in _P3:
            if src.startswith(p, i):
                break
        else:
            for p in _P2:
                if src.startswith(p, i):
                    break
            else:
                p = c
        out.append(Tok("punct", p, i + base, i + base + len(p)))
        i += len(p)
    # bracket matching
    st = []
    for idx, t in enumerate(out):
        if t.k == "punct":
            if t.t in OPEN:
                st.append(idx)
            elif t.t in CLOSE:
                if not st:
                    raise Lost("unbalanced brackets")
                o = st.pop()
                out[o].m = idx
                t.m = o
    return out


class Item:
    """kind: fn/struct/enum/impl/trait/mod/const/static/type/use/macro/other"""

    def __init__(self):
        self.kind = self.name = None
        self.trait = None
        self.attr_s = self.s = self.e = 0   # byte offsets: with attrs, without attrs, end
        self.attrs = []
        self.body = None      # (start offset after '{', offset of '}')
        self.children = []
        self.ti = (0, 0)
        self.header = ""

    def __repr__(self):
        return f"<{self.kind} {self.name}>"


_QUAL = {"pub", "const", "async", "unsafe", "extern", "default"}


def _skip_generics(T, i):
    """i at '<' -> index after matching '>'"""
    d = 0
    while True:
        t = T[i].t
        if t == "<":
            d += 1
        elif t == ">":
            d -= 1
        elif t == ">>":
            d -= 2
        elif t == "<<":
            d += 2
        elif t in OPEN and T[i].k == "punct":
            i = T[i].m
        i += 1
        if d <= 0:
            return i


def parse_items(src, T=None, lo=0, hi=None):
    if T is None:
        T = tokenize(src)
    if hi is None:
        hi = len(T)
    items = []
    i = lo
    while i < hi:
        it = Item()
        it.attr_s = T[i].s
        while i < hi and T[i].t == "#" and T[i + 1].t in ("[", "!"):
            j = i + 1
            if T[j].t == "!":
                j += 1
            it.attrs.append(src[T[i].s:T[T[j].m].e])
            i = T[j].m + 1
        if i >= hi:
            break
        st = i
        it.s = T[i].s
        # qualifiers
        while i < hi and T[i].t in _QUAL:
            if T[i].t == "pub" and i + 1 < hi and T[i + 1].t == "(":
                i = T[i + 1].m + 1
            elif T[i].t == "const" and T[i + 1].t not in ("fn", "unsafe", "async", "extern"):
                break
            elif T[i].t == "extern":
                i += 1
                if T[i].k == "str":
                    i += 1
            elif T[i].t == "default" and T[i + 1].k != "id":
                break
            else:
                i += 1
        kw = T[i].t
        if kw == "fn":
            it.kind = "fn"
            it.name = T[i + 1].t
            j = i + 2
            if T[j].t == "<":
                j = _skip_generics(T, j)
            it.params = (T[j].s, T[T[j].m].e)
            j = T[j].m + 1
            it.ret = None
            it.where = None
            if T[j].t == "->":
                k = j + 1
                while T[k].t not in ("{", ";", "where"):
                    if T[k].t in ("(", "["):
                        k = T[k].m
                    k += 1
                it.ret = (T[j + 1].s, T[k - 1].e)
                j = k
            if T[j].t == "where":
                k = j + 1
                while T[k].t not in ("{", ";"):
                    if T[k].t in ("(", "["):
                        k = T[k].m
                    k += 1
                it.where = (T[j].s, T[k - 1].e)
                j = k
            it.sig_e = T[j - 1].e
            if T[j].t == "{":
                it.body = (T[j].e, T[T[j].m].s)
                it.body_ti = (j + 1, T[j].m)
                i = T[j].m + 1
            else:
                i = j + 1
        elif kw in ("struct", "enum", "union", "trait") and T[i + 1].k == "id":
            it.kind = kw
            it.name = T[i + 1].t
            j = i + 2
            while T[j].t not in ("{", ";"):
                if T[j].t in ("(", "["):
                    j = T[j].m
                j += 1
            if T[j].t == "{":
                it.body = (T[j].e, T[T[j].m].s)
                if kw == "trait":
                    it.children = parse_items(src, T, j + 1, T[j].m)
                i = T[j].m + 1
            else:
                i = j + 1
            it.sig_e = T[j - 1].e
        elif kw == "impl":
            it.kind = "impl"
            j = i + 1
            if T[j].t == "<":
                j = _skip_generics(T, j)
            hs = j
            last = None
            fo = None
            wh = None
            while T[j].t != "{":
                if T[j].t == "for" and T[j + 1].t != "<":
                    fo = j
                if T[j].t == "where" and wh is None:
                    wh = j
                if T[j].t in ("(", "["):
                    j = T[j].m
                j += 1
            def tyname(a, b):
                nm = None
                k = a
                while k < b:
                    if T[k].t == "<":
                        k = _skip_generics(T, k)
                        continue
                    if T[k].k == "id" and T[k].t not in ("dyn", "mut"):
                        nm = T[k].t
                    k += 1
                return nm
            tend = wh or j
            if fo is not None:
                it.trait = tyname(hs, fo)
                it.trait_full = src[T[hs].s:T[fo - 1].e]
                it.name = tyname(fo + 1, tend)
                it.self_full = src[T[fo + 1].s:T[tend - 1].e]
            else:
                it.name = tyname(hs, tend)
                it.self_full = src[T[hs].s:T[tend - 1].e]
            it.body = (T[j].e, T[T[j].m].s)
            it.header = src[T[i].s:T[j].s]
            it.children = parse_items(src, T, j + 1, T[j].m)
            i = T[j].m + 1
        elif kw == "mod":
            it.kind = "mod"
            it.name = T[i + 1].t
            if T[i + 2].t == "{":
                it.body = (T[i + 2].e, T[T[i + 2].m].s)
                it.children = parse_items(src, T, i + 3, T[i + 2].m)
                i = T[i + 2].m + 1
            else:
                i = i + 3
        elif kw in ("const", "static", "type", "use") or (kw == "macro_rules" and T[i + 1].t == "!"):
            it.kind = kw
            j = i + 1
            if T[j].t == "mut":
                j += 1
            it.name = T[j].t
            if kw == "macro_rules":
                it.name = T[i + 2].t
                j = T[i + 3].m + 1
                if j < hi and T[j].t == ";":
                    j += 1
                i = j
            else:
                while T[j].t != ";":
                    if T[j].k == "punct" and T[j].t in OPEN:
                        j = T[j].m
                    j += 1
                i = j + 1
        else:
            # macro invocation item or something else: skip to ; or }
            it.kind = "other"
            it.name = kw
            j = i
            while j < hi and T[j].t != ";" and T[j].t != "{":
                if T[j].k == "punct" and T[j].t in ("(", "["):
                    j = T[j].m
                j += 1
            if j < hi and T[j].t == "{":
                i = T[j].m + 1
                if i < hi and T[i].t == ";":
                    i += 1
            else:
                i = j + 1
        it.e = T[i - 1].e
        it.ti = (st, i)
        items.append(it)
    return items


class File:
    def __init__(self, path):
        self.path = path
        self.src = open(path, encoding="utf-8").read()
        self.T = tokenize(self.src)
        self.items = parse_items(self.src, self.T)

    def line(self, off):
        return self.src.count("\n", 0, off) + 1

    def find(self, spec):
        """spec: 'fn name' | 'Type::name' | 'Trait for Type::name' | 'struct X' | 'enum X' | 'const X' |
        'mod m / ...'. Nested functions: 'fn a / fn b' is not supported."""
        items = self.items
        parts = spec.split(" / ")
        for p in parts[:-1]:
            if p.startswith("macro "):
                # contents of an item-position macro invocation `name! { .. }`
                for i, t in enumerate(self.T):
                    if t.t == p[6:] and self.T[i + 1].t == "!" and self.T[i + 2].t == "{":
                        items = parse_items(self.src, self.T, i + 3, self.T[i + 2].m)
                        break
                else:
                    raise Lost(f"{self.path}: no `{p}`")
                continue
            if p.startswith("rules "):
                # contents of the first arm of `macro_rules! name { (..) => { .. } }`
                for i, t in enumerate(self.T):
                    if t.t == p[6:] and i > 1 and self.T[i - 1].t == "!" and self.T[i - 2].t == "macro_rules":
                        a = self.T[i + 2].m + 1
                        while self.T[a].t != "{":
                            a += 1
                        items = parse_items(self.src, self.T, a + 1, self.T[a].m)
                        break
                else:
                    raise Lost(f"{self.path}: no `{p}`")
                continue
            assert p.startswith("mod ")
            c = [x for x in items if x.kind == "mod" and x.name == p[4:]]
            if not c:
                raise Lost(f"{self.path}: no `{p}`")
            items = c[0].children
        p = parts[-1]
        m = re.match(r"(fn|struct|enum|const|static|trait|type|mod) (\w+)$", p)
        if m:
            c = [x for x in items if x.kind == m.group(1) and x.name == m.group(2) and not _is_test(x)]
            if len(c) != 1:
                raise Lost(f"{self.path}: `{spec}` found {len(c)} times")
            return c[0]
        m = re.match(r"(\S+) for (.+) :: (\w+)$", p)
        if m:   # `Trait for <full self type> :: method`
            tr, full, nm = m.groups()
            q = lambda z: re.sub(r"\s", "", z or "")
            c = []
            for x in items:
                if x.kind == "impl" and not _is_test(x) and x.trait == tr and q(getattr(x, "self_full", "")) == q(full):
                    for y in x.children:
                        if y.name == nm and y.kind == "fn":
                            y.impl = x
                            c.append(y)
            if len(c) != 1:
                raise Lost(f"{self.path}: `{spec}` found {len(c)} times")
            return c[0]
        m = re.match(r"(?:(.+) for )?(\w+)::(\w+)$", p)
        tr, ty, nm = m.groups()
        c = []
        for x in items:
            if x.kind == "impl" and x.name == ty and not _is_test(x):
                if tr is None:
                    if x.trait is not None:
                        continue
                else:
                    if re.sub(r"\s", "", tr) not in (x.trait, re.sub(r"\s", "", getattr(x, "trait_full", ""))):
                        continue
                for y in x.children:
                    if y.name == nm and y.kind in ("fn", "const", "type"):
                        y.impl = x
                        c.append(y)
            if x.kind == "trait" and x.name == ty and tr is None:
                for y in x.children:
                    if y.name == nm:
                        y.impl = x
                        c.append(y)
        if len(c) > 1 and tr is not None:
            c = [y for y in c if re.sub(r"\s", "", getattr(y.impl, "trait_full", "") or "") == re.sub(r"\s", "", tr)]
        if len(c) != 1:
            raise Lost(f"{self.path}: `{spec}` found {len(c)} times")
        return c[0]


def _is_test(it):
    return any("cfg(test)" in a.replace(" ", "") for a in it.attrs)


def find_loops(T, lo, hi):
    """Loops in T[lo:hi] in source order: dicts kind, kw index, body '{' index."""
    out = []
    i = lo
    while i < hi:
        t = T[i]
        if t.k == "id" and t.t in ("while", "loop", "for"):
            if t.t == "for" and T[i + 1].t == "<":
                i += 1
                continue
            j = i + 1
            while T[j].t != "{":
                if T[j].k == "punct" and T[j].t in ("(", "["):
                    j = T[j].m
                j += 1
            kind = t.t
            if kind == "while" and T[i + 1].t == "let":
                kind = "while let"
            out.append({"kind": kind, "kw": i, "open": j, "close": T[j].m})
        i += 1
    return out


def find_closures(T, lo, hi):
    """Closures `|..| body` / `move |..| body`: dicts with start token, params, body token range."""
    out = []
    i = lo
    while i < hi:
        t = T[i]
        if t.k == "punct" and t.t in ("|", "||"):
            p = T[i - 1]
            # closure position: after ( , = { ; => return move && ...   (binary-or follows ident/lit/close)
            if (p.k == "punct" and p.t in ("(", ",", "=", "{", ";", "=>", ":", "[")) or p.t in ("move", "return"):
                if t.t == "||":
                    pe = i
                else:
                    pe = i + 1
                    while T[pe].t != "|":
                        if T[pe].k == "punct" and T[pe].t in OPEN:
                            pe = T[pe].m
                        pe += 1
                if p.t == "{" or p.t == "=>" or p.t == ",":
                    # could be leading `|` of a match arm pattern:  { | A | B => ..
                    k = pe + 1
                    # heuristics: match-arm leading | is not used in this code base
                b = pe + 1
                # body: to the next , or ) at depth 0
                j = b
                if T[b].t == "->":
                    while T[j].t != "{":
                        j += 1
                    be = T[j].m + 1
                elif T[b].t == "{":
                    be = T[b].m + 1
                else:
                    while j < hi and not (T[j].k == "punct" and T[j].t in (",", ")", ";", "]", "}")):
                        if T[j].k == "punct" and T[j].t in OPEN:
                            j = T[j].m
                        j += 1
                    be = j
                out.append({"start": i, "pend": pe, "b": b, "be": be})
                i = pe + 1
                continue
        i += 1
    return out


def literals(src):
    """All literals of a source text (used as dictionary for the bounded stand-ins)."""
    return [(t.k, t.t) for t in tokenize(src) if t.k in ("str", "char", "num")]
