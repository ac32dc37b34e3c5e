"""Mechanical extraction of functions from /repo's Rust sources (token level).

The verified text is what the compiler sees: comments, attributes and formatting are dropped,
everything else is the source's own token sequence, changed only by the numbered rewrite rules
below (each recorded per function in the evidence)."""
import re

PUNCT = ["<<=", ">>=", "...", "..=", "::", "->", "=>", "&&", "||", "==", "!=", "<=", ">=", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<", ">>", ".."]
class Lost(Exception):
    """The expected shape is not there: no verdict from this back end."""

def lex(s):
    out, i, n = [], 0, len(s)
    while i < n:
        c = s[i]
        if c.isspace(): i += 1; continue
        if s.startswith("//", i):
            j = s.find("\n", i); i = n if j < 0 else j; continue
        if s.startswith("/*", i):
            d, i = 1, i + 2
            while i < n and d:
                if s.startswith("/*", i): d += 1; i += 2
                elif s.startswith("*/", i): d -= 1; i += 2
                else: i += 1
            continue
        m = re.compile(r'(?:b|c)?r(#*)"').match(s, i)
        if m:
            e = s.index('"' + m.group(1), m.end()) + 1 + len(m.group(1)); out.append(s[i:e]); i = e; continue
        m = re.compile(r'(?:b|c)?"(?:[^"\\]|\\.)*"', re.S).match(s, i)
        if m: out.append(m.group(0)); i = m.end(); continue
        m = re.compile(r"b?'(?:[^'\\]|\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.))'").match(s, i)
        if m: out.append(m.group(0)); i = m.end(); continue
        m = re.compile(r"'[A-Za-z_]\w*|r#[A-Za-z_]\w*|[A-Za-z_]\w*|\d[\w]*(?:\.\d[\w]*)?").match(s, i)
        if m:
            t = m.group(0)
            if t[0].isdigit() and "." in t and s[m.end():m.end()+1] == ".": t = t  # 1.0.x: not used here
            out.append(t); i = m.end(); continue
        for p in PUNCT:
            if s.startswith(p, i): out.append(p); i += len(p); break
        else: out.append(c); i += 1
    return out

OPEN, CLOSE = {"(": ")", "[": "]", "{": "}"}, {")", "]", "}"}
def close_of(t, i):
    """index of the token closing the bracket at t[i]"""
    d = 0
    for j in range(i, len(t)):
        if t[j] in OPEN: d += 1
        elif t[j] in CLOSE:
            d -= 1
            if d == 0: return j
    raise Lost("unbalanced source")

def strip_attrs(t):
    out, i = [], 0
    while i < len(t):
        if t[i] == "#" and i + 1 < len(t) and t[i+1] == "[": i = close_of(t, i + 1) + 1; continue
        if t[i] == "#" and i + 2 < len(t) and t[i+1] == "!" and t[i+2] == "[": i = close_of(t, i + 2) + 1; continue
        out.append(t[i]); i += 1
    return out

def text(t):
    o, d = "", 0
    for x in t:
        if x == "}": d -= 1; o = o.rstrip(" ") if o.endswith("  ") else o
        o += x + " "
        if x == "{": d += 1
        if x in ("{", "}", ";"): o = o.rstrip() + "\n" + "  " * max(d, 0)
    return o

class File:
    def __init__(self, src, keep_attrs=False): self.t = lex(src) if keep_attrs else strip_attrs(lex(src))
    def items(self, t=None):
        """top-level (kind, header tokens, body tokens) of braced items"""
        t = self.t if t is None else t
        i = 0
        while i < len(t):
            if t[i] in ("fn", "impl", "trait", "struct", "enum", "mod", "macro_rules"):
                kind, j = t[i], i
                while j < len(t) and t[j] not in ("{", ";"):
                    if t[j] in ("(", "["): j = close_of(t, j)
                    j += 1
                if j < len(t) and t[j] == "{":
                    e = close_of(t, j); yield kind, t[i:j], t[j+1:e]; i = e + 1; continue
                i = j + 1; continue
            if t[i] in OPEN: i = close_of(t, i) + 1; continue
            i += 1
    def impl(self, pat, kind="impl"):
        """(header text, body) of the impl/trait whose header matches pat"""
        got = [(" ".join(h), b) for k, h, b in self.items() if k == kind and re.search(pat, " ".join(h))]
        if len(got) != 1: raise Lost(f"{len(got)} items match {kind} /{pat}/")
        return got[0]
    def fn(self, name, body=None):
        got = []
        for k, h, b in self.items(body):
            if k == "fn" and h[1] == name: got.append((h, b))
        if len(got) != 1: raise Lost(f"{len(got)} functions named {name}")
        return Fn(name, *got[0])
    def block(self, kind, name):
        got = [(h, b) for k, h, b in self.items() if k == kind and name in h[:3]]
        if len(got) != 1: raise Lost(f"{len(got)} {kind} named {name}")
        return got[0]
    def fns(self, body): return [h[1] for k, h, b in self.items(body) if k == "fn"]

CANARY = ""      # thorough runs put a false assertion here: every function must then fail (no vacuous contract)
LOOPS = ("for", "while", "loop")
class Fn:
    def __init__(self, name, header, body):
        self.name, self.header, self.body, self.rules = name, list(header), list(body), []
    # -- signature
    def sig(self, ret="r", rename=None, self_as=None):
        """header with a named result; optionally renamed / self turned into a parameter"""
        h = list(self.header)
        if rename: h[1] = rename
        i = h.index("(") if "<" not in h[2:3] else self._paren(h)
        e = close_of(h, i)
        pre, params, rest = h[:i], h[i+1:e], h[e+1:]
        if self_as:
            p = " ".join(params)
            p = re.sub(r"^& mut self\b", f"self_ : & mut {self_as}", p); p = re.sub(r"^& self\b", f"self_ : & {self_as}", p)
            p = re.sub(r"^self\b", f"self_ : {self_as}", p); params = p.split(" ")
        where = []
        if "where" in rest: w = rest.index("where"); where, rest = rest[w:], rest[:w]
        if rest[:1] == ["->"] and ret: rest = ["->", "(", ret, ":"] + rest[1:] + [")"]
        return " ".join(pre + ["("] + params + [")"] + rest + where)
    def _paren(self, h):
        d = 0
        for i, x in enumerate(h):
            if x == "<": d += 1
            elif x == "<<": d += 2
            elif x == ">": d -= 1
            elif x == ">>": d -= 2
            elif x == "(" and d == 0: return i
        raise Lost("signature")
    # -- rewrite rules: all on token sequences
    def rule(self, name): 
        if name not in self.rules: self.rules.append(name)
    def subst(self, old, new, name, count=None):
        """replace every occurrence of a token sequence"""
        o, nw, b, out, i, k = lex(old), lex(new), self.body, [], 0, 0
        while i < len(b):
            if b[i:i+len(o)] == o: out += nw; i += len(o); k += 1
            else: out.append(b[i]); i += 1
        if count is not None and k != count: raise Lost(f"{self.name}: {name}: {k} places instead of {count}")
        if k: self.rule(name)
        self.body = out; return k
    def find(self, pred, start=0):
        for i in range(start, len(self.body)):
            if pred(i): return i
        return -1
    def self_as(self, name="self_"):
        self.body = [name if x == "self" else x for x in self.body]; self.rule("the receiver `self` is written as the parameter `self_`")
    def enumerate_loops(self):
        """for (i, x) in E.iter().enumerate() { B }  ==>  for i in 0..E.len() { let x = &E[i]; B }"""
        b = self.body; i = 0
        while i < len(b):
            if b[i] == "for" and b[i+1] == "(" and b[i+3] == "," and b[i+5:i+7] == [")", "in"]:
                e = i + 7
                while b[e] != "{":
                    if b[e] in ("(", "["): e = close_of(b, e)
                    e += 1
                ex = b[i+7:e]
                if ex[-8:] == [".", "iter", "(", ")", ".", "enumerate", "(", ")"]:
                    x, v, E = b[i+2], b[i+4], ex[:-8]
                    b[i:e+1] = ["for", x, "in", "0", ".."] + E + [".", "len", "(", ")", "{", "let", v, "=", "&"] + E + ["[", x, "]", ";"]
                    self.rule("`for (i, x) in E.iter().enumerate()` is written as an index loop with `let x = &E[i]`")
            i += 1
    def iter_mut_take_loops(self):
        """for v in E.iter_mut().take(N) { .. *v .. } ==> index loop over 0..min(N, E.len()) with E[k] for *v"""
        b = self.body; i = 0; n = 0
        while i < len(b):
            if b[i] == "for" and b[i+2] == "in":
                e = i + 3
                while b[e] != "{":
                    if b[e] in ("(", "["): e = close_of(b, e)
                    e += 1
                ex = b[i+3:e]
                s = " ".join(ex)
                m = re.match(r"^(.*?) \. iter_mut \( \)(?: \. take \( (.*) \))?$", s)
                if m:
                    v, E, N = b[i+1], m.group(1).split(" "), (m.group(2) or "").split(" ") if m.group(2) else None
                    f = close_of(b, e); k = f"k__{n}"; n += 1
                    inner, out, j = b[e+1:f], [], 0
                    while j < len(inner):
                        if inner[j] == "*" and inner[j+1] == v and (j == 0 or inner[j-1] in (";", "{", "}", "=", "(")): out += E + ["[", k, "]"]; j += 2
                        else:
                            if inner[j] == v: raise Lost("element reference used other than by *v")
                            out.append(inner[j]); j += 1
                    hi = ["min_usize", "("] + N + [","] + E + [".", "len", "(", ")", ")"] if N else E + [".", "len", "(", ")"]
                    b[i:f+1] = ["for", k, "in", "0", ".."] + hi + ["{"] + out + ["}"]
                    self.rule("`for v in E.iter_mut().take(n)` is written as an index loop over 0..min(n, E.len()) with `E[k]` for `*v`")
            i += 1
    def loops(self):
        """indices of loop keywords, in order"""
        return [i for i, x in enumerate(self.body) if x in LOOPS and not (x == "for" and i + 1 < len(self.body) and self.body[i+1] == "<")]
    def annotate(self, entry="", loops=(), end=""):
        """insert ghost text: at function entry, per loop (invariants, body start, body end), before the final expression (end)"""
        ls = self.loops()
        if len(ls) != len(loops): raise Lost(f"{self.name}: {len(ls)} loops instead of {len(loops)}")
        b = list(self.body)
        for k in reversed(range(len(ls))):
            L = loops[k]; i = ls[k]
            if L.get("kw") and b[i] != L["kw"]: raise Lost(f"{self.name}: loop {k} is a {b[i]}")
            o = i + 1
            while b[o] != "{":
                if b[o] in ("(", "["): o = close_of(b, o)
                o += 1
            hd = " ".join(b[i:o])
            var = b[i+1] if b[i] == "for" and b[i+2] == "in" else None
            if L.get("var") and var is None: raise Lost(f"{self.name}: loop {k} has no counter")
            c = close_of(b, o)
            sub = lambda s: s.replace("@i", var or "@i")
            b[c:c] = [sub(L.get("end", ""))]
            b[o+1:o+1] = [sub(L.get("start", ""))]
            b[o:o] = [sub(L.get("inv", ""))]
        # final expression: after the last top-level `;` or `}` 
        if end:
            d, last = 0, 0
            for j, x in enumerate(b):
                if x in OPEN: d += 1
                elif x in CLOSE:
                    d -= 1
                    if d == 0 and x == "}" and j < len(b) - 1: last = j + 1
                elif x == ";" and d == 0: last = j + 1
            b[last:last] = [end]
        return entry + CANARY + "\n" + text(b)
    def calls(self):
        return {self.body[i] for i in range(len(self.body) - 1) if self.body[i+1] == "(" and re.match(r"[A-Za-z_]\w*$", self.body[i])}
    def skeleton(self):
        """the control and call structure: which constructs and callees, not in which order or with which operands"""
        kw = [x for x in self.body if x in ("for", "while", "loop", "if", "else", "match", "return", "break", "continue", "let", "?", "=>", "|", "||")]
        cl = [self.body[i] for i in range(len(self.body) - 1) if self.body[i+1] in ("(", "!") and re.match(r"[A-Za-z_]\w*$", self.body[i]) and self.body[i] not in ("if", "while", "match", "return", "in")]
        return sorted(x for x in kw if x not in ("let",)) , sorted(cl)
