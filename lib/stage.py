"""Staging erasure: a generator of straight-line code, read as the program it generates.

The derive macro builds the generated code by pushing quote! fragments; a fragment's splices `#x` are
values the generator has computed.  Executing a fragment where it is pushed, with its splices read as
the generator's variables, does exactly what the generated code does, in the same order: the
generator's own variables are independent of the run-time state and fragments never touch them."""
import re
from extract import Lost, close_of, lex, OPEN

def splices(b, g):
    """erase `#x`; return the tokens with operator splices (names in g.ops) applied as functions"""
    out, i = [], 0
    while i < len(b):
        if b[i] == "#" and i + 1 < len(b) and re.match(r"[A-Za-z_]\w*$", b[i+1]):
            if b[i+1] in g.ops:
                # operand: the bracket group or path expression right before the splice
                j = len(out) - 1
                if out[j] in (")", "]"):
                    wide = out[j-2:j] == ["as", "u16"]; d = 0
                    while True:
                        if out[j] in (")", "]"): d += 1
                        elif out[j] in ("(", "["):
                            d -= 1
                            if d == 0: break
                        j -= 1
                    if out[j] == "[": j -= 1
                else: raise Lost("operator splice after something other than a group")
                X = out[j:]
                out[j:] = ["shift_u16" if wide else "shift_u8", "("] + X + [",", b[i+1], ")"]
            else: out.append(b[i+1])
            i += 2; continue
        if b[i] == "#": raise Lost("repetition splice inside a fragment")
        out.append(b[i]); i += 1
    return out

def quote_at(b, i):
    """b[i:] starts with quote ! { .. } -> (inner tokens, index after)"""
    if b[i:i+3] != ["quote", "!", "{"]: raise Lost("quote! expected")
    e = close_of(b, i + 2); return b[i+3:e], e + 1

def shift_closure(b):
    """let emit_shift = |s: isize| { match s { .. quote! .. } };  ->  (name, param, body with quote! { OP # e } as x OP e), tokens removed"""
    for i in range(len(b) - 8):
        if b[i] == "let" and b[i+2] == "=" and b[i+3] == "|" and b[i+5:i+8] == [":", "isize", "|"] and b[i+8] == "{":
            e = close_of(b, i + 8); body, out, k = b[i+9:e], [], 0
            if b[e+1] != ";": raise Lost("shift closure")
            while k < len(body):
                if body[k] == "quote":
                    q, k = quote_at(body, k)
                    if not q: out += ["x"]; continue
                    if len(q) != 3 or q[0] not in ("<<", ">>") or q[1] != "#": raise Lost("shift fragment")
                    out += ["(", "x", q[0], q[2], ")"]; continue
                out.append(body[k]); k += 1
            name, par = b[i+1], b[i+4]
            return name, par, out, b[:i] + b[e+2:]
    raise Lost("no shift closure")

def erase(g, mode, other):
    """g.body: a generator with accumulators `mode` and `other`; leave only what `mode` emits"""
    b = g.body; out = []; i = 0; hoist = None
    # the fragment that assembles the result: pack: quote! { PRE #(#pack)* POST }
    def final(k):
        q, e = quote_at(b, k)
        for j in range(len(q)):
            if q[j:j+7] == ["#", "(", "#", mode, ")", "*"] or q[j:j+6] == ["#", "(", "#", mode, ")", "*"]:
                return q[:j], q[j+6:], e
        return None, q, e
    # first pass: find prefix statements of the accumulated fragment
    pre = []
    for k in range(len(b) - 3):
        if b[k] == mode and b[k+1] == ":" and b[k+2] == "quote":
            p, _, _ = final(k + 2)
            if p is not None: pre = splices(p, g)
    while i < len(b):
        if b[i] == "let" and b[i+1] == "mut" and b[i+2] in (mode, other) and b[i+3:i+8] == ["=", "vec", "!", "[", "]"] and b[i+8] == ";":
            if b[i+2] == mode: out += pre
            i += 9; continue
        if b[i] in (mode, other) and b[i+1:i+4] == [".", "push", "("]:
            e = close_of(b, i + 3); q, z = quote_at(b, i + 4)
            if z != e or b[e+1] != ";": raise Lost("fragment pushed in another form")
            if b[i] == mode: out += splices(q, g)
            i = e + 2; continue
        if b[i] == "PackBitsCopy" and b[i+1] == "{":
            e = close_of(b, i + 1); inner, k, got = b[i+2:e], 0, {}
            while k < len(inner):
                nm = inner[k]
                if inner[k+1] != ":": raise Lost("result literal")
                q, k2 = quote_at(inner, k + 2); got[nm] = q; k = k2 + (1 if k2 < len(inner) and inner[k2] == "," else 0)
            q = got[mode]; rest = q
            for j in range(len(q)):
                if q[j:j+6] == ["#", "(", "#", mode, ")", "*"]: rest = q[j+6:]
            out += splices(rest, g); i = e + 1; continue
        out.append(b[i]); i += 1
    if other in out or "quote" in out: raise Lost("generator text left after erasure")
    g.body = out
    g.rule("staging erasure: quote! fragments pushed to `%s` are executed where they are pushed, `#x` read as the generator's x, the other accumulator dropped; `X #bit_shift` is the shift the fragment stands for" % mode)
