"""Battery of PackedStruct declarations with an independent layout oracle.

A declaration is generated together with its ground truth (which bits of the
packed form each leaf value owns, most significant wire bit first).  The oracle
is emitted as straight-line Rust over those positions; nothing of /repo's own
layout logic is used to compute it.
"""
import random

def ones(n): return (1 << n) - 1
def cls(w):  return 8 if w <= 8 else 16 if w <= 16 else 32 if w <= 32 else 64

# ---------------------------------------------------------------- enumerations
class EnumTy:
    def __init__(self, name, prim, derive, variants, text=None):
        self.name, self.prim, self.derive, self.variants, self.text = name, prim, derive, variants, text
        self.signed = prim[0] == 'i'
        self.bits = int(prim[1:])
    def decl(self):
        vs = self.text or ", ".join(f"{n} = {d}" for n, d in self.variants)
        return (f"#[derive({self.derive}, Clone, Copy, Debug, PartialEq)] pub enum {self.name} {{ {vs} }}\n"
                f"pub fn any_{self.name}() -> {self.name} {{ match nd::any::<u8>() {{ " +
                "".join(f"{i} => {self.name}::{n}, " for i, (n, d) in enumerate(self.variants[:-1])) +
                f"_ => {self.name}::{self.variants[-1][0]} }} }}\n"
                f"pub fn disc_{self.name}(e: {self.name}) -> {self.prim} {{ match e {{ " +
                "".join(f"{self.name}::{n} => {d}, " for n, d in self.variants) + "} }\n"
                f"pub fn has_{self.name}(v: {self.prim}) -> bool {{ " +
                " || ".join(f"v == {d}" for n, d in self.variants) + " }\n")

ENUMS = {e.name: e for e in [
    EnumTy("EnA", "u8", "PrimitiveEnum", [("A", 0), ("B", 1), ("C", 2), ("D", 5)], "A, B, C, D = 5"),
    EnumTy("EnF", "u8", "PrimitiveEnum_u8", [("X0", 0), ("X1", 1), ("X2", 2), ("X3", 3)]),
    EnumTy("EnN", "i8", "PrimitiveEnum_i8", [("M2", -2), ("M1", -1), ("Z", 0), ("P1", 1)], "M2 = -2, M1, Z, P1"),
    EnumTy("EnW", "u16", "PrimitiveEnum_u16", [("A", 1), ("B", 300), ("C", 0x155)]),
    EnumTy("EnS", "i16", "PrimitiveEnum_i16", [("A", -200), ("B", 3), ("C", 170)]),
    EnumTy("EnD", "u32", "PrimitiveEnum_u32", [("A", 0x10001), ("B", 7), ("C", 0x1ABCD)]),
    EnumTy("EnI", "i32", "PrimitiveEnum_i32", [("A", -70000), ("B", -1), ("C", 65000)]),
    EnumTy("EnQ", "u64", "PrimitiveEnum_u64", [("A", 0x1_0000_0001), ("B", 9), ("C", 0x1_2345_6789)]),
    EnumTy("EnL", "i64", "PrimitiveEnum_i64", [("A", -0x1_0000_0000), ("B", -3), ("C", 0xFFFF_FFFF)]),
]}

# ---------------------------------------------------------------- leaf kinds
def wire_expr(v, w, lsb):
    """u64 expression: the w wire bits (msb first) of the unsigned u64 `v`."""
    if not lsb or w <= 8:
        return f"({v} & {ones(w):#x})"
    q, r = divmod(w, 8)
    parts = [f"((({v} >> {8*i}) & 0xff) << {w-8-8*i})" for i in range(q)]
    if r: parts.append(f"(({v} >> {8*q}) & {ones(r):#x})")
    return "(" + " | ".join(parts) + ")"

def unwire_expr(x, w, lsb):
    if not lsb or w <= 8:
        return f"({x} & {ones(w):#x})"
    q, r = divmod(w, 8)
    parts = [f"((({x} >> {w-8-8*i}) & 0xff) << {8*i})" for i in range(q)]
    if r: parts.append(f"(({x} & {ones(r):#x}) << {8*q})")
    return "(" + " | ".join(parts) + ")"

def sext(x, w, T):
    """u64 bits -> native T, zero- or sign-extended from w."""
    if T[0] == 'u': return f"({x} as {T})"
    return f"((((({x}) << {64-w}) as i64) >> {64-w}) as {T})"

class Leaf:
    def err(self): return "PackingError::InvalidValue"
    reserved = False
    def pre(self): return []

class Int(Leaf):
    def __init__(self, w, signed=False, lsb=False, native=False):
        self.w, self.signed, self.lsb, self.native = w, signed, lsb, native
        self.T = ('i' if signed else 'u') + str(cls(w))
    def ty(self): return self.T if self.native else f"Integer<{self.T}, packed_bits::Bits::<{self.w}>>"
    def attrs(self): return []
    def needs_endian(self): return self.w > 8
    def any(self, v, fit):
        if fit and self.w < cls(self.w):
            return f"let {v}: {self.T} = {{ let x: {self.T} = nd::any(); let x = x as u64; {sext(f'(x & {ones(self.w):#x})', self.w, self.T)} }};"
        return f"let {v}: {self.T} = nd::any();"
    def init(self, v): return v if self.native else f"{v}.into()"
    def wire(self, v): return wire_expr(f"({v} as u64)", self.w, self.lsb)
    def valid(self, x): return None
    def eq_wire(self, acc, x):
        a = acc if self.native else f"*{acc}"
        return f"{a} == {sext(unwire_expr(x, self.w, self.lsb), self.w, self.T)}"
    def eq_val(self, acc, v): return f"{acc if self.native else '*' + acc} == {v}"

class Bool(Leaf):
    def __init__(self, w=1): self.w = w; self.lsb = False
    def ty(self): return "bool"
    def attrs(self): return []
    def needs_endian(self): return False
    def any(self, v, fit): return f"let {v}: bool = nd::any();"
    def init(self, v): return v
    def wire(self, v): return f"({v} as u64)"
    def valid(self, x): return None if self.w == 1 else f"({x} <= 1)"
    def eq_wire(self, acc, x): return f"{acc} == ({x} == 1)"
    def eq_val(self, acc, v): return f"{acc} == {v}"

class Enum(Leaf):
    def __init__(self, name, w, lsb=False, catch=False):
        self.e = ENUMS[name]; self.w, self.lsb, self.catch = w, lsb, catch
        assert cls(w) == self.e.bits, (name, w)
        self.T = self.e.prim
    def fits(self, d):
        return -(1 << (self.w-1)) <= d < (1 << (self.w-1)) if self.e.signed else 0 <= d < (1 << self.w)
    def ty(self): return f"EnumCatchAll<{self.e.name}>" if self.catch else self.e.name
    def attrs(self): return ['ty="enum"']
    def needs_endian(self): return self.w > 8
    def any(self, v, fit):
        if self.catch:
            x = f"nd::any::<{self.T}>()"
            if fit and self.w < cls(self.w):
                x = f"{{ let x = nd::any::<{self.T}>() as u64; {sext(f'(x & {ones(self.w):#x})', self.w, self.T)} }}"
            # a value either wrapped through the table or held verbatim
            return (f"let {v}: {self.T} = {x}; let {v}_e: {self.ty()} = match {v} {{ " +
                    "".join(f"{d} => EnumCatchAll::Enum({self.e.name}::{n}), " for n, d in self.e.variants) +
                    f"o => EnumCatchAll::CatchAll(o) }};")
        a = ""
        if fit and not all(self.fits(d) for _, d in self.e.variants):
            bad = [n for n, d in self.e.variants if not self.fits(d)]
            a = f" nd::assume(!matches!({v}_e, {' | '.join(self.e.name + '::' + n for n in bad)}));"
        return f"let {v}_e = any_{self.e.name}(); let {v}: {self.T} = disc_{self.e.name}({v}_e);" + a
    def init(self, v): return v + "_e"
    def wire(self, v): return wire_expr(f"({v} as u64)", self.w, self.lsb)
    def dec(self, x): return sext(unwire_expr(x, self.w, self.lsb), self.w, self.T)
    def valid(self, x): return None if self.catch else f"has_{self.e.name}({self.dec(x)})"
    def num(self, acc):
        if self.catch:
            return f"(match {acc} {{ EnumCatchAll::Enum(e) => disc_{self.e.name}(e), EnumCatchAll::CatchAll(v) => v }})"
        return f"disc_{self.e.name}({acc})"
    def eq_wire(self, acc, x):
        s = f"{self.num(acc)} == {self.dec(x)}"
        if self.catch: s += f" && (matches!({acc}, EnumCatchAll::Enum(_)) == has_{self.e.name}({self.dec(x)}))"
        return s
    def eq_val(self, acc, v): return f"{self.num(acc)} == {v}"

class Res(Leaf):
    reserved = True
    def __init__(self, w, one=False, alias=0): self.w, self.one, self.alias = w, one, alias; self.lsb = False
    def ty(self):
        n = (["ReservedOne", "ReservedOnes"] if self.one else ["ReservedZero", "ReservedZeroes"])[self.alias]
        return f"{n}<packed_bits::Bits::<{self.w}>>"
    def attrs(self): return []
    def needs_endian(self): return False
    def any(self, v, fit): return ""
    def init(self, v): return "Default::default()"
    def valid(self, x): return None

class Custom(Leaf):
    """A hand-written PackedStruct impl: W bits, right aligned, big endian."""
    def __init__(self, w): self.w = w; self.lsb = False; assert w % 8
    def ty(self): return f"Cus{self.w}"
    def attrs(self): return []
    def needs_endian(self): return False
    def any(self, v, fit): return f"let {v}: u64 = nd::any::<u64>() & {ones(self.w):#x};"
    def init(self, v): return f"Cus{self.w}({v})"
    def wire(self, v): return v
    def err(self):
        E = ["InvalidValue", "BitsError", "BufferSizeMismatch { expected: 7, actual: 91 }", "BufferTooSmall", "SliceIndexingError { slice_len: 5 }", "NotImplemented", "BufferModMismatch { actual_size: 3, modulo_required: 17 }", "InstanceRequiredForSize", "InternalError", "MoreThanOneDynamicType"]
        return "PackingError::" + E[self.w % len(E)]
    def valid(self, x): return f"({x} != {ones(self.w):#x})"
    def eq_wire(self, acc, x): return f"{acc}.0 == {x}"
    def eq_val(self, acc, v): return f"{acc}.0 == {v}"
    def decl(self):
        n = (self.w + 7) // 8
        return (f"#[derive(Clone, Copy, Debug, PartialEq)] pub struct Cus{self.w}(pub u64);\n"
                f"impl PackedStruct for Cus{self.w} {{ type ByteArray = [u8; {n}];\n"
                f"  fn pack(&self) -> Result<[u8; {n}], PackingError> {{ let v = self.0; if v == {ones(self.w):#x} {{ return Err({self.err()}) }} Ok([" + ", ".join(f"(v >> {8*(n-1-i)}) as u8" for i in range(n)) + "]) }\n"
                f"  fn unpack(s: &[u8; {n}]) -> Result<Self, PackingError> {{ let v = (" + " | ".join(f"((s[{i}] as u64) << {8*(n-1-i)})" for i in range(n)) + f") & {ones(self.w):#x}; if v == {ones(self.w):#x} {{ return Err({self.err()}) }} Ok(Cus{self.w}(v)) }} }}\n")

class Nested(Leaf):
    def __init__(self, st, w=None):
        self.st = st; self.w = w or st.bits; self.lsb = False
        assert self.w <= 8 * st.nbytes
    def ty(self): return self.st.name
    def attrs(self): return []
    def needs_endian(self): return False

class Arr:
    def __init__(self, elem, n, text=None): self.elem, self.n, self.text = elem, n, text      # text: how the length is written
    @property
    def w(self): return self.elem.w * self.n

# ---------------------------------------------------------------- structures
class Field:
    """kind: Leaf or Arr; start: msb0 bit index in the packed form (ground truth);
    attrs: attribute strings that are supposed to say so."""
    def __init__(self, name, kind, start, attrs):
        self.name, self.kind, self.start, self.attrs = name, kind, start, attrs
        self.split = False         # one attribute per name/value pair
    @property
    def end(self): return self.start + self.kind.w - 1

class Struct:
    def __init__(self, name, fields, nbytes, sattrs, bits=None):
        self.name, self.fields, self.nbytes, self.sattrs = name, fields, nbytes, sattrs
        self.bits = bits if bits is not None else nbytes * 8
    def decl(self):
        o = "#[derive(PackedStruct, Clone, Debug, PartialEq)]"
        if self.sattrs: o += "".join(f" #[packed_struct({a})]" for a in self.sattrs) if getattr(self, "split", False) else f" #[packed_struct({', '.join(self.sattrs)})]"
        o += f" pub struct {self.name} {{ "
        fs = []
        for f in self.fields:
            a = ("".join(f"#[packed_field({x})] #[allow(unused)] " for x in f.attrs) if f.split else f"#[packed_field({', '.join(f.attrs)})] ") if f.attrs else ""
            k = f.kind
            t = f"[{k.elem.ty()}; {k.text or k.n}]" if isinstance(k, Arr) else k.ty()
            fs.append(f"{a}pub {f.name}: {t}")
        return o + ", ".join(fs) + " }"
    # flattened leaves: (access path, value variable, leaf, msb0 start, width, clip)
    def leaves(self, base=0, path="", var="x"):
        out = []
        def put(kind, start, path, var):
            if isinstance(kind, Nested):
                shift = start - (8 * kind.st.nbytes - kind.w)
                for l in kind.st.leaves(shift, path, var):
                    if l[3] < start:                       # clipped: only reserved padding may be
                        assert l[2].reserved, (self.name, l)
                        cut = start - l[3]
                        if l[4] - cut > 0: out.append((l[0], l[1], l[2], start, l[4] - cut))
                    else: out.append(l)
            else:
                out.append((path, var, kind, start, kind.w))
        for f in self.fields:
            p, v = (path + "." if path else "") + f.name, var + "_" + f.name.replace("r#", "")
            if isinstance(f.kind, Arr):
                for i in range(f.kind.n):
                    put(f.kind.elem, base + f.start + i * f.kind.elem.w, f"{p}[{i}]", f"{v}_at{i}")
            else: put(f.kind, base + f.start, p, v)
        return out
    def init(self, var="x"):
        def one(kind, v):
            return kind.st.init(v) if isinstance(kind, Nested) else kind.init(v)
        fs = []
        for f in self.fields:
            v = var + "_" + f.name.replace("r#", "")
            if isinstance(f.kind, Arr):
                fs.append(f"{f.name}: [{', '.join(one(f.kind.elem, f'{v}_at{i}') for i in range(f.kind.n))}]")
            else: fs.append(f"{f.name}: {one(f.kind, v)}")
        return f"{self.name} {{ {', '.join(fs)} }}"

    # -- oracle pieces
    def expected_bytes(self, wv):
        """per byte: Rust u8 expression of the packed form, from wire variables."""
        by = [[] for _ in range(self.nbytes)]
        for path, var, leaf, s, w in self.leaves():
            e = s + w - 1
            for k in range(s // 8, e // 8 + 1):
                lo, hi = max(s, 8*k), min(e, 8*k+7)
                n = hi - lo + 1
                if leaf.reserved:
                    if leaf.one: by[k].append(f"{ones(n) << (8*k+7-hi):#x}")
                else:
                    by[k].append(f"((({wv(var)} >> {e-hi}) as u8 & {ones(n):#x}) << {8*k+7-hi})")
        return [" | ".join(b) if b else "0u8" for b in by]
    def wire_of_bytes(self, s, w, b="b"):
        e = s + w - 1
        parts = []
        for k in range(s // 8, e // 8 + 1):
            lo, hi = max(s, 8*k), min(e, 8*k+7)
            n = hi - lo + 1
            parts.append(f"((({b}[{k}] >> {8*k+7-hi}) as u64 & {ones(n):#x}) << {e-hi})")
        return "(" + " | ".join(parts) + ")"
    def owned_mask(self):
        m = [0] * self.nbytes
        for path, var, leaf, s, w in self.leaves():
            if leaf.reserved: continue
            for i in range(s, s + w): m[i // 8] |= 0x80 >> (i % 8)
        return m

    def check_pack(self, fn):
        ls = [l for l in self.leaves() if not l[2].reserved]
        o = [f"pub fn {fn}() {{"]
        for p, v, leaf, s, w in ls:
            o.append("  " + leaf.any(v, False))
        o.append(f"  let s = {self.init()};")
        cu = [(leaf.valid(v), leaf.err()) for p, v, leaf, s, w in ls if isinstance(leaf, Custom)]
        o.append("  let r = s.pack();")
        if cu:
            o.append(f"  if !({' && '.join(c for c, e in cu)}) {{ match r {{ Ok(_) => panic!(\"{self.name}: a member's error was swallowed\"), Err(e) => assert!({' || '.join(f'(!{c} && e == {er})' for c, er in cu)}, \"{self.name}: a member's error did not surface unchanged\") }} return; }}")
        o.append(f"  assert!(r.is_ok(), \"{self.name}: pack failed\"); let b = r.unwrap(); let b: &[u8] = &b[..];")
        o.append(f"  assert!(b.len() == {self.nbytes}, \"{self.name}: packed length\");")
        for p, v, leaf, s, w in ls: o.append(f"  let w{v}: u64 = {leaf.wire(v)};")
        ex = self.expected_bytes(lambda v: "w" + v)
        o.append("  let mut ok = true;")
        for k, e in enumerate(ex): o.append(f"  ok &= b[{k}] == ({e});")
        o.append(f"  assert!(ok, \"{self.name}: packed bits differ from the declared layout\");")
        o.append("}")
        return "\n".join(o)

    def check_unpack(self, fn):
        ls = [l for l in self.leaves() if not l[2].reserved]
        o = [f"pub fn {fn}() {{",
             f"  let c: <{self.name} as PackedStruct>::ByteArray = nd::any();",
             f"  let b: &[u8] = &c[..]; assert!(b.len() == {self.nbytes}, \"{self.name}: byte array length\");",
             f"  let r = {self.name}::unpack(&c);"]
        for p, v, leaf, s, w in ls: o.append(f"  let w{v}: u64 = {self.wire_of_bytes(s, w)};")
        errs = [(leaf.valid("w" + v), leaf.err()) for p, v, leaf, s, w in ls if leaf.valid("w" + v)]
        valid = [x for x, e in errs] or ["true"]
        o.append(f"  let valid = {' && '.join(valid)};")
        o.append("  match r { Ok(u) => {")
        o.append(f"    assert!(valid, \"{self.name}: unpack accepted an invalid value\");")
        o.append("    let mut ok = true;")
        for p, v, leaf, s, w in ls: o.append(f"    ok &= {leaf.eq_wire('u.' + p, 'w' + v)};")
        o.append(f"    assert!(ok, \"{self.name}: unpacked field differs from its own bits\");")
        o.append("  }, Err(e) => {")
        o.append(f"    assert!(!valid, \"{self.name}: unpack refused a valid byte array\");")
        if all(e == "PackingError::InvalidValue" for x, e in errs): o.append(f"    assert!(matches!(e, PackingError::InvalidValue), \"{self.name}: wrong error\");")
        else: o.append(f"    assert!({' || '.join(f'(!{x} && e == {er})' for x, er in errs)}, \"{self.name}: a member's error did not surface unchanged\");")
        o.append("  } }\n}")
        return "\n".join(o)

    def check_round(self, fn):
        ls = [l for l in self.leaves() if not l[2].reserved]
        o = [f"pub fn {fn}() {{", " {"]
        for p, v, leaf, s, w in ls:
            o.append("  " + leaf.any(v, True))
            if isinstance(leaf, Custom): o.append(f"  nd::assume({leaf.valid(v)});")
        o.append(f"  let s = {self.init()};")
        o.append(f"  let r = s.pack(); assert!(r.is_ok(), \"{self.name}: pack failed\"); let p = r.unwrap();")
        o.append(f"  let r = {self.name}::unpack(&p); assert!(r.is_ok(), \"{self.name}: unpack of packed value failed\"); let u = r.unwrap();")
        o.append("  let mut ok = true;")
        for p, v, leaf, s, w in ls: o.append(f"  ok &= {leaf.eq_val('u.' + p, v)};")
        o.append(f"  assert!(ok, \"{self.name}: unpack(pack(v)) != v\");")
        o.append(" } {")
        o.append(f"  let c: <{self.name} as PackedStruct>::ByteArray = nd::any();")
        o.append(f"  if let Ok(u) = {self.name}::unpack(&c) {{ let r = u.pack(); assert!(r.is_ok(), \"{self.name}: repack failed\"); let q = r.unwrap(); let mut ok = true;")
        for k, m in enumerate(self.owned_mask()):
            if m: o.append(f"    ok &= (q[..][{k}] ^ c[..][{k}]) & {m:#x} == 0;")
        o.append(f"    assert!(ok, \"{self.name}: pack(unpack(b)) != b\"); }}")
        o.append(" }\n}")
        return "\n".join(o)

# ---------------------------------------------------------------- attribute writing
def num(n, rng): return f"{n:#x}" if rng.random() < .2 else str(n)

def pos_attr(start, w, nbytes, lsb0, rng, form=None):
    """A position attribute denoting msb0 bits [start, start+w-1].  Exclusive byte
    ranges and reversed byte ranges are left to C14."""
    a, b = start, start + w - 1
    if lsb0:
        a, b = nbytes*8-1-a, nbytes*8-1-b                 # a >= b
        forms = ["rev", "inc", "eq", "exc"]
        lo, hi = b, a
        bytes_ok = lo % 8 == 0 and (hi + 1) % 8 == 0
    else:
        forms = ["inc", "eq", "exc", "rev"]
        lo, hi = a, b
        bytes_ok = lo % 8 == 0 and (hi + 1) % 8 == 0
    if lo == hi: forms.append("single")
    if bytes_ok: forms += ["byte", "byteeq"]
    if bytes_ok and hi - lo == 7: forms += ["byte1"]
    f = form or rng.choice(forms)
    N = lambda n: num(n, rng)
    return {"inc": lambda: f'bits="{N(lo)}:{N(hi)}"', "eq": lambda: f'bits="{N(lo)}..={N(hi)}"',
            "exc": lambda: f'bits="{N(lo)}..{N(hi+1)}"', "rev": lambda: f'bits="{N(hi)}:{N(lo)}"',
            "single": lambda: f'bits="{N(lo)}"', "byte": lambda: f'bytes="{N(lo//8)}:{N(hi//8)}"',
            "byteeq": lambda: f'bytes="{N(lo//8)}..={N(hi//8)}"', "byte1": lambda: f'bytes="{N(lo//8)}"'}[f]()

def endian_attr(kind, default, rng):
    """Attribute needed so that `kind` is serialised in kind.lsb order, given the
    structure default (None, False=msb, True=lsb)."""
    leaf = kind.elem if isinstance(kind, Arr) else kind
    if not leaf.needs_endian(): 
        if rng.random() < .15 and isinstance(leaf, (Int, Enum)): return [f'endian="{rng.choice(["msb", "lsb", "le", "be"])}"']
        return []
    if default is not None and default == leaf.lsb and rng.random() < .7: return []
    return [f'endian="{rng.choice(["lsb", "le"] if leaf.lsb else ["msb", "be"])}"']

def default_attr(d, rng): return [] if d is None else [f'endian="{rng.choice(["lsb", "le"] if d else ["msb", "be"])}"']

def mk(name, items, nbytes, rng, lsb0=False, default=None, order=None, extra_sized=True):
    """items: (kind, start).  Fields are declared in the given or a shuffled order."""
    fields = []
    for i, (kind, start) in enumerate(items):
        attrs = [pos_attr(start, kind.w, nbytes, lsb0, rng)] + (kind.elem if isinstance(kind, Arr) else kind).attrs() + endian_attr(kind, default, rng)
        if isinstance(kind, Arr) and rng.random() < .4: attrs.append(f'element_size_bits="{kind.elem.w}"')
        rng.shuffle(attrs)
        fields.append(Field(f"f{i}", kind, start, attrs))
    if order == "shuffle": rng.shuffle(fields)
    elif order == "rev": fields.reverse()
    sattrs = [f'bit_numbering="{rng.choice(["lsb0", "LSB0"] if lsb0 else ["msb0", "MSB0"])}"'] + default_attr(default, rng)
    used = max(s + k.w for k, s in items)
    if lsb0 or extra_sized or used < nbytes * 8:
        sattrs.append(f'size_bytes="{num(nbytes, rng)}"')
    rng.shuffle(sattrs)
    return Struct(name, fields, nbytes, sattrs)

# ---------------------------------------------------------------- batteries
def grid(seed, lsb_all=False):
    """One integer field at every (start mod 8, width 1..64)."""
    rng = random.Random(seed * 7919 + 1)
    out = []
    for off in range(8):
        for w in range(1, 65):
            for lsb in ([False, True] if lsb_all and w > 8 else [(off + w + seed) % 2 == 1 and w > 8]):
                lead = rng.choice([0, 0, 1, 2])
                start = off + 8 * lead
                n = (start + w + 7) // 8 + rng.choice([0, 0, 1])
                leaf = Int(w, signed=rng.random() < .5, lsb=lsb, native=rng.random() < .4)
                out.append(mk(f"G{off}_{w}{'L' if lsb else 'M'}", [(leaf, start)], n, rng, lsb0=rng.random() < .4,
                              default=rng.choice([None, False, True])))
    return out

def rand_leaf(rng, maxw, kinds=("int", "int", "int", "bool", "enum", "catch", "res")):
    while True:
        k = rng.choice(kinds)
        if k == "int":
            w = min(rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 23, 24, 27, 31, 32, 33, 37, 40, 48, 55, 63, 64]), maxw)
            return Int(w, rng.random() < .5, rng.random() < .5, rng.random() < .4)
        if k == "bool":
            return Bool(rng.choice([1, 1, 1, 2, 5, 8])) if maxw >= 8 else Bool(1)
        if k in ("enum", "catch"):
            e = rng.choice(list(ENUMS.values()))
            lo = {8: 3, 16: 10, 32: 18, 64: 34}[e.bits]
            hi = min(maxw, e.bits)
            if hi < lo: continue
            return Enum(e.name, rng.randint(lo, hi), rng.random() < .5, k == "catch")
        if k == "res":
            return Res(min(maxw, rng.choice([1, 2, 3, 5, 8, 11, 16, 24, 40])), rng.random() < .5, rng.randint(0, 1))

def dense(name, rng, nbytes, gap=.25, arrays=.2, kinds=None, nested=()):
    """Fields laid out left to right with optional gaps."""
    total = nbytes * 8
    items, p = [], 0
    kw = {"kinds": kinds} if kinds else {}
    while p < total:
        if rng.random() < gap: p += rng.choice([1, 2, 3, 5, 8])
        left = total - p
        if left <= 0: break
        if nested and rng.random() < .3:
            st = rng.choice(nested)
            if st.bits <= left:
                items.append((Nested(st), p)); p += st.bits; continue
        leaf = rand_leaf(rng, left, **kw)
        if rng.random() < arrays:
            n = rng.choice([2, 3, 4])
            if leaf.w * n <= left:
                items.append((Arr(leaf, n), p)); p += leaf.w * n; continue
        items.append((leaf, p)); p += leaf.w
    if not items: items = [(Bool(1), 0)]
    return mk(name, items, nbytes, rng, lsb0=rng.random() < .4, default=rng.choice([None, False, True]),
              order=rng.choice([None, "shuffle", "rev"]), extra_sized=rng.random() < .6)

def multi(seed, count, prefix="M", **kw):
    rng = random.Random(seed * 104729 + 17)
    return [dense(f"{prefix}{i}", rng, rng.choice([1, 2, 2, 3, 4, 5, 6, 8, 10, 12]), **kw) for i in range(count)]

def large(seed):
    """Far start bytes and wide structures."""
    rng = random.Random(seed * 31 + 5)
    out = []
    for i, nb in enumerate([33, 40, 64, 130, 257, 300]):
        items, p = [], rng.choice([0, 3, 8])
        while p < nb * 8 - 80:
            leaf = rand_leaf(rng, 64)
            items.append((leaf, p)); p += leaf.w + rng.choice([nb, nb * 2, nb * 3]) // 2
        leaf = Int(rng.choice([13, 24, 33]), True, True)
        items.append((leaf, nb * 8 - leaf.w - rng.choice([0, 1, 3])))
        out.append(mk(f"B{i}", items, nb, rng, lsb0=i % 2 == 1, default=rng.choice([None, False, True])))
    return out

def far(seed, count):
    """Fields far from the start and wide members, for native runs: (auxiliary structures, structures)"""
    rng = random.Random(seed * 6007 + 77)
    aux = [mk(f"Fw{i}", [(Arr(Int(8, native=True), n), 0)], n, rng) for i, n in enumerate([rng.randint(17, 31), 32, rng.randint(33, 63), rng.randint(64, 90)])]
    out = []
    for i in range(count):
        nb = rng.choice([rng.randint(16, 64), rng.randint(65, 300), rng.randint(255, 264), rng.randint(300, 1100)] + ([rng.choice([4097, 8193])] if i % 12 == 0 else []))
        items, p = [], rng.randint(0, nb)
        wide = rng.choice(aux) if i % 2 and nb > 100 else None
        while True:
            p += rng.choice([0, 0, 1, 3, 8, rng.randint(0, nb * 4)])
            leaf = Nested(wide) if wide else rand_leaf(rng, 64); wide = None
            if p + leaf.w > nb * 8: break
            items.append((leaf, p)); p += leaf.w
            if len(items) == 9: break
        if not items or all(isinstance(l, Res) for l, _ in items): items = [(Int(13, True, True), nb * 8 - 13 - rng.randint(0, 7))]
        if rng.random() < .5 and max(st + l.w for l, st in items) + 21 <= nb * 8: items.append((Int(21, False, True), nb * 8 - 21))
        out.append(mk(f"Far{i}", items, nb, rng, lsb0=rng.random() < .5, default=rng.choice([None, False, True]), order=rng.choice([None, "rev", "shuffle"])))
    return aux, out
