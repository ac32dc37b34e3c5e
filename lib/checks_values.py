"""Checks of the value types and the slice-level API: C04 C05 C06 C08 C09 C10 C11 C12 C13 C17 C18 C19."""
import random, itertools
import layout as L
import kani as K
import native as NT
import verus as V
import vunits as VU
from extract import Lost
from core import *
from checks_layout import crate_of, q, ENUM_DECLS, USE_ENUMS

PAIRS = [(T, n) for n in range(1, 65) for T in ("u%d" % L.cls(n), "i%d" % L.cls(n))]
NB = lambda n: (n + 7) // 8

def groups(c, fns, n, prefix="h"):
    for i in range(0, len(fns), n): c.add_harness(f"{prefix}{i//n}", fns[i:i+n])

def low(x, n, T):
    """Rust expression (type T): the low n bits of the u64 expression, zero- or sign-extended."""
    return L.sext(f"(({x}) & {L.ones(n):#x}u64)", n, T)

# ---------------------------------------------------------------- C04
def c04(res):
    txt, fns = "use packed_struct::types::*;\n", []
    for T, n in PAIRS:
        I = f"Integer::<{T}, Bits::<{n}>>"
        f = f"lim_{T}_{n}"; fns.append("v::" + f)
        txt += f"""pub fn {f}() {{
  let x: {T} = nd::any(); let y: {T} = nd::any();
  let want: {T} = {low('x as u64', n, T)}; let wy: {T} = {low('y as u64', n, T)};
  let i: Integer<{T}, Bits::<{n}>> = x.into(); let j = {I}::from(y);
  assert!(*i == want, "{I} from {T}: not the low {n} bits");
  let back: {T} = i.into(); assert!(back == want && <{I} as SizedInteger<{T}, Bits::<{n}>>>::to_primitive(&i) == want, "{I}: conversion back");
  let k = <{I} as SizedInteger<{T}, Bits::<{n}>>>::from_primitive(x); assert!(*k == want, "{I}::from_primitive");
  let l: Integer<{T}, Bits::<{n}>> = want.into(); assert!(*l == want, "{I}: not idempotent");
  assert!((i == j) == (want == wy) && i == l, "{I}: equality is not that of the values");
  assert!(**i.as_packed_msb() == want && **i.as_packed_lsb() == want, "{I}: packing helper holds another value");
  let m: {T} = <{I} as SizedInteger<{T}, Bits::<{n}>>>::value_bit_mask(); assert!(m as u64 & {L.ones(L.cls(n)):#x} == {L.ones(n):#x}, "{I}: bit mask");
  let d: Integer<{T}, Bits::<{n}>> = Default::default(); assert!(*d == 0);
"""
        if T[0] == 'i': txt += f"  assert!(<{I} as SizedIntegerSigned<{T}, Bits::<{n}>>>::from_unpacked_to_signed(x & m) == want, \"{I}: sign extension\");\n"
        txt += "}\n"
    c = K.Crate("C04", "values"); c.add_mod("v", txt)
    for f in fns: c.cost[f] = 1
    groups(c, fns, 8)
    # text forms, natively
    t2 = ""
    for T, n in PAIRS:
        t2 += f"pub fn txt_{T}_{n}() {{ let x: {T} = nd::any(); let want: {T} = {low('x as u64', n, T)}; let i: Integer<{T}, Bits::<{n}>> = x.into(); assert_eq!(format!(\"{{}}\", i), format!(\"{{}}\", want)); assert_eq!(format!(\"{{:?}}\", i), format!(\"{{:?}}\", want)); let m = i.as_packed_msb(); assert_eq!(format!(\"{{}} {{:?}}\", m, m), format!(\"{{}} {{:?}}\", want, want)); let m = i.as_packed_lsb(); assert_eq!(format!(\"{{}} {{:?}}\", m, m), format!(\"{{}} {{:?}}\", want, want)); use std::hash::*; let h = |f: &dyn Fn(&mut std::collections::hash_map::DefaultHasher)| {{ let mut s = std::collections::hash_map::DefaultHasher::new(); f(&mut s); s.finish() }}; assert!(h(&|s| i.hash(s)) == h(&|s| want.hash(s)), \"hash is not that of the value\"); }}\n"
        c.native_only.append(f"t::txt_{T}_{n}")
    c.add_mod("t", t2)
    K.decide(c, res, "every (type, width): conversion, dereference, equality", native_only_iters=200)
    # serde
    txt, fns = "use packed_struct::types::*; use serde::{Serialize, Deserialize}; use serde::de::IntoDeserializer; use serde::de::value::Error as VE; use serde::ser::{Impossible, Serializer};\n" + CAPTURE, []
    for T, n in PAIRS:
        f = f"serde_{T}_{n}"; fns.append("v::" + f)
        txt += f"""pub fn {f}() {{
  let x: {T} = nd::any(); let want: {T} = {low('x as u64', n, T)};
  let d: serde::de::value::{T.upper()}Deserializer<VE> = x.into_deserializer();
  match Integer::<{T}, Bits::<{n}>>::deserialize(d) {{ Ok(i) => {{ assert!(*i == want, "deserialising Integer<{T}, Bits<{n}>> keeps other bits");
    match i.serialize(Cap) {{ Ok(w) => assert!(w == ({'true' if T[0] == 'i' else 'false'}, {L.cls(n)}, want as i64 as u64), "serialising Integer<{T}, Bits<{n}>>"), Err(_) => panic!("serialise failed") }} }}, Err(_) => panic!("deserialise failed") }}
}}
"""
    c = K.Crate("C04", "serde", features=["use_serde"], deps='serde = "1"\n'); c.add_mod("v", txt)
    groups(c, fns, 16)
    K.decide(c, res, "every (type, width): deserialise and serialise (use_serde)")
    res.functions += ["Integer<T,B>: From<T>, Into<T>, Deref, PartialEq, Default, SizedInteger::{from_primitive,to_primitive,value_bit_mask}, SizedIntegerSigned::from_unpacked_to_signed, as_packed_msb/lsb, Serialize, Deserialize (all 128 pairs)"]
    res.assumptions += ["Display, Debug and Hash of Integer: executed natively on sampled values (bounded, all 128 pairs)"]

CAPTURE = """pub struct Cap;
macro_rules! no { ($($f:ident($($a:ty),*);)*) => { $( fn $f(self, $(_: $a),*) -> Result<Self::Ok, VE> { Ok((false, 0, 0)) } )* } }
impl Serializer for Cap { type Ok = (bool, u32, u64); type Error = VE;
 type SerializeSeq = Impossible<Self::Ok, VE>; type SerializeTuple = Impossible<Self::Ok, VE>; type SerializeTupleStruct = Impossible<Self::Ok, VE>; type SerializeTupleVariant = Impossible<Self::Ok, VE>; type SerializeMap = Impossible<Self::Ok, VE>; type SerializeStruct = Impossible<Self::Ok, VE>; type SerializeStructVariant = Impossible<Self::Ok, VE>;
 fn serialize_u8(self, v: u8) -> Result<Self::Ok, VE> { Ok((false, 8, v as u64)) } fn serialize_u16(self, v: u16) -> Result<Self::Ok, VE> { Ok((false, 16, v as u64)) } fn serialize_u32(self, v: u32) -> Result<Self::Ok, VE> { Ok((false, 32, v as u64)) } fn serialize_u64(self, v: u64) -> Result<Self::Ok, VE> { Ok((false, 64, v)) }
 fn serialize_i8(self, v: i8) -> Result<Self::Ok, VE> { Ok((true, 8, v as i64 as u64)) } fn serialize_i16(self, v: i16) -> Result<Self::Ok, VE> { Ok((true, 16, v as i64 as u64)) } fn serialize_i32(self, v: i32) -> Result<Self::Ok, VE> { Ok((true, 32, v as i64 as u64)) } fn serialize_i64(self, v: i64) -> Result<Self::Ok, VE> { Ok((true, 64, v as u64)) }
 no! { serialize_bool(bool); serialize_f32(f32); serialize_f64(f64); serialize_char(char); serialize_str(&str); serialize_bytes(&[u8]); serialize_none(); serialize_unit(); serialize_unit_struct(&'static str); serialize_unit_variant(&'static str, u32, &'static str); }
 fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<Self::Ok, VE> { Ok((false, 0, 0)) }
 fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<Self::Ok, VE> { Ok((false, 0, 0)) }
 fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Self::Ok, VE> { Ok((false, 0, 0)) }
 fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, VE> { unreachable!() } fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, VE> { unreachable!() }
 fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, VE> { unreachable!() } fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, VE> { unreachable!() }
 fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, VE> { unreachable!() } fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, VE> { unreachable!() } fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, VE> { unreachable!() } }
"""

# ---------------------------------------------------------------- C05
def c05(res):
    txt, fns = "use packed_struct::types::*;\n", []
    for s in "ui":
        for b in (8, 16, 32, 64):
            T, n = f"{s}{b}", b // 8
            fns.append(f"v::native_{T}")
            txt += f"""pub fn native_{T}() {{
  let x: {T} = nd::any(); let c: [u8; {n}] = nd::any();
  let m = <{T} as IntegerAsBytes>::to_msb_bytes(&x); let l = <{T} as IntegerAsBytes>::to_lsb_bytes(&x);
  assert!({' && '.join(f'm[{i}] == ((x as u64) >> {8*(n-1-i)}) as u8' for i in range(n))}, "{T}: not big-endian");
  assert!({' && '.join(f'l[{i}] == ((x as u64) >> {8*i}) as u8' for i in range(n))}, "{T}: not little-endian");
  assert!(<{T} as IntegerAsBytes>::from_msb_bytes(&m) == x && <{T} as IntegerAsBytes>::from_lsb_bytes(&l) == x, "{T}: not inverse");
  let fm = <{T} as IntegerAsBytes>::from_msb_bytes(&c); let fl = <{T} as IntegerAsBytes>::from_lsb_bytes(&c);
  assert!(fm == ({' | '.join(f'((c[{i}] as u64) << {8*(n-1-i)})' for i in range(n))}) as {T}, "{T}: from_msb_bytes");
  assert!(fl == ({' | '.join(f'((c[{i}] as u64) << {8*i})' for i in range(n))}) as {T}, "{T}: from_lsb_bytes");
  assert!(<{T} as IntegerAsBytes>::to_msb_bytes(&fm) == c && <{T} as IntegerAsBytes>::to_lsb_bytes(&fl) == c, "{T}: not inverse");
}}
"""
    c = K.Crate("C05", "native"); c.add_mod("v", txt); groups(c, fns, 1)
    K.decide(c, res, "IntegerAsBytes of all eight native types, all values and byte arrays")
    res.functions += ["IntegerAsBytes::{to_msb_bytes,to_lsb_bytes,from_msb_bytes,from_lsb_bytes} for u8,i8,u16,i16,u32,i32,u64,i64"]

# ---------------------------------------------------------------- C06
def c06(res):
    txt, fns = "use packed_struct::types::*;\n", []
    for T, n in PAIRS:
        nb = NB(n); pad = 8*nb - n; I = f"Integer<{T}, Bits::<{n}>>"; M = L.ones(n)
        be = lambda a: "(" + " | ".join(f"(({a}[{i}] as u64) << {8*(nb-1-i)})" for i in range(nb)) + ")"
        le = lambda a: "(" + " | ".join(f"(({a}[{i}] as u64) << {8*i})" for i in range(nb)) + ")"
        keep = f"{M:#x}u64" if T[0] == 'i' else "!0u64"       # a negative value may leave its sign in the ignored leading bits
        for od in ("Msb", "Lsb"):
            f = f"{od.lower()}_{T}_{n}"; fns.append("v::" + f)
            W = L.wire_expr("(v as u64)", n, od == "Lsb")
            U = low(L.unwire_expr(be("c"), n, od == "Lsb"), n, T)
            ty = f"{od}Integer<{T}, Bits::<{n}>, {I}>"
            txt += f"""pub fn {f}() {{
  let x: {T} = nd::any(); let c: [u8; {nb}] = nd::any();
  let i: {I} = x.into(); let v: {T} = *i;
  let p = match i.as_packed_{od.lower()}().pack() {{ Ok(p) => p, Err(_) => panic!("pack failed") }};
  let p: [u8; {nb}] = p; let got = {be("p")};
  assert!(got & {keep} == {W}, "{od}Integer<{T}, {n}>: packed bits");
  match <{ty} as PackedStruct>::unpack(&p) {{ Ok(u) => assert!(**u == v, "{od}Integer<{T}, {n}>: unpack(pack)"), Err(_) => panic!("unpack failed") }}
  match <{ty} as PackedStruct>::unpack(&c) {{ Ok(u) => assert!(**u == {U}, "{od}Integer<{T}, {n}>: unpacked value depends on other bits"), Err(_) => panic!("unpack failed") }}
  assert!(<{ty} as PackedStructInfo>::packed_bits() == {n});
}}
"""
        f = f"raw_{T}_{n}"; fns.append("v::" + f)
        txt += f"""pub fn {f}() {{
  let x: {T} = nd::any(); let c: [u8; {nb}] = nd::any();
  let i: {I} = x.into(); let v = (*i as u64) & {M:#x};
  let m: [u8; {nb}] = match <{I} as SizedInteger<{T}, Bits::<{n}>>>::to_msb_bytes(&i) {{ Ok(b) => b, Err(_) => panic!("to_msb_bytes failed") }};
  let l: [u8; {nb}] = match <{I} as SizedInteger<{T}, Bits::<{n}>>>::to_lsb_bytes(&i) {{ Ok(b) => b, Err(_) => panic!("to_lsb_bytes failed") }};
  assert!({be("m")} & {keep} == v && {le("l")} & {keep} == v, "Integer<{T}, {n}> to bytes");
  match <{I} as SizedInteger<{T}, Bits::<{n}>>>::from_msb_bytes(&c) {{ Ok(u) => assert!(*u == {low(be("c"), n, T)}, "from_msb_bytes"), Err(_) => panic!() }}
  match <{I} as SizedInteger<{T}, Bits::<{n}>>>::from_lsb_bytes(&c) {{ Ok(u) => assert!(*u == {low(le("c"), n, T)}, "from_lsb_bytes"), Err(_) => panic!() }}
}}
"""
    c = K.Crate("C06", "partial"); c.add_mod("v", txt)
    for f in fns: c.cost[f] = 6 if "lsb" in f else 1
    fns.sort(key=lambda f: (f.split("_")[-1], f)); groups(c, fns, 12)
    K.decide(c, res, "MsbInteger/LsbInteger pack, unpack and SizedInteger byte conversions, all 128 (type, width) pairs")
    bitvec_contract(res)
    res.functions += ["MsbInteger::{pack,unpack,packed_bits}", "LsbInteger::{pack,unpack,packed_bits}", "SizedInteger::{to_msb_bytes,to_lsb_bytes,from_msb_bytes,from_lsb_bytes} (all 128 pairs each)"]

def bitvec_contract(res):
    """The assumed contract (shim) against the real crate: every byte count 1..8, split point and shift
    the library can ask for, on random contents."""
    d = fresh(os.path.join(BUILD, "C06", "bitvec")); os.makedirs(d + "/src")
    open(d + "/Cargo.toml", "w").write(f'[package]\nname = "bvc"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\nreal = {{ package = "bitvec", version = "1.0", default-features = false }}\nshim = {{ package = "bitvec", path = "{VERIF}/shim/bitvec" }}\n[profile.dev]\nopt-level = 1\n')
    lockfile(d)
    one = lambda k: f"""{{ use {k}::prelude::*; let mut b = src.to_vec(); {{ let bits = BitSlice::<_, Msb0>::try_from_slice_mut(&mut b[..]).map_err(|_| ()).unwrap(); let (left, right) = bits.split_at_mut(mid); match op {{ 0 => left.shift_right(s), 1 => left.shift_left(s), 2 => right.shift_right(s.min(right.len())), _ => right.shift_left(s.min(right.len())) }} }} b }}"""
    open(d + "/src/main.rs", "w").write(f"""fn main() {{ let mut r: u64 = {SEED}u64.wrapping_mul(0x9E3779B97F4A7C15) | 1; let mut rnd = move || {{ r ^= r << 13; r ^= r >> 7; r ^= r << 17; (r >> 24) as u8 }};
 let mut n = 0u64;
 for len in 1..=8usize {{ for mid in 0..=8*len {{ for s in 0..8usize {{ if s >= mid.max(1) || s >= (8*len - mid).max(1) && mid != 8*len && false {{ continue }} for op in 0..4 {{
   let room = if op < 2 {{ mid }} else {{ 8*len - mid }}; if s >= room {{ continue }}
   for t in 0..{q(6, 60)} {{ let src: Vec<u8> = (0..len).map(|_| match t {{ 0 => 0xff, 1 => 0, _ => rnd() }}).collect();
   let a: Vec<u8> = {one('real')}; let b: Vec<u8> = {one('shim')};
   n += 1; if a != b {{ println!("DIFF len={{len}} mid={{mid}} s={{s}} op={{op}} src={{src:?}} real={{a:?}} shim={{b:?}}"); std::process::exit(1) }} }} }} }} }} }}
 println!("COMPARED {{n}}"); }}""")
    rc, out, w = run(["cargo", "run", "--offline"], cwd=d, timeout=300)
    m = re.search(r"COMPARED (\d+)", out)
    res.backends.append({"backend": "native differential run (bounded)", "what": "assumed contract of bitvec's split_at_mut/shift_left/shift_right against the real crate, lengths 1..8, all split points, all shifts below 8", "evaluations": int(m.group(1)) if m else 0, "status": "agrees" if m else out[-400:]})
    if m: res.extra["bitvec_contract_comparisons"] = int(m.group(1))
    else: res.undecided.append("bitvec contract comparison did not finish: " + out[-300:])

# ---------------------------------------------------------------- C08
class E8:
    """An enumeration whose discriminants are given by rustc itself (`as i128`)."""
    def __init__(self, name, prim, variants, repr_=None): self.name, self.prim, self.vs, self.repr = name, prim, variants, repr_
    def decl(self):
        d = "PrimitiveEnum" + (f"_{self.prim}" if self.prim else "")
        r = f"#[repr({self.repr})] " if self.repr else ""
        return f"#[derive({d}, Clone, Copy, Debug, PartialEq)] {r}pub enum {self.name} {{ {', '.join(n + (' = ' + t if t else '') for n, t, v in self.vs)} }}\n"
    def check(self, fn):
        N = self.name
        arms = "".join(f"{v} => Some({N}::{n}), " for n, t, v in self.vs)
        return f"""pub fn {fn}() {{
  type P = <{N} as PrimitiveEnum>::Primitive;
  let x: P = nd::any(); let want: Option<{N}> = match x as i128 {{ {arms}_ => None }};
  assert!({N}::from_primitive(x) == want, "{N}::from_primitive");
  let k: u8 = nd::any(); let e = match k {{ {''.join(f'{i} => {N}::{n}, ' for i, (n, t, v) in enumerate(self.vs[:-1]))}_ => {N}::{self.vs[-1][0]} }};
  assert!(e.to_primitive() as i128 == e as i128, "{N}::to_primitive is not the discriminant");
  assert!({N}::from_primitive(e.to_primitive()) == Some(e), "{N}: number of a variant does not lead back");
}}
"""

def lit(v, rng):
    a = abs(v)
    s = rng.choice([str(a), str(a), f"{a:#x}", f"{a:#b}" if a < 1 << 20 else str(a), f"{a:#o}", f"{a:_}"])
    return ("-" if v < 0 else "") + s

def enums8(rng, count):
    out = []
    def add(prim, vals, repr_=None):
        """vals: list of value or None (implicit)"""
        vs, prev = [], -1
        for i, v in enumerate(vals):
            if isinstance(v, tuple): t, v = v
            elif v is None: t, v = None, prev + 1
            else: t = lit(v, rng)
            vs.append((f"V{i}", t, v)); prev = v
        assert len({v for _, _, v in vs}) == len(vs), vals
        out.append(E8(f"N{len(out)}", prim, vs, repr_))
    R = None
    # implicit backing type: boundaries of every candidate
    for vals in [[R], [R, R, R], [5, R, R], [255], [256], [65535], [65536], [0xFFFFFFFF], [0x100000000], [254, R], [255, R], [65535, R], [0xFFFFFFFF, R],
                 [-1], [-1, R], [-2, R, R, R], [-128], [-129], [-128, 127], [-129, 200], [-32768], [-32769], [-32769, 40000], [-2147483648], [-2147483649],
                 [-0x8000000000000000, R], [0x7FFFFFFFFFFFFFFF], [-0x8000000000000000, 0x7FFFFFFFFFFFFFFF], [("-0", 0), R], [3, ("-0", 0), R, R], [-1, ("-0", 0), R], [10, 5, R, 0], [-5, R, 3, R, -10, R],
                 [R, 100, R, 7, R, 255], [-3, R, R, R, R], [-300, R, 299, R], [0x7FFFFFFE, R], [0, -1, 1, -2, 2], [-1, 127], [-1000, R, 32767],
                 [-70000, R, 2147483647], [-2147483649, R, 0x7FFFFFFFFFFFFFFF], [("0x_ff", 255)], [("1_0", 10), R], [("0b1000_0000", 128), R, R]]:
        add(None, vals)
    add(None, list(range(0, 64)))
    add(None, [7] + [None] * 40)
    # suffixed (the suffix names the type)
    for sfx, v in [("u8", 200), ("i8", -100), ("u16", 3), ("i16", -3), ("u32", 0x80000000), ("i32", -5), ("u64", 0xFFFFFFFFFFFFFFFF), ("i64", -0x8000000000000000), ("i64", 5)]:
        t = f"{v}{sfx}" if v >= 0 else f"-{-v}{sfx}"
        add(None, [(t, v), *([R] if v < 0xFFFFFFFFFFFFFFFF else [])], sfx)
    # named backing types: extremes, whole-range values, mixed order
    for s in "ui":
        for b in (8, 16, 32, 64):
            lo, hi = (0, (1 << b) - 1) if s == "u" else (-(1 << (b-1)), (1 << (b-1)) - 1)
            rp = f"{s}{b}" if hi > 0x7FFFFFFFFFFFFFFF else None
            add(f"{s}{b}", [lo, R, hi], rp); add(f"{s}{b}", [hi, lo, R, R], rp); add(f"{s}{b}", [hi - 1, R, 1 if s == "u" else -1, R], rp)
            for _ in range(count):
                n = rng.randint(1, 9); vals, used, prev = [], set(), -1
                while len(vals) < n:
                    if rng.random() < .4:
                        v = prev + 1
                        if v > hi or v in used or v < lo: continue
                        vals.append(None)
                    else:
                        v = rng.choice([rng.randint(lo, hi), rng.randint(max(lo, -300), min(hi, 300)), rng.randint(max(lo, -4), 4), lo, hi])
                        if v in used: continue
                        vals.append(v)
                    used.add(v); prev = v
                vals2, prev = [], -1
                add(f"{s}{b}", vals, rp)
    return out

def c08(res):
    rng = random.Random(SEED * 271 + 8)
    es = enums8(rng, q(4, 25))
    c = K.Crate("C08", "enums"); per = 10
    idx = {}
    for i in range(0, len(es), per):
        m = f"e{i//per}"; t = ""; fns = []
        for e in es[i:i+per]:
            t += e.decl() + e.check("num_" + e.name); fns.append(f"{m}::num_{e.name}"); idx[f"{m}_num_{e.name}"] = e
        c.add_mod(m, t); c.add_harness("h_" + m, fns)
    K.decide(c, res, "enumeration numbers, whole backing domain", describe=lambda f: "declaration: " + idx[f].decl() if f in idx else "")
    # names that look alike must not collide (multiple enumerations per module)
    res.functions += [f"PrimitiveEnum::{{from_primitive,to_primitive}} generated for {len(es)} enumerations"]

# ---------------------------------------------------------------- C09
def c09(res):
    c = K.Crate("C09", "catchall"); c.add_mod("en", ENUM_DECLS)
    txt, fns = USE_ENUMS, []
    for e in L.ENUMS.values():
        N, T = e.name, e.prim
        fns.append(f"v::ca_{N}")
        txt += f"""pub fn num_{N}(x: EnumCatchAll<{N}>) -> {T} {{ match x {{ EnumCatchAll::Enum(e) => disc_{N}(e), EnumCatchAll::CatchAll(v) => v }} }}
pub fn ca_{N}() {{
  let v: {T} = nd::any(); let w: {T} = nd::any();
  let x = match EnumCatchAll::<{N}>::from_primitive(v) {{ Some(x) => x, None => panic!("EnumCatchAll<{N}> refused a number") }};
  assert!(x.to_primitive() == v, "EnumCatchAll<{N}>: number lost");
  match x {{ EnumCatchAll::Enum(e) => assert!(has_{N}(v) && disc_{N}(e) == v, "EnumCatchAll<{N}>: wrong variant"), EnumCatchAll::CatchAll(o) => assert!(!has_{N}(v) && o == v, "EnumCatchAll<{N}>: known number not matched") }}
  // any two wrapped values, however they were made
  let a: EnumCatchAll<{N}> = if nd::any() {{ EnumCatchAll::CatchAll(v) }} else {{ EnumCatchAll::Enum(any_{N}()) }};
  let b: EnumCatchAll<{N}> = if nd::any() {{ EnumCatchAll::CatchAll(w) }} else {{ EnumCatchAll::from(any_{N}()) }};
  assert!(a.to_primitive() == num_{N}(a), "EnumCatchAll<{N}>::to_primitive");
  assert!((a == b) == (num_{N}(a) == num_{N}(b)) && (a != b) == (num_{N}(a) != num_{N}(b)), "EnumCatchAll<{N}>: equality is not that of the numbers");
  let e = any_{N}(); match EnumCatchAll::from_enum(e) {{ EnumCatchAll::Enum(f) => assert!(f == e), _ => panic!("from_enum") }} match EnumCatchAll::<{N}>::from(e) {{ EnumCatchAll::Enum(f) => assert!(f == e), _ => panic!("From") }}
}}
"""
    c.add_mod("v", txt); groups(c, fns, 2)
    K.decide(c, res, "EnumCatchAll over nine enumerations, every backing number")
    rng = random.Random(SEED * 53 + 9)
    st = [L.dense(f"K{i}", rng, rng.choice([1, 2, 3, 4, 6, 9]), kinds=("catch", "catch", "int")) for i in range(q(12, 60))]
    i = 0
    for e in L.ENUMS.values():
        for w in {8: (3, 5, 8), 16: (10, 13, 16), 32: (18, 25, 32), 64: (34, 51, 64)}[e.bits]:
            i += 1; off = rng.randint(0, 9)
            st.append(L.mk(f"KE{i}", [(L.Enum(e.name, w, i % 2 == 0, True), off)], (off + w + 7) // 8, rng, lsb0=i % 3 == 0, default=rng.choice([None, False, True])))
    c, d = crate_of("C09", "fields", st, ["unpack", "round"], group=3)
    K.decide(c, res, "structures holding catch-all fields: every bit pattern survives", describe=d)
    res.functions += ["EnumCatchAll<E>::{from_primitive,to_primitive,eq,from_enum,From<E>}", "derive output for catch-all fields"]

# ---------------------------------------------------------------- C10
FAIL = """#[derive(Clone, Copy, Debug, PartialEq)] pub struct Ticky(pub u8);
impl PackedStruct for Ticky { type ByteArray = [u8; 3]; fn pack(&self) -> Result<[u8; 3], PackingError> { if self.0 == 7 { Err(PackingError::BitsError) } else { Ok([1, self.0, 3]) } } fn unpack(s: &[u8; 3]) -> Result<Self, PackingError> { if s[0] != 1 || s[2] != 3 { Err(PackingError::InternalError) } else { Ok(Ticky(s[1])) } } }
pub fn any_Ticky() -> Ticky { Ticky(nd::any()) }
"""
def c10(res):
    fails = V.check("C10", res, VU.generic, "slices over every PackedStruct type")
    c10_standins(res)
    V.report(res, fails)
def c10_standins(res):
    rng = random.Random(SEED * 17 + 10)
    ss = [L.dense(f"D{i}", rng, n, kinds=("int", "bool", "enum", "catch", "res")) for i, n in enumerate([1, 2, 3, 5, 9])]
    txt = USE_ENUMS + FAIL + "\n".join(s.decl() for s in ss) + "\n"
    T = [("u8", 1, "nd::any::<u8>()"), ("i8", 1, "nd::any::<i8>()"), ("bool", 1, "nd::any::<bool>()"), ("()", 0, "()"), ("[u8; 0]", 0, "[]"), ("[u8; 1]", 1, "nd::any::<[u8; 1]>()"), ("[u8; 5]", 5, "nd::any::<[u8; 5]>()"),
         ("ReservedZero<Bits::<11>>", 2, "Default::default()"), ("ReservedOne<Bits::<24>>", 3, "Default::default()"), ("Ticky", 3, "any_Ticky()")]
    for p, n in [("u16", 13), ("i32", 24), ("u64", 64), ("u8", 3), ("i64", 41)]:
        for o in ("Msb", "Lsb"):
            T.append((f"{o}Integer<{p}, Bits::<{n}>, Integer<{p}, Bits::<{n}>>>", NB(n), f"Integer::<{p}, Bits::<{n}>>::from(nd::any::<{p}>()).into()"))
    for s in ss:
        ls = [l for l in s.leaves() if not l[2].reserved]
        T.append((s.name, s.nbytes, "{ " + " ".join(l[2].any(l[1], False) for l in ls) + " " + s.init() + " }"))
    c = K.Crate("C10", "slices"); c.add_mod("en", ENUM_DECLS); c.add_mod("tt", txt)
    idx = {}
    for k, (t, n, mk) in enumerate(T):
        m = f"t{k}"; body = USE_ENUMS + "use crate::tt::*;\n"; fns = []
        lens = sorted({x for x in (0, 1, n-2, n-1, n, n+1, n+2, n+3, 2*n) if x >= 0})
        body += "fn mode(e: &PackingError) -> u8 { match e { PackingError::InvalidValue => 1, PackingError::BitsError => 2, PackingError::InternalError => 3, PackingError::BufferSizeMismatch { .. } => 4, _ => 5 } }\n"
        for l in lens:
            f = f"len{l}"; fns.append(f"{m}::{f}"); idx[f"{m}_{f}"] = f"{t}, packed size {n}, slice length {l}"
            if l != n:
                body += f"""pub fn {f}() {{
  let before: [u8; {l}] = nd::any(); let mut b = before;
  match <{t} as PackedStructSlice>::unpack_from_slice(&before[..]) {{ Err(PackingError::BufferSizeMismatch {{ expected: {n}, actual: {l} }}) => (), _ => panic!("{t}: unpack from {l} bytes") }}
  let v: {t} = {mk};
  match v.pack_to_slice(&mut b[..]) {{ Err(PackingError::BufferSizeMismatch {{ expected: {n}, actual: {l} }}) => (), _ => panic!("{t}: pack into {l} bytes") }}
  assert!(b == before, "{t}: refused pack wrote to the output");
}}
"""
            else:
                body += f"""pub fn {f}() {{
  let before: [u8; {l}] = nd::any(); let mut b = before;
  let v: {t} = {mk};
  match (v.pack(), v.pack_to_slice(&mut b[..])) {{ (Ok(p), Ok(())) => assert!(p == b, "{t}: slice form differs from array form"), (Err(e), Err(g)) => assert!(b == before && mode(&e) == mode(&g) && mode(&e) < 4, "{t}: failed pack"), _ => panic!("{t}: slice and array form disagree") }}
  match (<{t} as PackedStruct>::unpack(&before), <{t} as PackedStructSlice>::unpack_from_slice(&before[..])) {{ (Ok(p), Ok(r)) => assert!(match (p.pack(), r.pack()) {{ (Ok(a), Ok(b)) => a == b, (Err(_), Err(_)) => true, _ => false }}, "{t}: unpack_from_slice differs from unpack"), (Err(e), Err(g)) => assert!(mode(&e) == mode(&g) && mode(&e) < 4), _ => panic!("{t}: unpack forms disagree") }}
  match <{t} as PackedStructSlice>::packed_bytes_size(None) {{ Ok({n}) => (), _ => panic!("{t}: packed_bytes_size(None)") }}
  match <{t} as PackedStructSlice>::packed_bytes_size(Some(&v)) {{ Ok({n}) => (), _ => panic!("{t}: packed_bytes_size(Some)") }}
  match (v.pack(), v.pack_to_vec()) {{ (Ok(p), Ok(w)) => assert!(w.len() == {n} && w[..] == p[..], "{t}: pack_to_vec"), (Err(_), Err(_)) => (), _ => panic!("{t}: pack_to_vec") }}
}}
"""
        c.add_mod(m, body)
        if t == "Ticky": c.native_only += fns       # failing packs inside Vec: the unwinding of the allocation is beyond CBMC; proved generically by Verus
        else: c.add_harness("h_" + m, fns)
    K.decide(c, res, f"slice form of {len(T)} types at lengths around and at the packed size, every content", describe=lambda f: idx.get(f, ""))
    res.functions += ["PackedStructSlice::{pack_to_slice,unpack_from_slice,packed_bytes_size,pack_to_vec} blanket implementation, at %d types" % len(T)]

# ---------------------------------------------------------------- C11
ITEMS = """#[derive(Clone, Copy, Debug, PartialEq)] pub struct Pair(pub u8);
impl PackedStruct for Pair { type ByteArray = [u8; 2]; fn pack(&self) -> Result<[u8; 2], PackingError> { if self.0 == 9 { Err(PackingError::BitsError) } else { Ok([self.0, !self.0]) } } fn unpack(s: &[u8; 2]) -> Result<Self, PackingError> { if s[1] != !s[0] { Err(PackingError::InternalError) } else { Ok(Pair(s[0])) } } }
#[derive(PackedStruct, Clone, Debug, PartialEq)] #[packed_struct(bit_numbering="msb0")] pub struct Small { #[packed_field(bits="0..=2")] pub a: Integer<u8, packed_bits::Bits::<3>>, #[packed_field(bits="3..=15", endian="lsb")] pub b: Integer<i16, packed_bits::Bits::<13>>, #[packed_field(bits="16")] pub c: bool, #[packed_field(bits="17..=23")] pub d: Integer<u8, packed_bits::Bits::<7>> }
"""
def c11(res):
    fails = V.check("C11", res, VU.vec, "Vec<T>, every item type meeting the slice contract, every length")
    c11_standins(res)
    V.report(res, fails)
def c11_standins(res):
    # (type, size, generator of one value named v{k}, expression of packed byte j of value v, validity of bytes at offset o)
    T = [("u8", 1, "nd::any::<u8>()", lambda v, j: f"{v}", None, None),
         ("bool", 1, "nd::any::<bool>()", lambda v, j: f"({v} as u8)", lambda o: f"(b[{o}] <= 1)", "InvalidValue"),
         ("[u8; 3]", 3, "nd::any::<[u8; 3]>()", lambda v, j: f"{v}[{j}]", None, None),
         ("Pair", 2, "{ let x: u8 = nd::any(); nd::assume(x != 9); Pair(x) }", lambda v, j: f"{v}.0" if j == 0 else f"!{v}.0", lambda o: f"(b[{o}+1] == !b[{o}])", "InternalError"),
         ("Small", 3, "Small { a: nd::any::<u8>().into(), b: nd::any::<i16>().into(), c: nd::any(), d: nd::any::<u8>().into() }",
          lambda v, j: [f"((*{v}.a << 5) | ((*{v}.b as u8) >> 3))", f"((((*{v}.b as u8) & 7) << 5) | (((*{v}.b as u16) >> 8) as u8 & 0x1f))", f"((({v}.c as u8) << 7) | *{v}.d)"][j], None, None)]
    c = K.Crate("C11", "vec"); c.add_mod("tt", ITEMS); idx = {}
    for ti, (t, sz, gen, byte, ok, err) in enumerate(T):
        for n in list(range(0, 6)) + [17]:
            m = f"t{ti}_{n}"; body = "use crate::tt::*;\n"; fns = []
            gens = "".join(f"  let v{k}: {t} = {gen};\n" for k in range(n))
            exp = ", ".join(byte(f"v{k}", j) for k in range(n) for j in range(sz))
            L_ = n * sz
            f = "pack"; fns.append(f"{m}::{f}"); idx[f"{m}_{f}"] = f"Vec<{t}> of {n} items"
            body += f"""pub fn {f}() {{
{gens}  let want: [u8; {L_}] = [{exp}]; let v: Vec<{t}> = vec![{', '.join(f'v{k}.clone()' for k in range(n))}];
  match v.packed_bytes_size_() {{ Ok({L_}) => (), _ => panic!("Vec<{t}>: size of {n} items") }}
  let mut o: [u8; {L_}] = nd::any();
  match v.pack_to_slice(&mut o[..]) {{ Ok(()) => assert!(o == want, "Vec<{t}>: items not packed in order"), Err(_) => panic!("Vec<{t}>: pack failed") }}
  match Vec::<{t}>::unpack_from_slice(&o[..]) {{ Ok(w) => assert!(w.len() == {n if sz else 0} && w == v, "Vec<{t}>: unpack(pack)"), Err(_) => panic!("Vec<{t}>: unpack failed") }}
  match v.pack_to_vec() {{ Ok(p) => assert!(p[..] == want[..], "Vec<{t}>::pack_to_vec"), Err(_) => panic!() }}
"""
            for d in {1, 2, sz} if n < 3 else {1}:
                body += f"""  {{ let before: [u8; {L_ + d}] = nd::any(); let mut o = before; match v.pack_to_slice(&mut o[..]) {{ Err(PackingError::BufferSizeMismatch {{ expected: {L_}, actual: {L_ + d} }}) => assert!(o == before, "refused pack wrote"), _ => panic!("Vec<{t}>: pack into {L_ + d} bytes") }} }}
"""
                if L_ - d >= 0: body += f"""  {{ let before: [u8; {L_ - d}] = nd::any(); let mut o = before; match v.pack_to_slice(&mut o[..]) {{ Err(PackingError::BufferSizeMismatch {{ expected: {L_}, actual: {L_ - d} }}) => assert!(o == before, "refused pack wrote"), _ => panic!("Vec<{t}>: pack into {L_ - d} bytes") }} }}
"""
            body += "}\n"
            body += f"trait Sz {{ fn packed_bytes_size_(&self) -> Result<usize, PackingError>; }} impl Sz for Vec<{t}> {{ fn packed_bytes_size_(&self) -> Result<usize, PackingError> {{ <Vec<{t}> as PackedStructSlice>::packed_bytes_size(Some(self)) }} }}\n"
            f = "unpack"; fns.append(f"{m}::{f}"); idx[f"{m}_{f}"] = f"Vec<{t}> from {L_} bytes"
            body += f"""pub fn {f}() {{
  let b: [u8; {L_}] = nd::any(); let valid = {' && '.join(ok(k * sz) for k in range(n)) if ok and n else 'true'};
  match Vec::<{t}>::unpack_from_slice(&b[..]) {{ Ok(w) => {{ assert!(valid, "Vec<{t}>: bad item accepted"); assert!(w.len() == {n}, "Vec<{t}>: item count");
    {' '.join(f'match <{t} as PackedStruct>::unpack(&[' + ', '.join(f'b[{k*sz+j}]' for j in range(sz)) + f']) {{ Ok(i) => assert!(w[{k}] == i, "Vec<{t}>: item {k} not from its own bytes"), Err(_) => panic!() }}' for k in range(n))} }},
    Err(e) => assert!(!valid && matches!(e, PackingError::{err or 'InvalidValue'}), "Vec<{t}>: valid items refused or wrong error") }}
  match Vec::<{t}>::packed_bytes_size(None) {{ Err(PackingError::InstanceRequiredForSize) => (), _ => panic!("Vec size without instance") }}
}}
"""
            for r in range(1, sz):
                f = f"mod{r}"; fns.append(f"{m}::{f}"); idx[f"{m}_{f}"] = f"Vec<{t}> from {L_ + r} bytes"
                body += f"""pub fn {f}() {{ let b: [u8; {L_ + r}] = nd::any(); match Vec::<{t}>::unpack_from_slice(&b[..]) {{ Err(PackingError::BufferModMismatch {{ actual_size: {L_ + r}, modulo_required: {sz} }}) => (), _ => panic!("Vec<{t}>: {L_ + r} bytes accepted or wrong error") }} }}
"""
            c.add_mod(m, body)
            if ok or n > q(2, 3): c.native_only += fns     # items that can fail, longer vectors: natively; the unbounded argument is the Verus proof
            else: c.add_harness("h_" + m, fns)
    body = """use crate::tt::*;
pub fn fails() { let a: u8 = nd::any(); nd::assume(a != 9); let v = vec![Pair(a), Pair(9)]; let mut o = [0u8; 4]; match v.pack_to_slice(&mut o[..]) { Err(PackingError::BitsError) => (), _ => panic!("item error not propagated") } match v.pack_to_vec() { Err(PackingError::BitsError) => (), _ => panic!("item error not propagated") } }
pub fn unit() { let v = vec![(), ()]; let mut o: [u8; 0] = []; match v.pack_to_slice(&mut o[..]) { Ok(()) => (), _ => panic!("units") } match Vec::<()>::packed_bytes_size(Some(&v)) { Ok(0) => (), _ => panic!() } }
pub fn nested_vec() { let b: [u8; 4] = nd::any(); match Vec::<Vec<u8>>::unpack_from_slice(&b[..]) { Err(PackingError::InstanceRequiredForSize) => (), _ => panic!("vector of dynamic items") } }
"""
    body += """fn many<T: PackedStruct + PackedStructSlice + PartialEq + Clone>(sz: usize, make: &dyn Fn(&[u8]) -> T) {
  let n: u16 = nd::any(); let n = (n % 700) as usize; let seed: u32 = nd::any();
  let b: Vec<u8> = (0..n * sz).map(|i| (seed.wrapping_mul(2654435761).wrapping_add((i as u32).wrapping_mul(40503)) >> 11) as u8).collect();
  let w = match Vec::<T>::unpack_from_slice(&b[..]) { Ok(w) => w, Err(_) => panic!("{} items refused", n) }; assert!(w.len() == n, "{} items instead of {}", w.len(), n);
  for k in 0..n { assert!(w[k] == make(&b[k * sz..(k + 1) * sz]), "item {} of {} not from its own bytes", k, n); }
  let v: Vec<T> = (0..n).map(|k| make(&b[k * sz..(k + 1) * sz])).collect(); match Vec::<T>::packed_bytes_size(Some(&v)) { Ok(l) if l == n * sz => (), _ => panic!("size of {} items", n) }
  let mut o = vec![0u8; n * sz]; match v.pack_to_slice(&mut o[..]) { Ok(()) => assert!(o == b, "{} items not packed in order", n), Err(_) => panic!("pack of {} items", n) } match v.pack_to_vec() { Ok(p) => assert!(p == b, "{} items: pack_to_vec", n), Err(_) => panic!() }
  if n > 0 && sz > 1 { match Vec::<T>::unpack_from_slice(&b[1..]) { Err(PackingError::BufferModMismatch { actual_size, modulo_required }) if actual_size == n * sz - 1 && modulo_required == sz => (), _ => panic!("{} bytes", n * sz - 1) } }
  let mut o = vec![7u8; n * sz + 1]; match v.pack_to_slice(&mut o[..]) { Err(PackingError::BufferSizeMismatch { expected, actual }) if expected == n * sz && actual == n * sz + 1 => assert!(o.iter().all(|x| *x == 7)), _ => panic!("pack of {} items into {} bytes", n, n * sz + 1) } }
pub fn long_u8() { many::<u8>(1, &|s| s[0]) } pub fn long_arr() { many::<[u8; 3]>(3, &|s| [s[0], s[1], s[2]]) } pub fn long_small() { many::<[u8; 7]>(7, &|s| { let mut a = [0; 7]; a.copy_from_slice(s); a }) }
"""
    c.add_mod("x", body); c.native_only += ["x::fails", "x::unit", "x::nested_vec", "x::long_u8", "x::long_arr", "x::long_small"]
    K.decide(c, res, "Vec<T>, five item types, up to %d items under Kani, up to 699 natively" % q(2, 3), describe=lambda f: idx.get(f, ""), native_only_iters=q(400, 4000))
    res.functions += ["Vec<T>::{pack_to_slice,unpack_from_slice,packed_bytes_size,pack_to_vec}"]

# ---------------------------------------------------------------- C12
def tuple_units(prop, res, arities, size_only=False):
    """the tuple implementations, as macro expansion leaves them"""
    try: ef = VU.module(VU.File(NT.expanded(prop)), "types_tuples")
    except Lost as e: res.undecided.append(f"Verus (tuples): {e}"); return []
    return V.check_many(prop, res, [(lambda n=n: VU.tuple_impl(n, ef, size_only), f"tuples of {n}: " + ("size" if size_only else "pack, unpack, size, round trip")) for n in reversed(arities)], rlimit=150)
def c12(res):
    fails = V.check("C12", res, VU.tuples, "the plan of a tuple: which bytes each member takes")
    fails += tuple_units("C12", res, range(1, 11))
    c12_standins(res)
    V.report(res, fails)
def c12_standins(res):
    M = [("u8", 1, "nd::any::<u8>()", lambda v: [v], None), ("[u8; 2]", 2, "nd::any::<[u8; 2]>()", lambda v: [f"{v}[0]", f"{v}[1]"], None),
         ("bool", 1, "nd::any::<bool>()", lambda v: [f"({v} as u8)"], lambda o: f"(b[{o}] <= 1)"), ("()", 0, "()", lambda v: [], None),
         ("i8", 1, "nd::any::<i8>()", lambda v: [f"({v} as u8)"], None), ("[u8; 3]", 3, "nd::any::<[u8; 3]>()", lambda v: [f"{v}[{i}]" for i in range(3)], None)]
    rng = random.Random(SEED * 71 + 12)
    c = K.Crate("C12", "tuples"); idx = {}; mods = {}
    def tup(key, members, dyn_len=None, dyn=None):
        """members: list of M entries or 'D' (the dynamic member, dyn_len bytes)"""
        def mk(i, m): return ("Vec<u8>", dyn_len, None, None, None) if m == 'D' else m
        ms = [mk(i, m) for i, m in enumerate(members)]
        ty = "(" + ", ".join(m[0] for m in ms) + ",)"
        tot = sum(m[1] for m in ms); st = tot - (dyn_len or 0)
        gens, exp, parts, o, valid = "", [], [], 0, []
        un = []
        for i, m in enumerate(ms):
            if members[i] == 'D':
                gens += f"  let m{i}: [u8; {dyn_len}] = nd::any();\n"; parts.append(f"m{i}.to_vec()"); exp += [f"m{i}[{j}]" for j in range(dyn_len)]
                un.append(f"w.{i}.len() == {dyn_len}" + "".join(f" && w.{i}[{j}] == b[{o+j}]" for j in range(dyn_len)))
            else:
                gens += f"  let m{i}: {m[0]} = {m[2]};\n"; parts.append(f"m{i}"); e = m[3](f"m{i}"); exp += e
                if m[4]: valid.append(m[4](o))
                if m[1]: un.append(" && ".join(f"{a} == b[{o+j}]" for j, a in enumerate(m[3](f"w.{i}"))))
            o += m[1]
        hasdyn = 'D' in members
        body = f"""pub type T = {ty};
pub fn pack() {{
{gens}  let v: T = ({', '.join(parts)},); let want: [u8; {tot}] = [{', '.join(exp)}]; let mut o: [u8; {tot}] = nd::any();
  match <T as PackedStructSlice>::packed_bytes_size(Some(&v)) {{ Ok({tot}) => (), _ => panic!("{ty}: size") }}
  match v.pack_to_slice(&mut o[..]) {{ Ok(()) => assert!(o == want, "{ty}: members not packed in order"), Err(_) => panic!("{ty}: pack failed") }}
  match T::unpack_from_slice(&o[..]) {{ Ok(w) => assert!(w == v, "{ty}: unpack(pack)"), Err(_) => panic!("{ty}: unpack failed") }}
  {{ let before: [u8; {tot+1}] = nd::any(); let mut o = before; match v.pack_to_slice(&mut o[..]) {{ Err(_) => assert!({'true' if hasdyn else 'o == before'}), Ok(_) => panic!("{ty}: pack into {tot+1} bytes") }} }}
""" + (f"""  {{ let before: [u8; {tot-1}] = nd::any(); let mut o = before; match v.pack_to_slice(&mut o[..]) {{ Err(_) => assert!({'true' if hasdyn else 'o == before'}), Ok(_) => panic!("{ty}: pack into {tot-1} bytes") }} }}
""" if tot >= 1 else "") + f"""}}
pub fn unpack() {{
  let b: [u8; {tot}] = nd::any(); let valid = {' && '.join(valid) or 'true'};
  match T::unpack_from_slice(&b[..]) {{ Ok(w) => {{ assert!(valid); assert!({' && '.join(un) or 'true'}, "{ty}: member not from its own bytes"); }}, Err(e) => assert!(!valid && matches!(e, PackingError::InvalidValue), "{ty}: refused") }}
  match <T as PackedStructSlice>::packed_bytes_size(None) {{ {'Err(PackingError::InstanceRequiredForSize)' if hasdyn else f'Ok({tot})'} => (), _ => panic!("{ty}: static size") }}
"""
        short = [l for l in {st - 1, 0, st - 2} if 0 <= l < st]
        long_ = [] if hasdyn else [tot + 1, tot + 2]
        for l in short + long_:
            body += f"""  {{ let b: [u8; {l}] = nd::any(); match T::unpack_from_slice(&b[..]) {{ Err(PackingError::BufferSizeMismatch {{ expected: {st}, actual: {l} }}) => (), _ => panic!("{ty}: {l} bytes") }} }}
"""
        body += "}\n"
        mods.setdefault(key, []).append((body, ty))
    for a in range(1, 11):
        for rep in range(q(1, 3)):
            ms = [rng.choice(M) for _ in range(a)]
            if sum(m[1] for m in ms) == 0: ms[0] = M[1]
            tup(f"a{a}", ms)
        for p in range(a):
            ms = [rng.choice(M[:3] + M[4:]) for _ in range(a)]; ms[p] = 'D'
            tup(f"a{a}", ms, (a + p + rep) % 4)
    for key, bodies in mods.items():
        fns = []
        t = ""
        for i, (b, ty) in enumerate(bodies):
            t += f"pub mod s{i} {{ {USES_IN}\n{b} }}\n"; fns += [f"{key}::s{i}::pack", f"{key}::s{i}::unpack"]
            for z in ("pack", "unpack"): idx[f"{key}_s{i}_{z}"] = ty
        c.add_mod(key, t)
        for i in range(0, len(fns), 2):
            ty = bodies[i // 2][1]
            if "Vec" in ty or "bool" in ty or ty.count(",") > q(3, 5): c.native_only += fns[i:i+2]
            else: c.add_harness(f"h_{key}_{i}", fns[i:i+2])
    two = """pub fn two() { let b: [u8; 4] = nd::any(); type T = (u8, Vec<u8>, Vec<u8>);
  match T::unpack_from_slice(&b[..]) { Err(PackingError::MoreThanOneDynamicType) => (), _ => panic!("two dynamic members accepted by unpack") } }
pub fn two_b() { let b: [u8; 3] = nd::any(); type T = (Vec<u8>, bool, u8, Vec<bool>); match T::unpack_from_slice(&b[..]) { Err(PackingError::MoreThanOneDynamicType) => (), _ => panic!("two dynamic members accepted by unpack") } match <T as PackedStructSlice>::packed_bytes_size(None) { Err(PackingError::InstanceRequiredForSize) => (), _ => panic!() } }
pub fn inner() { let b: [u8; 6] = nd::any(); type T = (u8, Vec<[u8; 2]>, u8); match T::unpack_from_slice(&b[..]) { Ok(w) => assert!(w.0 == b[0] && w.1.len() == 2 && w.1[0] == [b[1], b[2]] && w.1[1] == [b[3], b[4]] && w.2 == b[5]), Err(_) => panic!() } let b: [u8; 5] = nd::any(); match T::unpack_from_slice(&b[..]) { Err(PackingError::BufferModMismatch { actual_size: 3, modulo_required: 2 }) => (), _ => panic!("indivisible rest accepted") } }
pub fn nested() { let b: [u8; 6] = nd::any(); type T = ((u8, [u8; 2]), u8, (u8, Vec<u8>)); match T::unpack_from_slice(&b[..]) { Ok(w) => { assert!(w.0 .0 == b[0] && w.0 .1 == [b[1], b[2]] && w.1 == b[3] && w.2 .0 == b[4] && w.2 .1.len() == 1 && w.2 .1[0] == b[5]); let mut o = [0u8; 6]; match w.pack_to_slice(&mut o[..]) { Ok(()) => assert!(o == b), Err(_) => panic!() } }, Err(_) => panic!() } let b: [u8; 4] = nd::any(); match T::unpack_from_slice(&b[..]) { Err(PackingError::BufferSizeMismatch { .. }) => (), _ => panic!("too short") } }
pub fn err() { let b: [u8; 3] = nd::any(); type T = (u8, bool, u8); match T::unpack_from_slice(&b[..]) { Ok(w) => assert!(b[1] <= 1 && w.0 == b[0] && w.2 == b[2]), Err(e) => assert!(b[1] > 1 && matches!(e, PackingError::InvalidValue)) } }
"""
    # every buffer length around the static size; none, one or several dynamic members of differing item sizes
    D = [("Vec<u8>", 1), ("Vec<[u8; 2]>", 2), ("Vec<[u8; 3]>", 3), ("Vec<(u8, [u8; 3])>", 4)]
    shapes = [[D[0], D[0]], [D[1], D[0]], [M[0], D[1], D[2]], [D[0], M[1], D[0]], [D[3], D[3], D[3]], [D[1], M[3], D[1], M[0]], [M[3], D[0], M[3]], [D[2], M[0]], [M[1], D[3], M[0]]]
    for _ in range(q(14, 60)):
        a = rng.randint(1, 10); ms = [rng.choice([M[0], M[1], M[3], M[4], M[5]]) for _ in range(a)]
        for i in range(rng.choice([0, 1, 1, 1, 2, 3])): ms[rng.randrange(a)] = rng.choice(D)
        shapes.append(ms)
    t = ""
    for k, ms in enumerate(shapes):
        ty = "(" + ", ".join(m[0] for m in ms) + ",)"; dy = [m for m in ms if m in D]; st = sum(m[1] for m in ms if m not in D); it = dy[0][1] if dy else 1
        cmp_, o = "", "0"
        for i, m in enumerate(ms):
            n = "r" if m in D else str(m[1])
            cmp_ += f"      assert!(<{m[0]} as PackedStructSlice>::unpack_from_slice(&b[o..o+{n}]) == Ok(w.{i}.clone()), \"{ty}: member {i} of a {{l}} byte buffer is not taken from its own bytes\"); o += {n};\n"
        ok = "false" if len(dy) > 1 else f"l == {st}" if not dy else f"l >= {st} && (l - {st}) % {it} == 0"
        t += f"""pub fn l{k}() {{ let all: [u8; {st + 13}] = nd::any(); type T = {ty};
  for l in 0..={st + 13} {{ let b = &all[..l];
    match T::unpack_from_slice(b) {{
      Ok(w) => {{ assert!({ok}, "{ty}: accepted {{l}} bytes"); let r = l.wrapping_sub({st}); let mut o = 0;
{cmp_}      assert!(o == l); assert!(<T as PackedStructSlice>::packed_bytes_size(Some(&w)) == Ok(l), "{ty}: size of an instance");
      let mut out = vec![0x5au8; l]; assert!(w.pack_to_slice(&mut out[..]) == Ok(()) && &out[..] == b, "{ty}: pack(unpack)"); assert!(w.pack_to_vec() == Ok(b.to_vec()), "{ty}: pack_to_vec");
      for d in [l + 1, l + 2, l + 7] {{ let mut out = vec![0x5au8; d]; assert!(w.pack_to_slice(&mut out[..]).is_err(), "{ty}: packed into {{d}} bytes"); }}
      if l > 0 {{ let mut out = vec![0x5au8; l - 1]; assert!(w.pack_to_slice(&mut out[..]).is_err(), "{ty}: packed into too few bytes"); }} }}
      Err(_) => assert!(!({ok}), "{ty}: refused {{l}} bytes") }} }} }}
"""
        c.native_only.append(f"len::l{k}"); idx[f"len_l{k}"] = ty
    c.add_mod("len", t)
    # a member's own error surfaces, whichever member it is; nothing is taken for packed
    t = ITEMS[:ITEMS.index("\n", ITEMS.index("impl PackedStruct for Pair"))] + "\n"
    for a in range(1, 11):
        for p in range(a):
            mem = lambda x, y: "(" + ", ".join(x if i == p else y for i in range(a)) + ",)"
            t += f"""pub fn e{a}_{p}() {{ type T = {mem("Pair", "u8")}; let mut o = [0u8; {a + 1}];
  let x: u8 = nd::any(); nd::assume(x != 9); let good: T = {mem("Pair(x)", "x")}; let bad: T = {mem("Pair(9)", "x")};
  match good.pack_to_slice(&mut o[..]) {{ Ok(()) => (), Err(_) => panic!("tuple of {a}: packing failed") }}
  match T::unpack_from_slice(&o[..]) {{ Ok(w) => assert!(w == good), Err(_) => panic!("tuple of {a}: unpacking failed") }}
  match bad.pack_to_slice(&mut o[..]) {{ Err(PackingError::BitsError) => (), _ => panic!("tuple of {a}: packing error of member {p} does not surface") }}
  match bad.pack_to_vec() {{ Err(PackingError::BitsError) => (), _ => panic!("tuple of {a}: packing error of member {p} does not surface") }}
  let b = [x; {a + 1}]; match T::unpack_from_slice(&b[..]) {{ Err(PackingError::InternalError) => (), _ => panic!("tuple of {a}: unpacking error of member {p} does not surface") }} }}
"""
            c.native_only.append(f"fail::e{a}_{p}"); idx[f"fail_e{a}_{p}"] = f"tuple of {a}, member {p} failing"
    c.add_mod("fail", t)
    c.add_mod("x", two); c.native_only += ["x::" + z for z in ("two", "two_b", "inner", "nested", "err")]
    K.decide(c, res, "tuples of arity 1..10, dynamic member at each position (quick: a sample), lengths around the exact one", describe=lambda f: idx.get(f, ""))
    res.functions += ["(A, .., J)::{pack_to_slice,unpack_from_slice,packed_bytes_size} for arities 1..10", "StructLengthBuilder::{add,build}, StructLengths::{new,get_ranges} reached through them"]
USES_IN = K.USES.strip()

# ---------------------------------------------------------------- C13
def c13(res):
    fails = tuple_units("C13", res, range(1, 11), True)
    c13_standins(res)
    V.report(res, fails)
def c13_standins(res):
    rng = random.Random(SEED * 3 + 13)
    def size_fns(maxbits):
        txt, fns = "use packed_struct::types::*;\n", []
        for lo in range(1, maxbits, 64):
            f = f"bits_{lo}"; fns.append("v::" + f); txt += f"pub fn {f}() {{\n"
            for n in range(lo, min(lo + 64, maxbits)):
                txt += f"""  one::<Bits::<{n}>>({n}, {NB(n)}); {{ fn full<T: {'BitsFullBytes' if n % 8 == 0 else 'BitsPartialBytes'}>() {{}} full::<Bits::<{n}>>(); }}
"""
            txt += "}\n"
        txt += """fn one<B: NumberOfBits>(n: usize, nb: usize) where ReservedZero<B>: PackedStruct, ReservedOne<B>: PackedStruct, <ReservedZero<B> as PackedStruct>::ByteArray: ByteArray, <ReservedOne<B> as PackedStruct>::ByteArray: ByteArray {
  assert!(B::number_of_bits() == n, "Bits<N>::number_of_bits"); assert!(B::byte_array_len() == nb, "Bits<N>::byte_array_len"); assert!(<B::Bytes as NumberOfBytes>::number_of_bytes() == nb, "number_of_bytes");
  assert!(<<B::Bytes as NumberOfBytes>::AsBytes as ByteArray>::len() == nb);
  assert!(<ReservedZero<B> as PackedStructInfo>::packed_bits() == n && <ReservedOne<B> as PackedStructInfo>::packed_bits() == n, "reserved packed_bits");
  assert!(<MsbInteger<u8, B, u8> as PackedStructInfo>::packed_bits() == n && <LsbInteger<u8, B, u8> as PackedStructInfo>::packed_bits() == n, "integer wrapper packed_bits");
  assert!(<<ReservedZero<B> as PackedStruct>::ByteArray as ByteArray>::len() == nb);
  match <ReservedZero<B> as PackedStructSlice>::packed_bytes_size(None) { Ok(s) => assert!(s == nb), Err(_) => panic!("size") }
  match ReservedOne::<B>::default().pack() { Ok(p) => assert!(p.as_bytes_slice().len() == nb), Err(_) => panic!("pack") }
}
"""
        return txt, fns
    for feat, mx in ([(None, 256), ("byte_types_64", 512)] if TIER == "quick" else [(None, 256), ("byte_types_64", 512), ("byte_types_256", 2048)]):
        txt, fns = size_fns(mx)
        c = K.Crate("C13", "table" + str(mx), features=[feat] if feat else None); c.add_mod("v", txt)
        if feat is None:
            for f in fns: c.add_harness("h_" + f.split("::")[1], [f])
            # basic types, integers, arrays, structures
            t2, f2 = USE_ENUMS + "use packed_struct::types::*;\n", []
            t2 += """fn sz<T: PackedStruct + PackedStructInfo>(v: T, bits: usize) where T::ByteArray: ByteArray { let n = (bits + 7) / 8;
  assert!(T::packed_bits() == bits, "packed_bits"); assert!(<T::ByteArray as ByteArray>::len() == n, "byte array length");
  match T::packed_bytes_size(None) { Ok(s) => assert!(s == n, "packed_bytes_size"), Err(_) => panic!() } match T::packed_bytes_size(Some(&v)) { Ok(s) => assert!(s == n, "packed_bytes_size(instance)"), Err(_) => panic!() }
  match v.pack() { Ok(p) => assert!(p.as_bytes_slice().len() == n, "packed length"), Err(_) => panic!("pack") } }
"""
            t2 += "pub fn basic() { sz(nd::any::<u8>(), 8); sz(nd::any::<i8>(), 8); sz(nd::any::<bool>(), 1); sz((), 0); " + " ".join(f"sz([0u8; {n}], {8*n});" for n in (0, 1, 2, 7, 16, 33)) + " }\n"; f2.append("s::basic")
            for k in range(0, len(PAIRS), 16):
                t2 += f"pub fn ints{k}() {{\n" + "".join(f"  {{ let i: Integer<{T}, Bits::<{n}>> = nd::any::<{T}>().into(); sz(i.as_packed_msb(), {n}); sz(i.as_packed_lsb(), {n}); }}\n" for T, n in PAIRS[k:k+16]) + "}\n"; f2.append(f"s::ints{k}")
            st = []
            F = L.Field
            for i in range(q(40, 150)):
                # last declared bit anywhere; explicit size, or none
                items, p = [], rng.choice([0, 0, 1, 6, 8])
                for j in range(rng.randint(1, 4)):
                    leaf = L.rand_leaf(rng, 40, kinds=("int", "bool", "res", "enum"))
                    k = L.Arr(leaf, rng.choice([2, 3])) if rng.random() < .25 else leaf
                    items.append((k, p)); p += k.w + rng.choice([0, 0, 1, 4, 8])
                end = max(s + k.w for k, s in items); nb = (end + 7) // 8
                mode = i % 4
                if mode == 0:   s = L.mk(f"Z{i}", items, nb + rng.choice([0, 0, 1, 3]), rng, lsb0=True, default=False, order="shuffle"); bits = s.nbytes * 8
                elif mode == 1: s = L.mk(f"Z{i}", items, nb + rng.choice([0, 1, 3]), rng, default=False, order="shuffle"); bits = s.nbytes * 8; s.sattrs = [a for a in s.sattrs if "size_bytes" not in a] + [f'size_bytes="{s.nbytes}"']
                else:           s = L.mk(f"Z{i}", items, nb, rng, default=True, order="shuffle" if mode == 3 else None); s.sattrs = [a for a in s.sattrs if "size_bytes" not in a]; bits = end
                s.bits = bits; st.append(s)
            for g in range(0, len(st), 8):
                t2 += "".join(s.decl() + "\n" for s in st[g:g+8])
                t2 += f"pub fn st{g}() {{\n" + "".join("  { " + " ".join(l[2].any(l[1], True) for l in s.leaves() if not l[2].reserved) + f" let v = {s.init()}; assert!(<{s.name} as PackedStructInfo>::packed_bits() == {s.bits}, \"{s.name}: packed_bits is not {s.bits}\"); sz(v, {s.bits}); }}\n" for s in st[g:g+8]) + "}\n"; f2.append(f"s::st{g}")
            # tuples of every arity, with and without an instance, with and without a dynamic member
            for ar in range(1, 11):
                ws = [rng.choice([1, 2, 3, 5]) for _ in range(ar)]; tot = sum(ws); d = rng.randrange(ar)
                ty = lambda dyn: "(" + "".join((f"Vec<u8>" if dyn and i == d else f"[u8; {w}]") + ", " for i, w in enumerate(ws)) + ")"
                val = lambda dyn: "(" + "".join((f"vec![0u8; k]" if dyn and i == d else f"[0u8; {w}]") + ", " for i, w in enumerate(ws)) + ")"
                t2 += f"pub fn tup{ar}() {{ let v: {ty(0)} = {val(0)}; match <{ty(0)} as PackedStructSlice>::packed_bytes_size(Some(&v)) {{ Ok({tot}) => (), _ => panic!(\"size of a tuple of {ar}\") }} match <{ty(0)} as PackedStructSlice>::packed_bytes_size(None) {{ Ok({tot}) => (), _ => panic!(\"static size of a tuple of {ar}\") }} match v.pack_to_vec() {{ Ok(p) => assert!(p.len() == {tot}), Err(_) => panic!(\"pack\") }}\n for k in [0usize, 1, 7, 300] {{ let v: {ty(1)} = {val(1)}; match <{ty(1)} as PackedStructSlice>::packed_bytes_size(Some(&v)) {{ Ok(s) => assert!(s == {tot - ws[d]} + k, \"size of a tuple of {ar} with a vector\"), Err(_) => panic!() }} match v.pack_to_vec() {{ Ok(p) => assert!(p.len() == {tot - ws[d]} + k), Err(_) => panic!(\"pack\") }} match <{ty(1)} as PackedStructSlice>::packed_bytes_size(None) {{ Err(PackingError::InstanceRequiredForSize) => (), _ => panic!(\"size without an instance\") }} }} }}\n"
                c.native_only.append(f"s::tup{ar}")
            # implicit size decided by the field with the largest end, whatever its place in the declaration
            c.add_mod("en", ENUM_DECLS); c.add_mod("s", t2)
            for f in f2: c.add_harness("h_" + f.split("::")[1], [f])
        else: c.native_only = fns       # no free inputs: running them once decides them
        K.decide(c, res, f"sizes ({feat or 'default'} size table)", native_only_iters=1)
    res.functions += ["NumberOfBits::{number_of_bits,byte_array_len}, NumberOfBytes::number_of_bytes for every generated width", "PackedStructInfo::packed_bits and PackedStructSlice::packed_bytes_size of every type kind"]
    res.assumptions += ["widths of the larger size tables carry no input: they are decided by executing them once (byte_types_64 in both tiers, byte_types_256 in thorough)"]

# ---------------------------------------------------------------- C17
def c17(res):
    fails = V.check("C17", res, VU.bits, "ByteArray for [u8; N], every N")
    c17_standins(res)
    V.report(res, fails)
def c17_standins(res):
    txt, fns = "", []
    for n in list(range(0, q(13, 33))) + ([33] if TIER == "quick" else [33, 64]):
        fns.append(f"v::arr{n}")
        txt += f"""pub fn arr{n}() {{
  assert!(<[u8; {n}] as ByteArray>::len() == {n}, "len of [u8; {n}]");
  let v: u8 = nd::any(); let a = <[u8; {n}] as ByteArray>::new(v);
  let mut i = 0; while i < {n} {{ assert!(a[i] == v, "new: byte differs"); i += 1; }}
  let mut b: [u8; {n}] = nd::any(); let c = b;
  {{ let s = b.as_bytes_slice(); assert!(s.len() == {n}); let mut i = 0; while i < {n} {{ assert!(s[i] == c[i], "as_bytes_slice"); i += 1; }} }}
  {{ let s = b.as_mut_bytes_slice(); assert!(s.len() == {n}); let mut i = 0; while i < {n} {{ assert!(s[i] == c[i], "as_mut_bytes_slice"); s[i] = !c[i]; i += 1; }} }}
  let mut i = 0; while i < {n} {{ assert!(b[i] == !c[i], "write through the mutable view lost"); i += 1; }}
"""
        ks = range(n) if n <= 12 or TIER != "quick" else [0, 1, n // 2, n - 1]
        for k in ks:
            txt += f"  {{ let mut r = c; ByteArray::rotate_right(&mut r, {k}); assert!({' && '.join([f'r[{i}] == 0' for i in range(k)] + [f'r[{i}] == c[{i-k}]' for i in range(k, n)])}, \"[u8; {n}] rotated by {k}\"); }}\n"
        txt += "}\n"
    # larger arrays, every rotation, natively (bounded)
    big = [16, 24, 32, 40, 64, 100, 129, 255, 256, 300]
    t2 = """pub fn rot<const N: usize>() where [u8; N]: ByteArray {
  let s: u32 = nd::any(); let v: u8 = nd::any(); let mut c = [0u8; N]; for i in 0..N { c[i] = (s.wrapping_mul(2654435761).wrapping_add((i as u32).wrapping_mul(40503)) >> 9) as u8 | 1; }
  assert!(<[u8; N] as ByteArray>::len() == N, "len of [u8; {}]", N); assert!(<[u8; N] as ByteArray>::new(v)[..] == [v; N][..], "new of [u8; {}]", N); let mut m = c; assert!(m.as_bytes_slice() == &c[..] && m.as_mut_bytes_slice() == &c[..], "views of [u8; {}]", N);
  for k in 0..N { let mut r = c; ByteArray::rotate_right(&mut r, k); for i in 0..N { assert!(r[i] == if i < k { 0 } else { c[i - k] }, "[u8; {}] rotated by {}: byte {}", N, k, i); } } }
""" + "".join(f"pub fn big{n}() {{ rot::<{n}>() }}\n" for n in big)
    c = K.Crate("C17", "arrays"); c.add_mod("v", txt); c.add_mod("w", t2); c.native_only += [f"w::big{n}" for n in big]; groups(c, fns, 2)
    K.decide(c, res, "[u8; N] for N in 0..12 and 33, every content, every rotation (N = 33: four)", native_only_iters=3)
    res.functions += ["ByteArray for [u8; N]: len, new, as_bytes_slice, as_mut_bytes_slice, rotate_right"]

# ---------------------------------------------------------------- C18
def c18(res):
    txt = """use packed_struct::debug_fmt::DebugBinaryByteSlice; use std::fmt::Write;
pub struct Buf { d: [u8; 64], n: usize }
impl Write for Buf { fn write_str(&mut self, s: &str) -> std::fmt::Result { for b in s.bytes() { if self.n >= 64 { return Err(std::fmt::Error) } self.d[self.n] = b; self.n += 1; } Ok(()) } }
"""
    fns = []
    for n in (1, 2, 3, 5):
        fns.append(f"v::bin{n}")
        txt += f"""pub fn bin{n}() {{ let c: [u8; {n}] = nd::any(); let s: usize = nd::any(); let e: usize = nd::any(); nd::assume(s <= e && e < {8*n}{' && e - s < 12' if n > 2 else ''});
  let r = s..e; let mut o = Buf {{ d: [0; 64], n: 0 }}; let ok = write!(o, "{{:b}}", DebugBinaryByteSlice {{ bits: &r, slice: &c[..] }}).is_ok(); assert!(ok, "formatter failed");
  assert!(o.n == e - s + 1, "wrong number of bits printed"); let k: usize = nd::any(); nd::assume(k < o.n); let i = s + k;
  assert!(o.d[k] == if (c[i / 8] >> (7 - i % 8)) & 1 == 1 {{ b'1' }} else {{ b'0' }}, "bit printed differs from the slice"); }}
"""
    c = K.Crate("C18", "binary"); c.add_mod("v", txt)
    for f in fns: c.add_harness("h_" + f.split("::")[1], [f], unwind=18)
    K.decide(c, res, "runtime binary formatter, every content and range of slices of 1, 2, 3 and 5 bytes")
    # whole display of structures: executed natively against the layout oracle
    rng = random.Random(SEED * 29 + 18)
    st = [L.dense(f"Dsp{i}", rng, rng.choice([1, 2, 3, 4, 6, 9]), kinds=("int", "bool", "enum", "catch", "res")) for i in range(q(40, 150))]
    st += [L.mk(f"Wide{i}", [(L.Int(w, True), 0), (L.Int(7), w)], (w + 14) // 8, rng, default=False) for i, w in enumerate((32, 33, 34, 41, 64))]
    for x in st[3::7]:
        for f, nm in zip(x.fields, rng.sample(["r#type", "r#match", "ünit", "fields", "packed", "fmt", "src", "r#fn", "a_rather_long_name_for_a_field"], min(len(x.fields), 9))): f.name = nm
    st += [x for x in L.large(SEED + 4)[:2]]
    c = K.Crate("C18", "display"); c.add_mod("en", ENUM_DECLS); idx = {}
    for gi in range(0, len(st), 12):
        m = f"d{gi//12}"; t = USE_ENUMS + "use packed_struct::debug_fmt::*;\n" + HELP_TABLE
        for s in st[gi:gi+12]:
            t += s.decl() + "\n" + table_check(s, "show_" + s.name); c.native_only.append(f"{m}::show_{s.name}"); idx[f"{m}_show_{s.name}"] = s
        c.add_mod(m, t)
    K.decide(c, res, "display of whole structures", describe=lambda f: "declaration: " + idx[f].decl() if f in idx else "", native_only_iters=q(60, 400))
    res.samples = [st[0].decl(), st[-1].decl()]
    res.functions += ["text of whole displays (bounded, native)"]
    res.assumptions += ["rendering of numbers, padding and Debug values by core::fmt: bounded, whole displays executed natively (the contracts say which pieces are written, in which order and with which format string)"]

c18.rule = "one evaluation = one structure value displayed and compared with the layout oracle; non-trivial = distinct, non-zero input per structure (or formatter instance)"
HELP_TABLE = r'''
fn bits_of(b: &[u8], s: usize, e: usize) -> String { (s..=e).map(|i| if b[i / 8] >> (7 - i % 8) & 1 == 1 { '1' } else { '0' }).collect() }
fn dumps(b: &[u8]) -> (String, String, String) { let j = |f: &dyn Fn(&u8) -> String| format!("[{}]", b.iter().map(|x| f(x)).collect::<Vec<_>>().join(", ")); (j(&|x| x.to_string()), j(&|x| format!("0x{:X}", x)), j(&|x| format!("0b{:08b}", x))) }
fn table(text: &str, b: &[u8], rows: &[(&str, usize, usize, String)]) {
    let (d, h, bi) = dumps(b);
    let ls: Vec<&str> = text.lines().map(|l| l.trim_end()).collect();
    for (k, want) in [("Decimal", &d), ("Hex", &h), ("Binary", &bi)] { let i = ls.iter().position(|l| *l == k).unwrap_or_else(|| panic!("no {} section", k)); assert!(ls[i + 1] == want, "{} dump: {} instead of {}", k, ls[i + 1], want); }
    let got: Vec<&str> = ls.iter().filter(|l| l.contains(" | ")).copied().collect();
    assert!(got.len() == rows.len(), "{} rows instead of {}", got.len(), rows.len());
    let wide = rows.iter().any(|r| r.2 - r.1 > 32);
    for (g, r) in got.iter().zip(rows) {
        let mut p = g.splitn(if wide { 2 } else { 4 }, " | "); let name = p.next().unwrap().trim();
        assert!(name == r.0, "row {} where {} belongs", name, r.0);
        if !wide { let rng: String = p.next().unwrap().chars().filter(|c| !c.is_whitespace()).collect(); assert!(rng == format!("bits{}:{}", r.1, r.2), "{}: range {} instead of {}:{}", r.0, rng, r.1, r.2);
          let bits = p.next().unwrap().trim(); assert!(bits == format!("0b{}", bits_of(b, r.1, r.2)), "{}: bits {} instead of {}", r.0, bits, bits_of(b, r.1, r.2)); }
        assert!(p.next().unwrap() == format!("{:?}", r.3).as_str(), "{}: value column", r.0);
    }
}
'''
def table_check(s, fn):
    ls = [l for l in s.leaves() if not l[2].reserved]
    rows = []
    for f in s.fields:
        if isinstance(f.kind, L.Arr):
            for i in range(f.kind.n): rows.append((f"{f.name}[{i}]", f.start + i * f.kind.elem.w, f.start + (i+1) * f.kind.elem.w - 1))
        else: rows.append((f.name, f.start, f.end))
    ex = s.expected_bytes(lambda v: "w" + v)
    o = [f"pub fn {fn}() {{"] + ["  " + l[2].any(l[1], True) for l in ls]
    o.append(f"  let s = {s.init()};")
    o += [f"  let w{l[1]}: u64 = {l[2].wire(l[1])};" for l in ls]
    o.append(f"  let b: Vec<u8> = vec![{', '.join(ex)}];")
    rs = ", ".join(f'("{n.replace("r#", "")}", {a}, {e}, format!("{{:?}}", s.{n}))' for n, a, e in rows)
    o.append(f"  let rows: Vec<(&str, usize, usize, String)> = vec![{rs}];")
    o.append("  let t = format!(\"{}\", s); table(&t, &b, &rows);")
    o.append("  let mut d = s.packed_struct_display_formatter(); assert!(format!(\"{}\", d) == t); d.raw_decimal = true;")
    o.append("  { let mut d = s.packed_struct_display_formatter(); d.header = false; d.raw_decimal = false; d.raw_hex = false; d.raw_binary = false; let x = format!(\"{}\", d); assert!(t.ends_with(&x) && !x.contains(\"Hex\"), \"fields only\"); }")
    # the field table as data
    o.append(f"  let fl = debug_fields_{snake(s.name)}(&s); assert!(fl.len() == rows.len()); for (a, r) in fl.iter().zip(&rows) {{ assert!(a.name == r.0 && a.bits == (r.1..r.2) && a.display_value == r.3, \"field table entry {{}}\", r.0); }}")
    o.append("}\n")
    return "\n".join(o)
def snake(n):
    o = ""
    for i, ch in enumerate(n):
        if ch.isupper() and i: o += "_"
        o += ch.lower()
    return o

# ---------------------------------------------------------------- C19
def c19(res):
    ES = [("Sa", "u8", ["A", "Bb", "CCC", "bB2"]), ("Sb", "i16", ["North", "South", "East", "West"]), ("Sc", None, ["X"]), ("Sd", "u32", ["Ab", "AB_", "a_B", "Abc", "ABd"]), ("Se", None, ["Zero", "One", "Two", "Three", "Four", "Five", "Six"]), ("Sf", "i64", ["x1", "X2", "Y"]), ("Sg", "u16", ["Öl", "straße", "Σας", "r#type", "İstanbul", "r#Loop", "АБВ"])]
    txt, fns = "", []
    idx = {}
    for N, prim, vs in ES:
        disc = [f" = {d}" for d in ([-2, 7, 100, 3, 12, 13, 14] if prim and prim[0] == "i" else [2, 7, 100, 3, 12, 13, 14])] if prim else [""] * 7
        txt += f"#[derive(PrimitiveEnum{'_' + prim if prim else ''}, Clone, Copy, Debug, PartialEq)] pub enum {N} {{ {', '.join(v + d for v, d in zip(vs, disc))} }}\n"
        plain = all(v.isascii() and "#" not in v for v in vs); shown = [v.replace("r#", "") for v in vs]
        mx = max(map(len, vs)) + 1
        for l in range(0, mx + 1) if plain else ():
            f = f"parse_{N}_{l}"; fns.append("v::" + f); idx["v_" + f] = f"{N}, strings of {l} bytes"
            same = [v for v in vs if len(v) == l]
            m = lambda lows: "".join(f"{'else ' if i else ''}if {' && '.join(f'b[{j}] == {ord(ch)}u8' for j, ch in enumerate(w))} {{ Some({N}::{v}) }} " for i, (v, w) in enumerate((v, v.lower() if lows else v) for v in same)) + ("else { None }" if same else "None")
            txt += f"""pub fn {f}() {{ let b: [u8; {l}] = nd::any(); {' '.join(f'nd::assume(b[{j}] < 0x80);' for j in range(l))} let s = unsafe {{ core::str::from_utf8_unchecked(&b[..]) }};
  let want: Option<{N}> = {m(False)}; let wl: Option<{N}> = {m(True)};
  assert!({N}::from_str(s) == want, "{N}::from_str"); assert!({N}::from_str_lower(s) == wl, "{N}::from_str_lower");
}}
""" if l else f"""pub fn {f}() {{ assert!({N}::from_str("") == None && {N}::from_str_lower("") == None); }}
"""
        f = f"names_{N}"
        if plain: fns.append("v::" + f)
        if plain: txt += f"pub fn {f}() {{ use packed_struct::PrimitiveEnumStaticStr; let a = <{N} as PrimitiveEnumStaticStr>::all_variants(); assert!(a.len() == {len(vs)}, \"{N}: variant list\"); " + " ".join(f'assert!(a[{i}] == {N}::{v}, "{N}: variant list"); assert!(<{N} as PrimitiveEnumStaticStr>::to_display_str(&{N}::{v}).as_bytes() == b"{v}", "{N}: display string"); assert!({N}::from_str("{v}") == Some({N}::{v}) && {N}::from_str_lower("{v.lower()}") == Some({N}::{v}), "{N}: own name"); match EnumCatchAll::<{N}>::from_str("{v}") {{ Some(EnumCatchAll::Enum(e)) => assert!(e == {N}::{v}), _ => panic!("catch-all from_str") }} match EnumCatchAll::<{N}>::from_str_lower("{v.lower()}") {{ Some(EnumCatchAll::Enum(e)) => assert!(e == {N}::{v}), _ => panic!("catch-all from_str_lower") }}' for i, v in enumerate(vs)) + " }\n"
        f = f"dyn_{N}"
        prims = f"<{N} as PrimitiveEnum>::Primitive"
        txt += f"""pub fn {f}() {{ use packed_struct::PrimitiveEnumDynamicStr; let all: Vec<{N}> = vec![{', '.join(f'{N}::{v}' for v in vs)}]; let names = [{', '.join(f'"{v}"' for v in shown)}];
  let a = <{N} as PrimitiveEnumDynamicStr>::all_variants(); assert!(a[..] == all[..], "dynamic variant list");
  let ca = <EnumCatchAll<{N}> as PrimitiveEnumDynamicStr>::all_variants(); assert!(ca.len() == all.len()); for (x, y) in ca.iter().zip(&all) {{ assert!(matches!(x, EnumCatchAll::Enum(e) if e == y), "catch-all variant list"); }}
  for (e, n) in all.iter().zip(names) {{ assert!({N}::from_str(n) == Some(*e) && {N}::from_str_lower(&n.to_lowercase()) == Some(*e), "own name {{}}", n); assert!(<{N} as packed_struct::PrimitiveEnumStaticStr>::to_display_str(e) == n); assert!(<{N} as PrimitiveEnumDynamicStr>::to_display_str(e) == n && <EnumCatchAll<{N}> as PrimitiveEnumDynamicStr>::to_display_str(&EnumCatchAll::Enum(*e)) == n, "display string"); }}
  let v: {prims} = nd::any(); let c = EnumCatchAll::<{N}>::from_primitive(v).unwrap(); let t = <EnumCatchAll<{N}> as PrimitiveEnumDynamicStr>::to_display_str(&c);
  match all.iter().position(|e| e.to_primitive() == v) {{ Some(i) => assert!(t == names[i]), None => assert!(t == format!("Unknown value: {{:?}}", v), "unknown value text") }}
  let c = EnumCatchAll::<{N}>::CatchAll(v); assert!(<EnumCatchAll<{N}> as PrimitiveEnumDynamicStr>::to_display_str(&c) == format!("Unknown value: {{:?}}", v));
  // strings near a name: case changes, prefixes, suffixes, arbitrary text
  let pool: [u8; 8] = nd::any(); let k = pool[0] as usize % names.len(); let mut s = names[k].to_string(); match pool[1] % 6 {{ 0 => s = s.to_uppercase(), 1 => s.push(pool[2] as char), 2 => {{ s.pop(); }}, 3 => s.insert(0, ' '), 4 => s = s.to_lowercase(), _ => s = String::from_utf8_lossy(&pool[2..]).to_string() }}
  let want = names.iter().position(|n| **n == s).map(|i| all[i]); assert!({N}::from_str(&s) == want, "from_str {{:?}}", s); let wl = names.iter().position(|n| n.to_lowercase() == s).map(|i| all[i]); assert!({N}::from_str_lower(&s) == wl, "from_str_lower {{:?}}", s); let w2: Option<EnumCatchAll<{N}>> = EnumCatchAll::from_str(&s); assert!(w2.map(|x| x.to_primitive()) == want.map(|x| x.to_primitive()), "catch-all from_str"); let w3: Option<EnumCatchAll<{N}>> = EnumCatchAll::from_str_lower(&s); assert!(w3.map(|x| x.to_primitive()) == wl.map(|x| x.to_primitive()), "catch-all from_str_lower"); }}
"""
        idx["v_" + f] = N
    c = K.Crate("C19", "names"); c.add_mod("v", txt)
    c.native_only = [f"v::dyn_{N}" for N, _, _ in ES]
    for f in fns: c.cost[f] = int(f[-1]) * 4 if f[-1].isdigit() else 3
    groups(c, fns, 2)
    K.decide(c, res, "names: every ASCII string up to one byte longer than the longest name, every variant", describe=lambda f: idx.get(f, ""), native_only_iters=3000)
    res.functions += ["PrimitiveEnum::{from_str,from_str_lower}, PrimitiveEnumStaticStr::{to_display_str,all_variants} generated for six enumerations", "EnumCatchAll::{from_str,from_str_lower}"]
    res.assumptions += ["PrimitiveEnumDynamicStr (Cow, format!) and strings beyond the stated lengths or with non-ASCII bytes: executed natively (bounded)"]
