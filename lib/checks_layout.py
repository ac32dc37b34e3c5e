"""Checks decided by the declaration battery: C01 C02 C03 C07 C14 C16."""
import random
import layout as L
import kani as K
from core import *

ENUM_DECLS = "\n".join(e.decl() for e in L.ENUMS.values()) + "\n"
USE_ENUMS = "use crate::en::*;\n"

def crate_of(prop, name, structs, modes, group=8, aux=(), deps=(), native=False):
    """structs: list of Struct, or of (list of Struct, group size); modes: subset of pack/unpack/round per struct."""
    c = K.Crate(prop, name)
    parts = structs if structs and isinstance(structs[0], tuple) else [(structs, group)]
    groups = [st[i:i+n] for st, n in parts for i in range(0, len(st), n)]
    c.add_mod("en", ENUM_DECLS + "".join(d.decl() for d in deps))
    if aux: c.mods["en"] += "\n".join(s.decl() for s in aux) + "\n"
    idx = {}
    for i, g in enumerate(groups):
        m = f"b{i}"
        fns = []; txt = USE_ENUMS
        for s in g:
            txt += s.decl() + "\n"
            for md in modes:
                fn = f"{md}_{s.name}"; c.cost[f"{m}::{fn}"] = 3 * len(s.leaves()) + s.nbytes + sum(l[4] // (1 if l[2].lsb else 2) for l in s.leaves()); txt += getattr(s, "check_" + md)(fn) + "\n"; fns.append(f"{m}::{fn}")
                idx[f"{m}_{fn}"] = s
        c.add_mod(m, txt)
        if native: c.native_only += fns
        else: c.add_harness("h_" + m, fns)
    def describe(f):
        s = idx.get(f)
        if not s: return ""
        lay = "; ".join(f"{p}: msb0 bits {st}..={st+w-1} ({type(l).__name__}{' lsb' if l.lsb else ''})" for p, v, l, st, w in s.leaves())
        return f"declaration: {s.decl()}\nground truth: {lay}"
    return c, describe

def seeds(): return [SEED] if TIER == "quick" else [SEED, SEED + 1, SEED + 2]
def q(a, b): return a if TIER == "quick" else b

def thin(g, n, s):
    """quick: every n-th cell of the (offset, width) grid, each offset and each width still present"""
    return [x for i, x in enumerate(g) if (i // 64 + i // 2 + s) % n == 0] if TIER == "quick" else g

def far(prop, res, modes, seed, count):
    """Bounded: wide structures executed natively (positions and widths the batteries under Kani do not reach)."""
    aux, st = L.far(seed, count)
    c, d = crate_of(prop, f"far{seed}", st, modes, group=4, aux=aux, native=True)
    K.decide(c, res, "fields far from the start, wide members", describe=d, native_only_iters=60)

# what looks further when a contract is refuted and no stand-in found an input
DEEP = {"C01": lambda res: far("C01", res, ["pack"], SEED + 900, 120), "C02": lambda res: far("C02", res, ["round"], SEED + 900, 100),
        "C03": lambda res: far("C03", res, ["unpack"], SEED + 900, 120), "C14": lambda res: far("C14", res, ["pack"], SEED + 900, 120), "C16": lambda res: far("C16", res, ["pack", "unpack"], SEED + 900, 80)}
def c01(res):
    for s in seeds():
        parts = [(L.large(s)[::q(2, 1)], 1), (L.multi(s, q(24, 120)), 4), (thin(L.grid(s, lsb_all=TIER != "quick"), 2, s), 8)]
        c, d = crate_of("C01", f"pack{s}", parts, ["pack"])
        K.decide(c, res, "pack: one field at every (bit offset, width); multi-field structures", describe=d)
    far("C01", res, ["pack"], SEED, q(14, 60))
    res.functions += ["derive output pack() of each battery declaration (pack_bits, pack_field, derive_pack expansion)", "PackedStruct::pack of u8,i8,bool,MsbInteger,LsbInteger,ReservedBits"]

def c02(res):
    for s in seeds():
        g = thin(L.grid(s + 3, lsb_all=TIER != "quick"), 4, s)
        c, d = crate_of("C02", f"round{s}", [(L.multi(s + 50, q(24, 90)), 2), (g, 6)], ["round"])
        K.decide(c, res, "round trip: one field at (bit offset, width); multi-field structures", describe=d)
    far("C02", res, ["round"], SEED, q(14, 60))
    res.functions += ["derive output pack()/unpack() of each battery declaration"]

def c03(res):
    for s in seeds():
        rng = random.Random(s * 13 + 3)
        hostile = [L.dense(f"H{i}", rng, rng.choice([1, 2, 3, 4, 6]), kinds=("bool", "enum", "enum", "catch", "int")) for i in range(12)]
        parts = [(L.large(s + 1)[:q(2, 5)], 1), (L.multi(s + 100, q(20, 120)), 3), (hostile, 3), (thin(L.grid(s + 7, lsb_all=TIER != "quick"), 2, s), 8)]
        c, d = crate_of("C03", f"unpack{s}", parts, ["unpack"])
        K.decide(c, res, "unpack: one field at every (bit offset, width); multi-field structures, every byte array", describe=d)
    far("C03", res, ["unpack"], SEED, q(14, 60))
    res.functions += ["derive output unpack() of each battery declaration"]

# ---------------------------------------------------------------- C07
def c07(res):
    rng = random.Random(SEED * 977 + 2)
    st = []
    widths = list(range(1, 41)) + [47, 48, 49, 63, 64, 65, 71, 72, 96, 100, 127, 128, 129, 200, 247, 248, 249, 255]
    for off in range(8):
        ws = [w for w in widths if TIER != "quick" or (w <= 9 and (w + off) % 2) or (w * 8 + off + SEED) % 7 == 0 or w == 247 + off]
        for w in ws:
            for one in ((False, True) if TIER != "quick" else [(w + off) % 2 == 0]):
                lead = rng.choice([0, 1]); start = off + 8 * lead
                items = [(L.Res(w, one, rng.randint(0, 1)), start)]
                n = (start + w + 7) // 8 + 1
                # a live neighbour on each side
                if start >= 1: items.append((L.Int(min(start, 7), native=True), start - min(start, 7)))
                items.append((L.Int(3), start + w))
                st.append(L.mk(f"R{off}_{w}_{int(one)}", items, n, rng, lsb0=rng.random() < .4, order=rng.choice([None, "rev"])))
    for i, (e, n) in enumerate([(1, 7), (2, 4), (3, 5), (5, 3), (8, 3), (11, 2), (16, 2)]):
        for one in (False, True):
            a = L.Arr(L.Res(e, one), n); start = rng.randint(0, 9)
            st.append(L.mk(f"RA{i}{int(one)}", [(a, start), (L.Int(5, signed=True), start + a.w)], (start + a.w + 5 + 7) // 8, rng))
    # placed by their first bit only: the region's width comes from the type
    for i, (w, start) in enumerate([(3, 5), (9, 0), (10, 7), (99, 1), (100, 0), (101, 3), (120, 8), (128, 2), (199, 0), (240, 5)]):
        for one in (False, True):
            pos = f'bits="{start}:"' if i % 3 else f'bits="{start}.."'
            st.append(L.Struct(f"RO{i}{int(one)}", [L.Field("f0", L.Res(w, one, i % 2), start, [pos]), L.Field("f1", L.Int(4), start + w, [f'bits="{start + w}..={start + w + 3}"'])], (start + w + 4 + 7) // 8, ['bit_numbering="msb0"', f'size_bytes="{(start + w + 4 + 7) // 8}"']))
    c, d = crate_of("C07", "placed", st, ["pack", "unpack"], group=6)
    K.decide(c, res, "reserved regions inside structures", describe=d)
    # the reserved types alone: every width of the default size table
    txt, fns = "", []
    for w in range(1, 256):
        n = (w + 7) // 8
        txt += f"""pub fn alone{w}() {{
  let mut ok = true;
  let src: <ReservedZero<Bits::<{w}>> as PackedStruct>::ByteArray = nd::any();
  let z = ReservedZero::<Bits::<{w}>>::unpack(&src); assert!(z.is_ok(), "reserved zero refused input"); let z = z.unwrap();
  let o = ReservedOne::<Bits::<{w}>>::unpack(&src); assert!(o.is_ok(), "reserved one refused input"); let o = o.unwrap();
  assert!(z == Default::default() && o == Default::default(), "reserved value depends on the input");
  let a = z.pack().unwrap(); let b = o.pack().unwrap();
  assert!(a[..].len() == {n} && b[..].len() == {n});
  let tail = {L.ones(w - 8 * (n - 1)):#x}u8;
  ok &= a[..][0] & tail == 0 && b[..][0] & tail == tail;
  let mut i = 1; while i < {n} {{ ok &= a[..][i] == 0 && b[..][i] == 0xff; i += 1; }}
  assert!(ok, "reserved Bits<{w}> packs wrong bits");
  assert!(<ReservedZeroes<Bits::<{w}>> as PackedStructInfo>::packed_bits() == {w} && <ReservedOnes<Bits::<{w}>> as PackedStructInfo>::packed_bits() == {w});
}}
"""
        fns.append(f"r::alone{w}")
    c = K.Crate("C07", "alone"); c.add_mod("r", txt)
    for i in range(0, len(fns), 16): c.add_harness(f"h{i}", fns[i:i+16])
    K.decide(c, res, "reserved types alone, every width 1..255")
    res.functions += ["ReservedBits<V,B>::{pack,unpack,packed_bits}", "derive output around reserved fields"]

# ---------------------------------------------------------------- C14
def c14(res):
    rng = random.Random(SEED * 31337 + 9)
    st = []
    F = L.Field
    def add(name, fields, nbytes, sattrs): st.append(L.Struct(name, fields, nbytes, sattrs))
    M, B = 'bit_numbering="msb0"', 'bit_numbering="lsb0"'
    # every position form, bits and bytes, decimal and hex, at several places; neighbour field shows it does not spread
    k = 0
    for a, b in [(0, 0), (0, 6), (3, 3), (5, 12), (9, 24), (16, 17), (10, 41), (2, 33), (26, 26), (15, 16)]:
        w = b - a + 1
        n = (b + 8) // 8 + 1
        forms = [f"{a}:{b}", f"{a}..={b}", f"{a}..{b+1}", f"{b}:{a}", f"{b}..={a}", f"{a:#x}:{b:#x}", f" {a} : {b} ", f"0X{a:x}..{b+1:#x}", f"{a} ..= {b}"]
        if a == b: forms += [f"{a}", f"{a:#x}", f" {a} "]
        for f in forms:
            k += 1
            add(f"P{k}", [F("a", L.Int(w, signed=k % 2 == 0, lsb=k % 3 == 0), a, [f'bits="{f}"', f'endian="{"lsb" if k % 3 == 0 else "msb"}"'])], n, [M, f'size_bytes="{n}"'])
            lo, hi = n*8-1-b, n*8-1-a                      # the same declaration text under lsb0
            add(f"Q{k}", [F("a", L.Int(w, signed=k % 2 == 1, lsb=k % 3 == 1), lo, [f'bits="{f}"', f'endian="{"le" if k % 3 == 1 else "be"}"'])], n, [B, f'size_bytes="{n:#x}"'])
    for a, b in [(0, 0), (1, 1), (0, 1), (1, 2), (2, 5), (0, 7), (3, 3), (9, 10)]:
        w = 8 * (b - a + 1); n = b + 2
        forms = [f"{a}:{b}", f"{a}..={b}", f"{b}:{a}", f"{b}..={a}", f"{a:#x}:{b:#x}"]
        if a == b: forms += [f"{a}", f"{a:#x}"]
        for f in forms:
            k += 1
            add(f"P{k}", [F("a", L.Int(w, lsb=k % 3 == 0), 8*a, [f'bytes="{f}"', f'endian="{"lsb" if k % 3 == 0 else "msb"}"'])], n, [M, f'size_bytes="{n}"'])
            add(f"Q{k}", [F("a", L.Int(w, lsb=k % 3 == 1), 8*(n-1-b), [f'bytes="{f}"', f'endian="{"le" if k % 3 == 1 else "be"}"'])], n, [B, f'size_bytes="{n}"'])
    # open-ended starts: width from the type, from size_bits or from size_bytes
    for s in [0, 1, 3, 8, 13, 17, 24]:
        for w, attr in [(3, 'size_bits="3"'), (8, None), (8, 'size_bytes="1"'), (16, None), (13, 'size_bits="0xd"'), (24, 'size_bytes="3"'), (40, 'size_bytes="5"')]:
            for form in ([f"{s}..", f"{s}:", f"{s:#x}.."] if (s + w) % 3 == 0 else [f"{s}.."] if (s + w) % 3 == 1 else [f"{s}:"]):
                k += 1
                leaf = L.Int(w, signed=k % 2 == 0, lsb=k % 2 == 1, native=(attr is not None and k % 3 != 0) or (attr is None and k % 3 == 0))
                n = (s + w + 7) // 8
                fs = [F("a", leaf, s, [f'bits="{form}"'] + ([attr] if attr else []))]
                # the next field follows automatically
                if k % 2: fs.append(F("b", L.Int(5), s + w, [])); n = (s + w + 5 + 7) // 8
                add(f"S{k}", fs, n, [M, f'size_bytes="{n}"', f'endian="{"lsb" if leaf.lsb else "msb"}"'])
                if s % 8 == 0:
                    for bf in ([f"{s//8}..", f"{s//8}:", f"{s//8:#x}:", f"{s//8:#X}.."][(w + s // 8) % 2::2]):
                        k += 1
                        add(f"S{k}", [F("a", leaf, s, [f'bytes="{bf}"'] + ([attr] if attr else []))], (s + w + 7)//8, [M, f'size_bytes="{(s+w+7)//8}"', f'endian="{"le" if leaf.lsb else "be"}"'])
    # automatic placement, with and without numbering mode and explicit size
    for i in range(q(20, 80)):
        p, fs = 0, []
        first = rng.choice([0, 0, 0, 5, 9])
        p = first
        for j in range(rng.randint(2, 5)):
            x = rng.random()
            if x < .15: leaf, at = L.Bool(1), []
            elif x < .3: leaf, at = L.Res(rng.choice([1, 3, 8, 12]), rng.random() < .5), []
            elif x < .45:
                e = L.Arr(L.Int(rng.choice([3, 8, 12])), rng.choice([2, 3])); leaf, at = e, rng.choice([[], [f'element_size_bits="{e.elem.w}"']] + ([[f'element_size_bytes="{e.elem.w//8}"']] if e.elem.w == 8 else []))
            elif x < .6:
                w = rng.choice([3, 4, 7]); leaf, at = L.Enum("EnA", w), ['ty="enum"', f'size_bits="{w}"']
            else:
                w = rng.choice([2, 5, 8, 11, 16, 24, 32, 33])
                native = rng.random() < .4
                leaf = L.Int(w, rng.random() < .5, rng.random() < .5, native)
                at = ([f'size_bits="{w}"'] if native and w not in (8, 16, 32, 64) else []) + ([] if w <= 8 else [f'endian="{"lsb" if leaf.lsb else "msb"}"'])
                if w % 8 == 0 and rng.random() < .3: at.append(f'size_bytes="{w//8}"')
            lf = leaf.elem if isinstance(leaf, L.Arr) else leaf
            if isinstance(leaf, L.Arr) and lf.w > 8: at = at + [f'endian="{"lsb" if lf.lsb else "msb"}"']
            pos = []
            if j == 0 and first: pos = [rng.choice([f'bits="{first}.."', f'bits="{first}:"'])]
            elif j > 0 and rng.random() < .3:
                p += rng.randint(0, 7)
                pos = [f'bits="{p}.."'] if rng.random() < .5 else [f'bits="{p}:{p+leaf.w-1}"']
            at = pos + at; rng.shuffle(at)
            fs.append(F(f"f{j}", leaf, p, at)); p += leaf.w
        sat = []
        if first or any("bits=\"" in a and "size" not in a for f in fs for a in f.attrs) or rng.random() < .4: sat.append(M)
        n = (p + 7) // 8
        if p % 8 or rng.random() < .5:
            n += rng.choice([0, 0, 1]); sat.append(f'size_bytes="{n}"')
        add(f"A{i}", fs, n, sat)
    # automatic placement follows the previous declaration, not the furthest one
    for i in range(q(12, 60)):
        hi = rng.choice([16, 24, 40, 100]); w = rng.choice([3, 5, 8]); lo = rng.randint(0, 3); w2 = rng.choice([2, 3, 4]); n = hi // 8 + 2
        fs = [F("a", L.Int(8), hi, [f'bits="{hi}:{hi+7}"']), F("b", L.Int(w2), lo, [rng.choice([f'bits="{lo}..={lo+w2-1}"', f'bits="{lo}.."'])]), F("c", L.Int(w), lo + w2, [])]
        if rng.random() < .5: fs.append(F("d", L.Bool(1), lo + w2 + w, []))
        if rng.random() < .5: fs.insert(1, F("e", L.Int(6), hi - 8 + 2, [f'bits="{hi-6}:{hi-1}"'])) if lo + w2 + w < hi - 6 else None
        add(f"B{i}", fs, n, [M, f'size_bytes="{n}"'])
    # byte order: field attribute against default, all spellings
    for d in (None, "msb", "be", "lsb", "le", "MSB", "Le"):
        for f in (None, "msb", "be", "lsb", "le", "LSB", "BE"):
            if d is None and f is None: continue
            eff = (f or d).lower() in ("lsb", "le")
            k += 1
            w = [12, 16, 24, 31, 64, 9][k % 6]; s = k % 5
            n = (s + w + 7 + 8) // 8 + 1
            fs = [F("a", L.Int(w, native=k % 2 == 0, lsb=eff), s, [f'bits="{s}:{s+w-1}"'] + ([f'endian="{f}"'] if f else [])),
                  F("b", L.Int(6, native=k % 2 == 1), s + w, [f'bits="{s+w}:{s+w+5}"'])]
            if d: fs.append(F("c", L.Int(9, lsb=d.lower() in ("lsb", "le")), s + w + 6, [f'bits="{s+w+6}.."'])); n = (s + w + 15 + 7) // 8
            if d and k % 2: fs[1].attrs.append(f'endian="{f or "lsb"}"')
            add(f"E{k}", fs, n, [M, f'size_bytes="{n}"'] + ([f'endian="{d}"'] if d else []))
    for i, (nm, w) in enumerate([("EnW", 11), ("EnD", 20), ("EnQ", 40), ("EnS", 13), ("EnL", 64)]):
        for d in (False, True):
            for f in (None, False, True):
                eff = d if f is None else f
                leaf = L.Enum(nm, w, eff, catch=(i + d) % 2 == 0)
                add(f"EE{i}{int(d)}{f}", [F("a", leaf, i, ['ty="enum"', f'bits="{i}..={i+w-1}"'] + ([] if f is None else [f'endian="{"lsb" if f else "msb"}"']))], (i+w+7)//8,
                    [M, f'endian="{"lsb" if d else "msb"}"', f'size_bytes="{(i+w+7)//8}"'])
    # one attribute per name/value pair, other attributes in between, array lengths in every notation
    for i, (n, t) in enumerate([(3, "3"), (3, "0x3"), (2, "2usize"), (4, "0b100"), (5, "0o5"), (3, "0_3"), (10, "1_0"), (4, "0x4_usize")]):
        for w in (3, 12):
            lsb = (i + w) % 2 == 0; e = L.Arr(L.Int(w, lsb=lsb), n, t); p = i % 5
            fs = [F("a", e, p, [f'bits="{p}..={p+e.w-1}"' if i % 2 else f'element_size_bits="{w}"', f'endian="{"lsb" if lsb else "msb"}"']), F("b", L.Int(11, lsb=not lsb), p + e.w, ['endian="%s"' % ("msb" if lsb else "lsb")])]
            if not i % 2: fs[0].attrs.insert(rng.choice([0, 1, 2]), f'bits="{p}:"')
            nb = (p + e.w + 11 + 7) // 8
            add(f"Y{i}_{w}", fs, nb, [rng.choice([M, 'bit_numbering="MSB0"', 'bit_numbering="Msb0"']), f'size_bytes="{nb}"', f'endian="{"msb" if lsb else "lsb"}"'])
            for f in fs: f.split = i % 3 != 2
            st[-1].split = i % 3 != 1; rng.shuffle(st[-1].sattrs)
    for i, w in enumerate((9, 14, 24, 50)):
        add(f"YL{i}", [F("a", L.Int(w, lsb=i % 2 == 0, native=True), 64 - 5 - w, [f'endian="{"LE" if i % 2 == 0 else "Be"}"', f'bits="5..={4+w}"']), F("b", L.Enum("EnW", 10 if w < 40 else 9, lsb=i % 2 == 1), 0, ['ty="enum"', f'bits="{63}:{54 if w < 40 else 55}"'])], 8,
            [f'endian="{"LSB" if i % 2 else "MSB"}"', 'size_bytes="0x8"', rng.choice(['bit_numbering="LSB0"', 'bit_numbering="Lsb0"', B])])
        for f in st[-1].fields: f.split = True
        st[-1].split = True
    c, d = crate_of("C14", "forms", st, ["pack"] if TIER == "quick" else ["pack", "unpack"], group=8)
    K.decide(c, res, "attribute forms", describe=d)
    res.functions += ["derive output pack() of each declaration; parse_position_val, parse_num, range_in_order, get_bits_range, get_field_mid_positioning, parse_reg_field, parse_struct reached through it"]
    known_exclusive_bytes(res)

def known_exclusive_bytes(res):
    """Exclusive byte ranges: listed finding.  Each form is compiled alone and compared with what it denotes."""
    import native as N
    kf = findings("C14")
    cases = [("bytes-excl-0..1", "0..1", 8, 0), ("bytes-excl-0..2", "0..2", 16, 0), ("bytes-excl-1..3", "1..3", 16, 8), ("bytes-excl-2..6", "2..6", 32, 16)]
    got = N.probe("C14", "exclusive", [(key, f'#[derive(PackedStruct)] #[packed_struct(bit_numbering="msb0", size_bytes="8", endian="msb")] pub struct S {{ #[packed_field(bytes="{t}")] a: u{w} }}\n'
            f'fn main() {{ let s = S {{ a: u{w}::MAX }}; let p = s.pack().unwrap(); let v = u64::from_be_bytes(p); let want: u64 = ((u{w}::MAX as u64) << {64-w}) >> {st}; assert_eq!(v, want); }}') for key, t, w, st in cases])
    for key, t, w, st in cases:
        res.evaluations += 1; res.nontrivial += 1
        ok, why = got[key]
        if ok: continue
        if key in kf: res.known.append((key, kf[key]))
        else: res.violate(f'bytes="{t}" does not denote bits {st}..={st+w-1}', why, True)

# ---------------------------------------------------------------- C16
def c16(res):
    rng = random.Random(SEED * 4099 + 21)
    st, aux, cus = [], [], []
    # inner structures, all of whole bytes
    I = []
    I.append(L.mk("Na", [(L.Int(3), 0), (L.Bool(), 3), (L.Int(4, True), 4)], 1, rng))
    I.append(L.mk("Nb", [(L.Int(11, True, True), 0), (L.Enum("EnF", 5), 11)], 2, rng))
    I.append(L.mk("Nc", [(L.Int(24, False, True), 0), (L.Arr(L.Int(4), 2), 24)], 4, rng))
    # reserved padding in front, right-aligned payload: may be nested in fewer bits
    T1 = L.mk("Nt", [(L.Res(4), 0), (L.Bool(), 4), (L.Int(2), 5), (L.Bool(), 7)], 1, rng)
    T2 = L.mk("Nu", [(L.Res(5), 0), (L.Int(10, True), 5), (L.Bool(), 15)], 2, rng)
    I += [T1, T2]
    D2 = L.mk("Nd", [(L.Nested(I[0]), 3), (L.Arr(L.Nested(T1, 4), 3), 11), (L.Int(1), 23)], 3, rng)
    D3 = L.mk("Ne", [(L.Int(5), 0), (L.Nested(D2), 5), (L.Nested(I[1]), 29), (L.Int(3), 45)], 6, rng)
    I += [D2, D3]
    # 33 and 40 bytes, nested unaligned
    W33 = L.mk("Nw", [(L.Arr(L.Int(8, native=True), 33), 0)], 33, rng)
    W40 = L.mk("Nx", [(L.Int(64, True), 8 * i) if i % 8 == 0 else None for i in range(0, 40, 8)], 40, rng)
    aux = I + [W33, W40]
    cus = [L.Custom(w) for w in (3, 5, 10, 13, 20, 27, 45)]
    k = 0
    def add(items, lsb0=None, default=None, extra=0):
        nonlocal k; k += 1
        n = (max(s + x.w for x, s in items) + 7) // 8 + extra
        st.append(L.mk(f"O{k}", items, n, rng, lsb0=(k % 3 == 0) if lsb0 is None else lsb0, default=default, order=rng.choice([None, "rev"])))
    for off in range(8):
        for s in I:
            if TIER == "quick" and s in (D3,) and off % 3: continue
            it = [(L.Nested(s), off + 8 * (off % 2))]
            if off: it.append((L.Int(min(off, 5)), 0))
            add(it)
        add([(L.Nested(T1, 4), off), (L.Nested(T2, 11), off + 4), (L.Int(2), off + 15)])
        for cu in cus:
            if TIER == "quick" and (off + cu.w) % 2: continue
            add([(cu, off), (L.Int(3), off + cu.w)])
    for off in ((1, 4, 7) if TIER == "quick" else range(8)):
        add([(L.Nested(W33), off), (L.Int(2), off + 33 * 8)])
        add([(L.Nested(W40), off), (L.Int(2), off + 40 * 8)])
    # arrays: element type x count x offset
    elems = [L.Int(1), L.Int(3, True), L.Int(4), L.Int(5, True, False, True), L.Int(7), L.Int(8, False, False, True), L.Int(9, True, True), L.Int(12, False, False, True),
             L.Int(12, False, True), L.Int(16, True, True, True), L.Int(24, False, True), L.Int(32, True, False, True), L.Int(33, False, True), L.Bool(), L.Bool(2), L.Enum("EnA", 4), L.Enum("EnN", 3), L.Enum("EnW", 11, True),
             L.Enum("EnA", 5, catch=True), L.Nested(I[0]), L.Nested(T1, 4), L.Nested(T1, 6), L.Nested(T2, 11), L.Nested(I[1]), cus[0], cus[2], cus[4]]
    for i, e in enumerate(elems):
        for n in ((2, 3, 5) if TIER != "quick" else (rng.choice([2, 3]), rng.choice([4, 5, 7]) if e.w <= 12 else 2)):
            a = L.Arr(e, n); off = rng.randint(0, 9)
            add([(a, off), (L.Int(3), off + a.w)], default=rng.choice([None, True, False]))
    add([(L.Arr(L.Int(8, native=True), 1), 3)]); add([(L.Arr(L.Int(12), 1), 5)])
    add([(L.Arr(L.Int(8, native=True), 40), 4)], lsb0=True)
    # field names must not matter, however the generated code names its own variables
    for arr, kk in ((L.Arr(L.Int(5), 3), L.Int(4, True)), (L.Arr(L.Bool(), 4), L.Enum("EnF", 5)), (L.Arr(L.Nested(I[0]), 2), L.Int(8, native=True))):
        add([(arr, 1), (kk, 1 + arr.w), (L.Int(7), 1 + arr.w + kk.w), (L.Int(9, False, True), 8 + arr.w + kk.w)])
        for f, nm in zip(sorted(st[-1].fields, key=lambda f: f.start), ["a", "a_0", "src", "a_1"]): f.name = nm
    pool = ["r#type", "r#loop", "größe", "src", "packed", "target", "bytes", "result", "b", "i", "value", "s", "out", "ok", "err", "self_", "unpacked", "res", "field", "p", "bits", "integer", "primitive"]
    for x in st[-14:-3]:
        for f, nm in zip(x.fields, rng.sample(pool, len(x.fields))): f.name = nm
    c, d = crate_of("C16", "compose", st if TIER != "quick" else [x for i, x in enumerate(st) if i % 2 == SEED % 2 or i >= len(st) - 24], ["pack", "unpack"], group=4, aux=aux, deps=cus)
    K.decide(c, res, "arrays and nested structures", describe=d)
    # [u8; N] itself
    txt = "".join(f"pub fn arr{n}() {{ let a: [u8; {n}] = nd::any(); let p = PackedStruct::pack(&a).unwrap(); assert!(p == a, \"[u8;{n}] pack\"); let u = <[u8; {n}] as PackedStruct>::unpack(&a).unwrap(); assert!(u == a, \"[u8;{n}] unpack\"); assert!(<[u8; {n}] as PackedStructInfo>::packed_bits() == {8*n}); }}\n" for n in range(0, 17))
    c = K.Crate("C16", "bytes"); c.add_mod("a", txt); c.add_harness("h_bytes", [f"a::arr{n}" for n in range(17)])
    K.decide(c, res, "[u8; N] as a packable type, N = 0..16")
    res.functions += ["derive output pack()/unpack() of each nested/array declaration", "[u8; N]::{pack,unpack,packed_bits}", "parse_field (array expansion) reached through the derive"]
    # listed finding: a structure of partial bytes is left-aligned, a nested field takes the right-aligned bits
    import native as N
    kf = findings("C16")
    decl = lambda b: (f'#[derive(PackedStruct, Clone, Debug, PartialEq)] #[packed_struct(bit_numbering="msb0")] pub struct I {{ #[packed_field(bits="0..={b-1}", endian="msb")] a: Integer<u{L.cls(b)}, Bits::<{b}>> }}\n'
            f'#[derive(PackedStruct, Clone, Debug, PartialEq)] #[packed_struct(bit_numbering="msb0", size_bytes="4")] pub struct O {{ #[packed_field(bits="3..={2+b}")] a: I }}\n'
            f'fn main() {{ for v in [1u{L.cls(b)}, {L.ones(b)}, {1 << (b-1)}] {{ let o = O {{ a: I {{ a: v.into() }} }}; assert_eq!(O::unpack(&o.pack().unwrap()).unwrap(), o); }} }}')
    cases = [(f"partial-nested-{b}", b) for b in (4, 7, 10, 13)]
    got = N.probe("C16", "partial", [(key, decl(b)) for key, b in cases])
    for key, b in cases:
        res.evaluations += 1; res.nontrivial += 1
        ok, why = got[key]
        if ok: continue
        if key in kf: res.known.append((key, kf[key]))
        else: res.violate(f"nested structure of {b} bits is not rebuilt from its own bits", why, True)
