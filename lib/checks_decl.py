"""C15: which declarations compile."""
import random, re, os
import layout as L
import kani as K
import native as N
from core import *
from checks_layout import q, ENUM_DECLS

PRE = "use packed_struct::prelude::*; use crate::en::*; use crate::*;"

def decl_attr(st, fields, kw="struct"):
    return f"#[derive(PackedStruct, Clone, Debug, PartialEq)] {('#[packed_struct(' + ', '.join(st) + ')] ') if st else ''}pub struct X {{ {', '.join(fields)} }}"

def fld(name, ty, *attrs): return (f"#[packed_field({', '.join(attrs)})] " if attrs else "") + f"pub {name}: {ty}"
def I(w, s=False): return f"Integer<{'i' if s else 'u'}{L.cls(w)}, packed_bits::Bits::<{w}>>"

def overlaps(rng, count):
    """Twins: a valid declaration, and the same with one field moved onto a bit of another."""
    out = []
    while len(out) < count:
        nb = rng.choice([1, 2, 2, 3, 4, 6, 9, 17])
        s = L.dense("X", rng, nb, gap=.35, kinds=("int", "bool", "enum", "catch", "res"))
        if len(s.fields) < 2: continue
        a, b = rng.sample(range(len(s.fields)), 2)
        fa, fb = s.fields[a], s.fields[b]
        # put fb so that it shares exactly the last / first bit with fa, or lies inside it
        c = [p for p in (fa.end, fa.start - fb.kind.w + 1, fa.start, rng.randint(max(0, fa.start - fb.kind.w + 1), fa.end)) if 0 <= p and p + fb.kind.w <= nb * 8]
        if not c: continue
        p = rng.choice(c)
        lsb0 = any("lsb0" in x.lower() for x in s.sattrs)
        attrs = [x for x in fb.attrs if not x.startswith(("bits=", "bytes="))] + [L.pos_attr(p, fb.kind.w, nb, lsb0, rng)]
        good = s.decl()
        f2 = L.Field(fb.name, fb.kind, p, attrs); fs = list(s.fields); fs[b] = f2
        if not any("size_bytes" in x for x in s.sattrs): st = s.sattrs + [f'size_bytes="{nb}"']
        else: st = s.sattrs
        out.append((f"{fb.name} moved onto bit(s) of {fa.name}", good, L.Struct("X", fs, nb, st).decl()))
    return out

def outside(rng, count):
    out = []
    while len(out) < count:
        nb = rng.choice([1, 2, 3, 5, 8, 20])
        s = L.dense("X", rng, nb, gap=.3, kinds=("int", "bool", "enum", "res"))
        lsb0 = any("lsb0" in x.lower() for x in s.sattrs)
        k = rng.randrange(len(s.fields)); f = s.fields[k]
        over = rng.choice([1, 1, 2, 7, 8, 9, 64])
        if lsb0:      # past the top: lsb0 bit numbers at or above the size
            hi = nb * 8 - 1 + over; lo = hi - f.kind.w + 1
            if lo < 0: continue
            pos = f'bits="{rng.choice([f"{hi}:{lo}", f"{lo}..={hi}", f"{lo}..{hi+1}"])}"'
        else:
            hi = nb * 8 - 1 + over; lo = hi - f.kind.w + 1
            if lo < 0: continue
            pos = f'bits="{rng.choice([f"{lo}:{hi}", f"{lo}..={hi}", f"{lo}.."])}"'
        # keep it alone with the fields it does not touch, so that only the size is wrong
        fs = [g for i, g in enumerate(s.fields) if i != k and g.end < nb * 8 and (lsb0 or g.end < lo) and (not lsb0 or nb * 8 - 1 - g.start < lo)]
        attrs = [x for x in f.attrs if not x.startswith(("bits=", "bytes="))] + [pos]
        if pos.endswith('.."'): attrs = [a for a in attrs if not a.startswith("element_size")] + ([f'element_size_bits="{f.kind.elem.w}"'] if isinstance(f.kind, L.Arr) else [f'size_bits="{f.kind.w}"'])
        g = L.Field(f.name, f.kind, 0, attrs)
        st = s.sattrs if any("size_bytes" in x for x in s.sattrs) else s.sattrs + [f'size_bytes="{nb}"']
        out.append((f"{f.name} ends {over} bit(s) past the structure", L.Struct("X", [*fs, g] if rng.random() < .5 else [g, *fs], nb, st).decl()))
    return out

def far_lsb0():
    out = []
    for nb in (1, 2, 4):
        n = nb * 8
        for lo, hi in [(n, n), (n, n + 7), (n + 8, n + 15), (n - 1, n), (n - 4, n + 3), (n, n + 4), (2 * n, 2 * n + 7)]:
            w = hi - lo + 1
            for pos in (f"{hi}:{lo}", f"{lo}..={hi}"):
                out.append((f"lsb0 bits {pos} of a {nb}-byte structure", decl_attr(['bit_numbering="lsb0"', f'size_bytes="{nb}"'], [fld("a", "bool" if w == 1 else I(w), f'bits="{pos}"')])))
        for by in (f"{nb}", f"{nb}:{nb}", f"{nb+1}:{nb}"): out.append((f"lsb0 bytes {by} of a {nb}-byte structure", decl_attr(['bit_numbering="lsb0"', f'size_bytes="{nb}"', 'endian="msb"'], [fld("a", I(16) if ":" in by and by[0] != by[-1] else I(8), f'bytes="{by}"')])))
    return out

def uneven():
    out = []
    for n, w in [(2, 7), (2, 15), (3, 8), (3, 10), (3, 16), (3, 17), (4, 9), (4, 10), (4, 11), (4, 15), (5, 16), (5, 9), (7, 20), (2, 9), (8, 15), (8, 63), (6, 32), (16, 15), (4, 3), (2, 1), (9, 8)]:
        e = max(1, w // n); nb = (w + 7) // 8 + 1
        for ty in {I(e), "u8" if e <= 8 else "u16", "bool"}:
            en = ['endian="msb"'] if e > 8 else []
            out.append((f"{n} elements in {w} bits", decl_attr(['bit_numbering="msb0"', f'size_bytes="{nb}"'], [fld("a", f"[{ty}; {n}]", f'bits="0..={w-1}"', *en)])))
        out.append((f"{n} elements in {w} bits (lsb0)", decl_attr(['bit_numbering="lsb0"', f'size_bytes="{nb}"', 'endian="lsb"'], [fld("a", f"[{I(e)}; {n}]", f'bits="{w}:1"')])))
    for n, by in [(2, 3), (3, 2), (4, 2), (2, 1)]:
        if (8 * by) % n: out.append((f"{n} elements in {by} bytes", decl_attr(['bit_numbering="msb0"'], [fld("a", f"[{I(8*by//n)}; {n}]", f'bytes="0..={by-1}"', 'endian="msb"')])))
    out.append(("no elements", decl_attr(['bit_numbering="msb0"', 'size_bytes="1"'], [fld("a", "[u8; 0]", 'bits="0..=7"')])))
    return out

def rules(rng):
    out = []
    sz = 'size_bytes="4"'
    for ty, w in [("u8", 8), (I(5), 5), ("bool", 1), (I(13), 13), ("ReservedZero<packed_bits::Bits::<6>>", 6), ("[u8; 2]", 16)]:
        e = ['endian="msb"'] if w > 8 else []
        p = f'bits="{w-1}:0"' if w > 1 else 'bits="0"'
        out.append(("lsb0 without size", decl_attr(['bit_numbering="lsb0"', 'endian="lsb"'], [fld("a", ty, p)])))
        out.append(("lsb0 without a position", decl_attr(['bit_numbering="lsb0"', sz], [fld("a", ty, *e)])))
        esz = "element_size_bits" if ty[0] == "[" else "size_bits"
        n = 8 if ty[0] == "[" else w
        out.append(("lsb0 second field without a position", decl_attr(['bit_numbering="lsb0"', sz], [fld("z", "u8", 'bits="31:24"'), fld("a", ty, f'{esz}="{n}"', *e)])))
        out.append(("lsb0 with an open-ended start", decl_attr(['bit_numbering="lsb0"', sz], [fld("a", ty, 'bits="3.."', f'{esz}="{n}"', *e)])))
        out.append(("position without a numbering mode", decl_attr([], [fld("a", ty, p, *e)])))
        out.append(("position without a numbering mode, sized", decl_attr([sz, 'endian="msb"'], [fld("a", ty, p)])))
        out.append(("open-ended start without a numbering mode", decl_attr([sz], [fld("a", ty, 'bits="0.."', f'{esz}="{n}"', *e)])))
        out.append(("second field positioned without a numbering mode", decl_attr([sz], [fld("z", "u8"), fld("a", ty, 'bits="8.."', f'{esz}="{n}"', *e)])))
        if w % 8 == 0: out.append(("byte position without a numbering mode", decl_attr([], [fld("a", ty, f'bytes="0..={w//8-1}"', *e)])))
    for ty, w in [("u16", 16), ("i16", 16), ("u32", 32), ("i32", 32), ("u64", 64), ("i64", 64), (I(9), 9), (I(13, True), 13), (I(33), 33), (I(64), 64), ("u16", 9), ("i32", 17), ("u64", 33)]:
        out.append(("no byte order", decl_attr(['bit_numbering="msb0"', 'size_bytes="9"'], [fld("a", ty, f'bits="0..={w-1}"')])))
        out.append(("no byte order in lsb0", decl_attr(['bit_numbering="lsb0"', 'size_bytes="9"'], [fld("b", "u8", 'bits="71:64"'), fld("a", ty, f'bits="{w-1}:0"')])))
        out.append(("no byte order, automatic", decl_attr([], [fld("b", "u16", 'endian="msb"'), fld("a", ty, f'size_bits="{w}"'), fld("p", f"ReservedZero<packed_bits::Bits::<{(8-w%8)%8 or 8}>>")])))
        out.append(("no byte order in an array", decl_attr(['bit_numbering="msb0"', 'size_bytes="20"'], [fld("a", f"[{ty}; 2]", f'bits="0..={2*w-1}"')])))
        if w in (16, 9): out.append(("no byte order for an enumeration", decl_attr(['bit_numbering="msb0"', 'size_bytes="9"'], [fld("a", "EnW", f'bits="0..={w+2}"' if w < 16 else 'bits="0..=15"', 'ty="enum"')])))
    out.append(("no byte order for a catch-all", decl_attr(['bit_numbering="msb0"'], [fld("a", "EnumCatchAll<EnS>", 'bits="0..=15"', 'ty="enum"')])))
    out.append(("no byte order for an enumeration array", decl_attr(['bit_numbering="msb0"'], [fld("a", "[EnS; 2]", 'bits="0..=31"', 'ty="enum"')])))
    D = "#[derive(PackedStruct)] #[packed_struct(bit_numbering=\"msb0\")] "
    out += [("generic", D + "pub struct X<T> { #[packed_field(bits=\"0..=7\")] pub a: u8, pub b: core::marker::PhantomData<T> }"),
            ("generic used", D + "pub struct X<T> { #[packed_field(bits=\"0..=7\")] pub a: T }"),
            ("const generic", D + "pub struct X<const N: usize> { #[packed_field(bits=\"0..=7\")] pub a: u8 }"),
            ("lifetime", D + "pub struct X<'a> { #[packed_field(bits=\"0..=7\")] pub a: &'a u8 }"),
            ("tuple structure", D + "pub struct X(#[packed_field(bits=\"0..=7\")] pub u8);"),
            ("tuple structure of two", D + "pub struct X(pub u8, pub u8);"),
            ("unit structure", D + "pub struct X;"), ("enumeration", D + "pub enum X { A, B }"), ("enumeration with data", D + "pub enum X { A { #[packed_field(bits=\"0..=7\")] a: u8 } }"),
            ("union", D + "pub union X { #[packed_field(bits=\"0..=7\")] pub a: u8 }"),
            ("const generic with a default", D + "pub struct X<const N: usize = 3> { #[packed_field(bits=\"0..=7\")] pub a: u8 }"),
            ("generic with a default", D + "pub struct X<T = u8> { #[packed_field(bits=\"0..=7\")] pub a: u8, pub b: core::marker::PhantomData<T> }"),
            ("field attribute on the structure", '#[derive(PackedStruct)] #[packed_field(bit_numbering="msb0")] pub struct X { #[packed_field(bits="0..=7")] pub a: u8 }'),
            ("field attribute before the structure's own", '#[derive(PackedStruct)] #[packed_field(endian="msb")] #[packed_struct(bit_numbering="msb0")] pub struct X { #[packed_field(bits="0..=7")] pub a: u8 }'),
            ("field attribute after the structure's own", D + '#[packed_field(endian="msb")] pub struct X { #[packed_field(bits="0..=7")] pub a: u8 }'),
            ("structure attribute on a field", '#[derive(PackedStruct)] pub struct X { #[packed_struct(bits="0..=7")] pub a: u8 }')]
    W = '#[packed_struct(endian="msb")]'
    for ty, w in [("u8", 8), ("bool", 1), ("[u8; 2]", 16), (I(5), 5), ("ReservedZero<packed_bits::Bits::<6>>", 6), ("En", 8)]:
        e = ""
        if ty == "En": ty, w, e = "EnF", 2, ', ty="enum"'
        p = f'#[packed_field(bits="8..={7+w}"{e})]'
        out += [("structure attribute on a field", D + f'pub struct X {{ #[packed_field(bits="0..=7")] pub a: u8, {x} pub b: {ty} }}') for x in (W + p, p + W)]
    for i in (1, 2, 3, 5, 7, 9, 12, 15, 33): # the first field placed by the macro, with bits left over in the last byte
        en, t = ['endian="msb"'], I(i)
        out += [("partial bytes, first field placed automatically", decl_attr(st, fs)) for st, fs in [(en, [fld("a", t)]), (en, [fld("a", t), fld("b", "u16")]), (en, [fld("a", "u8"), fld("b", t)]), (['bit_numbering="msb0"', *en], [fld("a", "u8"), fld("b", t, f'bits="8..={7+i}"')]), (en, [fld("a", f"[{t}; 3]", f'element_size_bits="{i}"')])]]
    for kind, one in (("bits", "u8"), ("bytes", "[u8; 8]")):
        for p in ("1:2:3", "1..2..3", "0..=1..=2", "7:0:0", "0:7:7", "0..4..7", "0..=3..=7", "0:1:2:3"):
            out.append(("position with more than two bounds", decl_attr(['bit_numbering="msb0"', 'endian="msb"'], [fld("a", one, f'{kind}="{p}"'), fld("z", "u8", 'bits="800..=807"')])))
    return out

def accepted(rng):
    """Well-formed declarations, beyond those the other checks compile."""
    A = []
    for nm in ["src", "packed", "target", "bytes", "result", "res", "unpacked", "self_", "r#type", "r#match", "b", "i", "s", "pack", "unpack", "bits", "ok", "err", "output", "v", "integer", "Upper", "_x", "__y", "a_0", "value"]:
        A.append((f"field named {nm}", decl_attr(['bit_numbering="msb0"', 'endian="lsb"'], [fld("a", "[u8; 2]", 'bits="0..=15"'), fld(nm, "u16", 'bits="16..=31"'), fld("z", I(3), 'bits="32..=34"'), fld("y", I(5), 'bits="35..=39"')])))
    A += [("one bit", decl_attr(['bit_numbering="msb0"'], [fld("a", "bool", 'bits="0"')])),
          ("private fields and documentation", '#[derive(PackedStruct)] #[packed_struct(bit_numbering="msb0", endian="msb")] /// text\n#[allow(dead_code)] struct X { /// a \n #[packed_field(bits="0..=3")] #[allow(unused)] a: Integer<u8, packed_bits::Bits::<4>>, #[packed_field(bits="4..=7")] pub(crate) b: Integer<u8, packed_bits::Bits::<4>> }'),
          ("automatic placement without a numbering mode", decl_attr(['endian="msb"'], [fld("a", "u8"), fld("b", "u16"), fld("c", "i64"), fld("d", "bool"), fld("e", I(7))])),
          ("automatic placement after a position", decl_attr(['bit_numbering="msb0"', 'endian="msb"'], [fld("a", "u8", 'bits="3.."', 'size_bits="8"'), fld("b", I(13)), fld("c", "[u8; 2]", 'element_size_bits="4"')])),
          ("touching fields", decl_attr(['bit_numbering="msb0"'], [fld("b", I(4), 'bits="4..=7"'), fld("a", I(4), 'bits="0..=3"'), fld("c", "bool", 'bits="8"'), fld("d", I(7), 'bits="9..16"')])),
          ("touching fields in lsb0", decl_attr(['bit_numbering="lsb0"', 'size_bytes="2"'], [fld("b", I(4), 'bits="4..=7"'), fld("a", I(4), 'bits="3:0"'), fld("c", "bool", 'bits="8"'), fld("d", I(7), 'bits="15:9"')])),
          ("last bit used", decl_attr(['bit_numbering="msb0"', 'size_bytes="3"'], [fld("a", "bool", 'bits="23"')])),
          ("last bit used in lsb0", decl_attr(['bit_numbering="lsb0"', 'size_bytes="3"'], [fld("a", "bool", 'bits="23"'), fld("b", "bool", 'bits="0"')])),
          ("arrays that divide", decl_attr(['bit_numbering="msb0"', 'endian="msb"'], [fld("a", f"[{I(5)}; 3]", 'bits="0..=14"'), fld("b", "[bool; 9]", 'bits="15..=23"'), fld("c", "[u16; 2]", 'bits="24..=55"'), fld("d", f"[{I(12)}; 2]", 'bits="56..=79"')])),
          ("array of one", decl_attr(['bit_numbering="msb0"'], [fld("a", f"[{I(5)}; 1]", 'bits="0..=4"'), fld("b", "[bool; 3]", 'bits="5..=7"')])),
          ("small fields need no byte order", decl_attr(['bit_numbering="msb0"'], [fld("a", "u8", 'bits="0..=7"'), fld("b", "i8", 'bits="8..=15"'), fld("c", I(8), 'bits="16..=23"'), fld("d", "u8", 'bits="24..=26"'), fld("e", "EnF", 'bits="27..=28"', 'ty="enum"'), fld("f", "[u8; 2]", 'bits="29..=34"')])),
          ("byte arrays need no byte order", decl_attr(['bit_numbering="msb0"'], [fld("a", "[u8; 9]", 'bytes="0..=8"')])),
          ("reserved needs no byte order", decl_attr(['bit_numbering="msb0"'], [fld("a", "ReservedZero<packed_bits::Bits::<40>>", 'bits="0..=39"'), fld("b", "ReservedOnes<packed_bits::Bits::<16>>", 'bits="40..=55"')])),
          ("wide gap", decl_attr(['bit_numbering="msb0"', 'size_bytes="100"'], [fld("a", "u8", 'bits="792..=799"'), fld("b", "bool", 'bits="0"')])),
          *[(f"sized structure, first field of {i} bits placed automatically", decl_attr([f'size_bytes="{(i+7)//8+2}"', 'endian="msb"'], [fld("a", I(i)), fld("b", "u8")])) for i in (1, 5, 7, 8, 13)],
          *[(f"first field of {i} bits positioned", decl_attr(['bit_numbering="msb0"', 'endian="msb"'], fs)) for i in (1, 5, 9) for fs in ([fld("a", I(i), f'bits="0..={i-1}"')], [fld("a", I(i), 'bits="0.."', f'size_bits="{i}"'), fld("b", I(i))])],
          ("other attributes beside ours", '#[derive(PackedStruct)] #[doc = "x"] #[packed_struct(bit_numbering="msb0")] #[allow(dead_code)] #[packed_struct(endian="msb")] pub struct X { #[doc = "y"] #[packed_field(bits="0..=15")] #[allow(unused)] pub a: u16 }'),
          ("size in hexadecimal", decl_attr(['bit_numbering="lsb0"', 'size_bytes="0x10"'], [fld("a", "u8", 'bits="127:120"'), fld("b", "u8", 'bits="0..=0x7"')])),
          ]
    for i, s in enumerate(L.multi(SEED + 15, q(60, 300), prefix="W")): A.append((f"random {i}", s.decl()))
    return A

def compile_set(args, d, cases, timeout=120, tag=''):
    """-> (set of case indices with an error, tool ok, output).  Each case is on one line."""
    f = os.path.join(d, f"set{tag}.rs")
    lines = ["#![allow(warnings)]", "pub mod nd { pub fn any<T>() -> T { panic!() } } fn main() {}", "pub mod en { use packed_struct::prelude::*; use crate::nd; " + ENUM_DECLS.replace("\n", " ") + " }"]
    at = {}
    for i, src in cases:
        src = " ".join(l if "//" not in l else "" for l in src.replace("/// text\n", "").replace("/// a \n", "").splitlines()) if "///" not in src else src
        lines.append(f"pub mod c{i} {{ {PRE} {src} }}".replace("\n", "\n")); 
        for k in range(len(lines), len(lines) + 1): at[sum(x.count("\n") + 1 for x in lines)] = i
    text = "\n".join(lines) + "\n"
    # multi-line cases: map every physical line
    at, n = {}, 1
    for k, x in enumerate(lines):
        for _ in range(x.count("\n") + 1):
            if k >= 3: at[n] = cases[k - 3][0]
            n += 1
    open(f, "w").write(text)
    rc, out, _ = run(["bash", "-c", 'ulimit -v 3000000; exec "$@"', "-", "rustc", f, "--crate-type", "bin", "--emit=metadata", "-o", os.path.join(d, f"set{tag}.rmeta"), "--error-format=short", *args], timeout=timeout)
    bad = {}
    for l in out.splitlines():
        m = re.match(r"\S*set\d*\.rs:(\d+):\d+: error(.*)", l)
        if m and int(m.group(1)) in at: bad.setdefault(at[int(m.group(1))], m.group(2)[:300])
    return bad, rc, out

def c15(res):
    rng = random.Random(SEED * 911 + 15)
    ov = overlaps(rng, q(160, 1200)); ou = outside(rng, q(60, 400))
    rej = [(t, b) for t, g, b in ov] + ou + far_lsb0() + uneven() + rules(rng)
    acc = accepted(rng) + [("twin of: " + t, g) for t, g, b in ov]
    profiles = [("debug", []), ("release", ["--release"])]
    for prof, flags in profiles:
        args, out = N.lib_build("C15", prof, cargo_flags=flags)
        if args is None:
            res.undecided.append("/repo does not build"); res.extra["error"] = True; print(K.errors_of(out)); return
        d = os.path.join(BUILD, "C15", "probe_" + prof)
        bad, rc, out = compile_set(args, d, list(enumerate(s for _, s in acc)))
        res.evaluations += len(acc)
        if rc != 0 and not bad: res.undecided.append("accepted set: " + K.errors_of(out)[-400:]); res.extra["error"] = True; return
        for i, m in list(bad.items())[:8]: res.violate(f"well-formed declaration refused ({acc[i][0]}){m}", f"{acc[i][1]}\n{m}", True)
        left = list(enumerate(s for _, s in rej)); rounds = 0
        res.evaluations += len(rej)
        while left:
            bad, rc, out = compile_set(args, d, left); rounds += 1
            if not bad: break
            left = [(i, s) for i, s in left if i not in bad]
        if left and rc != 0:
            # rustc itself did not survive the set: one declaration at a time
            from concurrent.futures import ThreadPoolExecutor
            def single(c): return c, compile_set(args, d, [c], timeout=20, tag=c[0])
            with ThreadPoolExecutor(8) as ex: rs = list(ex.map(single, left))
            for (i, src), (b, rc, o) in rs:
                if rc != 0 and not b: res.extra.setdefault("compiler_gave_up_on", []).append(src[:300])
            out1 = [c for c, (b, rc, o) in rs if rc == 0]
            left = out1
        kinds = {}
        for i, s in left: kinds.setdefault(rej[i][0], []).append(s)
        for t, ss in list(kinds.items())[:12]: res.violate(f"ill-formed declaration accepted ({prof} build of the macro): {t}" + (f" and {len(ss)-1} more of this kind" if len(ss) > 1 else ""), "\n".join(ss[:3]), True)
        res.backends.append({"backend": f"rustc on the real derive macro ({prof})", "what": f"{len(acc)} declarations that must compile, {len(rej)} that must not", "evaluations": len(acc) + len(rej), "rounds": rounds})
    res.nontrivial = len({s for _, s in acc + rej})
    res.samples = [rej[0][1], ou[0][1], acc[-1][1]]
c15.rule = "one evaluation = one declaration compiled with one build of the current derive macro; non-trivial = distinct declaration text whose acceptance or refusal is fixed by the property"
