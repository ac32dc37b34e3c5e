"""Contracts of the debug display (C18): the bit formatter, the dumps, the field table, for every structure."""
from vunits import *
from venum import ref_loops
from vglue import pushes, shape

FMT = """
use vstd::string::*;
#[derive(Debug)] pub struct FmtError;
pub mod fmt { use super::*; pub type Result = core::result::Result<(), FmtError>; }
#[verifier::external_body] pub struct Formatter { n: u8 }
/// what one byte looks like in a dump: functions of the byte alone
pub uninterp spec fn decimal(b: u8) -> Seq<char>;
pub uninterp spec fn hexadecimal(b: u8) -> Seq<char>;
pub uninterp spec fn binary(b: u8) -> Seq<char>;
impl Formatter { /* everything written so far */ pub uninterp spec fn out(&self) -> Seq<char>;
  #[verifier::external_body] fn write_str(&mut self, s: &str) -> (r: fmt::Result) ensures r.is_ok() ==> final(self).out() == old(self).out() + s@ { unimplemented!() }
  #[verifier::external_body] fn write_decimal(&mut self, b: &u8) -> (r: fmt::Result) ensures r.is_ok() ==> final(self).out() == old(self).out() + decimal(*b) { unimplemented!() }
  #[verifier::external_body] fn write_hexadecimal(&mut self, b: &u8) -> (r: fmt::Result) ensures r.is_ok() ==> final(self).out() == old(self).out() + hexadecimal(*b) { unimplemented!() }
  #[verifier::external_body] fn write_binary(&mut self, b: &u8) -> (r: fmt::Result) ensures r.is_ok() ==> final(self).out() == old(self).out() + binary(*b) { unimplemented!() } }
"""
FMT_NOTE = "core::fmt: a successful write_str appends its text; how `write!` renders one number, one name or one row is an uninterpreted function of the format string's kind and its arguments (compared natively on the display battery)"
NUMBERS = {'"{}"': "decimal", '"0x{:X}"': "hexadecimal", '"0x{:x}"': "hexadecimal", '"{:#X}"': "hexadecimal", '"0b{:08b}"': "binary", '"{:#010b}"': "binary"}
def written(g, sink):
    """write!(f, LIT, x)  ->  f.write_KIND(x)"""
    b, i = g.body, 0
    while i < len(b):
        if b[i:i+3] == ["write", "!", "("]:
            e = X.close_of(b, i + 2); a = split_args(b[i+3:e])
            if len(a) != 3 or a[1][0] not in NUMBERS or a[0] != [sink]: raise Lost("another format string")
            b[i:e+1] = [sink, ".", "write_" + NUMBERS[a[1][0]], "("] + a[2] + [")"]; g.rule("`write!(f, LIT, x)` of one byte is f.write_decimal/hexadecimal/binary(x), by the literal")
        i += 1
def taken_loops(g):
    """for (i, x) in E.iter().enumerate().take(N)  ->  index loop over 0..min(N, E.len())"""
    b, i = g.body, 0
    while i < len(b):
        if b[i] == "for" and b[i+1] == "(" and b[i+3] == "," and b[i+5:i+7] == [")", "in"]:
            e = i + 7
            while b[e] != "{":
                if b[e] in ("(", "["): e = X.close_of(b, e)
                e += 1
            m = re.match(r"^(.*?) \. iter \( \) \. enumerate \( \) \. take \( (.*) \)$", " ".join(b[i+7:e]))
            if m:
                E, N = m.group(1).split(" "), m.group(2).split(" ")
                b[i:e+1] = ["for", b[i+2], "in", "0", "..", "min_usize", "("] + N + [","] + E + [".", "len", "(", ")", ")", "{", "let", b[i+4], "=", "&"] + E + ["[", b[i+2], "]", ";"]
                g.rule("`for (i, x) in v.iter().enumerate().take(n)` is written as an index loop over 0..min(n, v.len())")
        i += 1
    g.enumerate_loops()
def bits_fmt():
    u = Unit("bits_fmt"); f = src(RT + "debug_fmt.rs"); u.trusted += [FMT_NOTE]
    h, b = f.block("struct", "DebugBinaryByteSlice")
    if not all(t in text(b) for t in ("bits : & 'a Range < usize >", "slice : & 'a [ u8 ]")): raise Lost("DebugBinaryByteSlice has other fields")
    u.text(BITS + FMT + """
pub struct DebugBinaryByteSlice<'a> { pub bits: &'a Range<usize>, pub slice: &'a [u8] }
pub open spec fn msb_bit(s: Seq<u8>, p: int) -> bool { bit(s, p) }
pub open spec fn digits(s: Seq<u8>, from: int, n: int) -> Seq<char> { Seq::new(n as nat, |k: int| if bit(s, from + k) { '1' } else { '0' }) }
""")
    hh, bb = f.impl(r"Binary for DebugBinaryByteSlice")
    u.text("impl<'a> DebugBinaryByteSlice<'a> {")
    def go():
        g = f.fn("fmt", bb)
        g.body = [x for x in g.body]
        L = [{"kw": "for", "var": 1, "inv": "invariant self.bits.start <= self.bits.end < 8 * self.slice@.len(), self.slice@.len() <= isize::MAX, fmt.out() =~= old(fmt).out() + digits(self.slice@, self.bits.start as int, @i - self.bits.start),",
              "start": "broadcast use bits; let ghost o__ = fmt.out(); proof { reveal_strlit(\"0\"); reveal_strlit(\"1\"); assert(@i / 8 < self.slice@.len()); }", "end": "proof { let y = self.slice@[@i as int / 8]; let w = @i as int; let j = 7 - w % 8; lemma_test_bit(y, j as usize); lemma_test_bit_at(y, w as usize); assert(msb_bit(self.slice@, w) == b8(y, j)); assert(fmt.out() =~= o__.push(if msb_bit(self.slice@, w) { '1' } else { '0' })); assert(digits(self.slice@, self.bits.start as int, w + 1 - self.bits.start) =~= digits(self.slice@, self.bits.start as int, w - self.bits.start).push(if msb_bit(self.slice@, w) { '1' } else { '0' })); }"}]
        return g, """fn fmt(&self, fmt: &mut Formatter) -> (r: fmt::Result) requires self.bits.start <= self.bits.end < 8 * self.slice@.len(), self.slice@.len() <= isize::MAX, self.bits.end < usize::MAX ensures r.is_ok() ==> final(fmt).out() == old(fmt).out() + digits(self.slice@, self.bits.start as int, self.bits.end - self.bits.start + 1) {
""" + g.annotate("", L) + "}"
    u.fn("DebugBinaryByteSlice::fmt", go)
    u.text("}")
    u.text("proof fn lemma_test_bit(y: u8, j: usize) requires j < 8 ensures b8(y, j as int) == ((y & (1u8 << j)) == (1u8 << j)) { assert((((y >> (j as u8)) & 1u8) == 1u8) == ((y & (1u8 << j)) == (1u8 << j))) by (bit_vector) requires j < 8; }")
    u.text("""/// the usual ways to look at one bit
proof fn lemma_test_bit_at(y: u8, w: usize) ensures ({ let m = 0x80u8 >> (w % 8); let j = 7 - w as int % 8; b8(y, j) == (y & m != 0) && b8(y, j) == (m & y != 0) && b8(y, j) == (y & m == m) && b8(y, j) == ((y >> ((7 - w % 8) as usize)) & 1 == 1) && b8(y, j) == ((y >> ((7 - w % 8) as usize)) & 1 != 0) && b8(y, j) == (y & (1u8 << ((7 - w % 8) as usize)) != 0) && b8(y, j) == ((y << (w % 8)) & 0x80 != 0) })
{ let k = (w % 8) as u8; let j = (7 - k) as u8; assert(((y >> j) & 1 == 1) == (y & (0x80u8 >> k) != 0) && (y & (0x80u8 >> k) == (0x80u8 >> k)) == (y & (0x80u8 >> k) != 0) && (((0x80u8 >> k) & y) == (y & (0x80u8 >> k))) && ((y >> j) & 1 == 0 || (y >> j) & 1 == 1) && ((y & (1u8 << j)) != 0) == ((y >> j) & 1 == 1) && ((y << k) & 0x80 != 0) == ((y >> j) & 1 == 1)) by (bit_vector) requires k < 8, j == 7 - k;
  assert(0x80u8 >> (w % 8) == 0x80u8 >> k && y >> ((7 - w % 8) as usize) == y >> j && 1u8 << ((7 - w % 8) as usize) == 1u8 << j && y << (w % 8) == y << k) by (bit_vector) requires k as usize == w % 8, j == 7 - k; }""")
    return u
def dumps():
    u = Unit("dumps"); f = src(RT + "debug_fmt.rs"); u.trusted += [FMT_NOTE, "PackedStructDebug's generated methods: contract in units glue and table", "pack() of the displayed value: any type meeting the PackedStruct contract"]
    h, b = f.block("struct", "PackedStructDisplay")
    u.text(MIN + errors() + BYTEARRAY + PACKED + FMT + """
pub trait PackedStructDebug { spec fn rows(&self) -> Seq<char>; spec fn header() -> Seq<char>;
  fn fmt_fields(&self, fmt: &mut Formatter) -> (r: fmt::Result) ensures r.is_ok() ==> final(fmt).out() == old(fmt).out() + self.rows();
  fn packed_struct_display_header() -> (r: &'static str) ensures r@ == Self::header(); }
impl Formatter { #[verifier::external_body] fn write_packing_error(&mut self, e: PackingError) -> (r: fmt::Result) { unimplemented!() } }
""" + f"pub struct PackedStructDisplay<'a, P: 'a> {{ {text(b)} }}\n" + """
pub open spec fn shown(k: int, b: u8) -> Seq<char> { if k == 0 { decimal(b) } else if k == 1 { hexadecimal(b) } else { binary(b) } }
/// the same, written with the separator before every byte but the first
pub open spec fn list_before(o: Seq<char>, k: int, b: Seq<u8>, n: int) -> Seq<char> decreases n { if n <= 0 { o } else { (if n > 1 { list_before(o, k, b, n - 1) + ", "@ } else { list_before(o, k, b, n - 1) }) + shown(k, b[n - 1]) } }
proof fn lemma_before(o: Seq<char>, k: int, b: Seq<u8>, n: int) requires 0 <= n <= b.len() ensures n == b.len() || n == 0 ==> list(o, k, b, n) == list_before(o, k, b, n), 0 < n < b.len() ==> list(o, k, b, n) == list_before(o, k, b, n) + ", "@ decreases n { if n > 0 { lemma_before(o, k, b, n - 1); } }
/// what has been written after o and the first n of the bytes b, separated by commas
pub open spec fn list(o: Seq<char>, k: int, b: Seq<u8>, n: int) -> Seq<char> decreases n { if n <= 0 { o } else { let q = list(o, k, b, n - 1) + shown(k, b[n - 1]); if n != b.len() { q + ", "@ } else { q } } }
pub open spec fn label(k: int) -> Seq<char> { if k == 0 { "Decimal\\r\\n"@ } else if k == 1 { "Hex\\r\\n"@ } else { "Binary\\r\\n"@ } }
pub open spec fn section(o: Seq<char>, k: int, on: bool, b: Seq<u8>) -> Seq<char> { if !on { o } else { list(o + label(k) + "["@, k, b, b.len() as int) + "]"@ + "\\r\\n"@ + "\\r\\n"@ } }
pub open spec fn display(o: Seq<char>, header: Option<Seq<char>>, d: bool, h: bool, bi: bool, rows: Option<Seq<char>>, b: Seq<u8>) -> Seq<char> { let a = match header { Some(t) => o + t + "\\r\\n"@ + "\\r\\n"@, None => o }; let z = section(section(section(a, 0, d, b), 1, h, b), 2, bi, b); match rows { Some(t) => z + t, None => z } }
""")
    hh, bb = f.impl(r"fmt :: Display for PackedStructDisplay")
    def new():
        h2, b2 = f.impl(r"^impl < 'a , P > PackedStructDisplay"); g = f.fn("new", b2)
        return g, "impl<'a, P> PackedStructDisplay<'a, P> { fn new(packed_struct: &'a P) -> (r: Self) ensures r.packed_struct == packed_struct, r.header && r.raw_decimal && r.raw_hex && r.raw_binary && r.fields {\n" + g.annotate("", []) + "} }"
    u.fn("PackedStructDisplay::new", new)
    def go(before=()):
        g = f.fn("fmt", bb); b = g.body; i = 0
        while i < len(b):
            if b[i:i+4] == lex("f.write_fmt("):
                e = X.close_of(b, i + 3); b[i:e+1] = lex("f.write_packing_error(e)"); g.rule("the message of a failed packing is not specified")
            i += 1
        written(g, "f"); taken_loops(g)
        L, flags = [], ("raw_decimal", "raw_hex", "raw_binary")
        for k in range(3): L.append({"kw": "for", "var": 1, "inv": f"invariant l == packed@.len(), f.out() =~= list{'_before' if k in before else ''}(o{k}__ + label({k}) + \"[\"@, {k}, packed@, @i as int),"})
        t = g.annotate("", L)
        joined = ['Decimal\\r\\n[', 'Hex\\r\\n[', 'Binary\\r\\n[']
        lits = ['Decimal\\r\\n', 'Hex\\r\\n', 'Binary\\r\\n', '[', ']', '\\r\\n', ']\\r\\n', '\\r\\n\\r\\n', ']\\r\\n\\r\\n'] + joined
        t = "proof { " + " ".join(f'reveal_strlit("{x}");' for x in lits) + " " + " ".join(f'assert("{x}["@ =~= "{x}"@ + "["@);' for x in lits[:3]) + ' assert("]\\r\\n"@ =~= "]"@ + "\\r\\n"@); assert("\\r\\n\\r\\n"@ =~= "\\r\\n"@ + "\\r\\n"@); assert("]\\r\\n\\r\\n"@ =~= "]"@ + "\\r\\n"@ + "\\r\\n"@); }\n' + t
        for k, w in enumerate(flags + ("fields",)):     # the text written before and after each section
            at = t.find(f"if self . {w}")
            if at < 0 or t.count(f"self . {w} ") != 1: raise Lost("sections in another form")
            step = f"lemma_before(o{k-1}__ + label({k-1}) + \"[\"@, {k-1}, packed@, packed@.len() as int); assert(f.out() =~= section(o{k-1}__, {k-1}, self.{flags[k-1]}, packed@)); " if k else ""
            t = t[:at] + f"proof {{ {step}}} let ghost o{k}__ = f.out();\n" + t[at:]
        return g, """impl<'a, P> PackedStructDisplay<'a, P> where P: PackedStruct + PackedStructDebug { fn fmt(&self, f: &mut Formatter) -> (r: fmt::Result)
 ensures r.is_ok() && self.packed_struct.packed().is_ok() ==> final(f).out() =~= display(old(f).out(), if self.header { Some(P::header()) } else { None }, self.raw_decimal, self.raw_hex, self.raw_binary, if self.fields { Some(self.packed_struct.rows()) } else { None }, self.packed_struct.packed()->Ok_0) {
""" + t + "} }"
    u.fn("PackedStructDisplay::fmt: header, dumps of all bytes in order, table", go, *[lambda w=w: go(w) for w in ((0, 1, 2), (0,), (1,), (2,), (0, 1), (0, 2), (1, 2))])
    return u
def max_of(g, helper="max_usize"):
    """E.iter().map(|x| V).max().unwrap()  ->  the loop keeping the largest V"""
    b, i, n = g.body, 0, 0
    while i < len(b):
        if b[i+1:i+8] == lex(".iter().map(")[0:7] and b[i+8:i+9] == ["|"] and b[i+10] == "|":
            e = X.close_of(b, i + 7)
            if b[e+1:e+9] == lex(".max().unwrap()"):
                E, x, V = b[i], b[i+9], b[i+11:e]
                new = lex("{ let mut m__: Option<usize> = None; for k__ in 0.." + E + ".len() { let " + x + " = &" + E + "[k__]; let v__ = ") + V + lex("; m__ = match m__ { None => Some(v__), Some(o__) => Some(" + helper + "(o__, v__)) }; } unwrap_usize(m__) }")
                b[i:e+9] = new; n += 1; g.rule("`v.iter().map(|x| E).max().unwrap()` is written as the loop keeping the largest E")
        i += 1
    return n
def table_fmt():
    u = Unit("table_fmt"); f = src(RT + "debug_fmt.rs"); u.trusted += [FMT_NOTE, "the padding of a table row is not specified"]
    h, b = f.block("struct", "DebugBitField")
    if sorted(x for x in b if x in ("name", "bits", "display_value", "Cow", "Range", "usize", "str")) != sorted(["name", "Cow", "str", "bits", "Range", "usize", "display_value", "Cow", "str"]): raise Lost("DebugBitField has other fields")
    u.text(BITS + FMT + """
#[verifier::external_body] pub struct Text { t: String }
impl View for Text { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Text { #[verifier::external_body] fn len(&self) -> (r: usize) ensures r < isize::MAX { unimplemented!() } }
pub struct DebugBinaryByteSlice<'a> { pub bits: &'a Range<usize>, pub slice: &'a [u8] }
pub struct DebugBitField { pub name: Text, pub bits: Range<usize>, pub display_value: Text }
fn max_usize(a: usize, b: usize) -> (r: usize) ensures r == if a < b { b } else { a } { if a < b { b } else { a } }
fn unwrap_usize(o: Option<usize>) -> (r: usize) requires o.is_some() ensures r == o->0 { match o { Some(x) => x, None => 0 } }
pub open spec fn msb_bit(s: Seq<u8>, p: int) -> bool { bit(s, p) }
pub open spec fn digits(s: Seq<u8>, from: int, n: int) -> Seq<char> { Seq::new(n as nat, |k: int| if msb_bit(s, from + k) { '1' } else { '0' }) }
/// one row: its text is a function of what it shows
pub uninterp spec fn short_row(name: Seq<char>, value: Seq<char>) -> Seq<char>;
pub uninterp spec fn long_row(name: Seq<char>, first: usize, last: usize, bits: Seq<char>, value: Seq<char>) -> Seq<char>;
impl Formatter { #[verifier::external_body] fn write_short_row(&mut self, name: &Text, value: &Text) -> (r: fmt::Result) ensures r.is_ok() ==> final(self).out() == old(self).out() + short_row(name@, value@) { unimplemented!() }
  #[verifier::external_body] fn write_long_row(&mut self, name: &Text, first: usize, last: usize, bits: &DebugBinaryByteSlice, value: &Text) -> (r: fmt::Result)
    requires bits.bits.start <= bits.bits.end < 8 * bits.slice@.len(), bits.slice@.len() <= isize::MAX, bits.bits.end < usize::MAX   // of the bit formatter
    ensures r.is_ok() ==> final(self).out() == old(self).out() + long_row(name@, first, last, digits(bits.slice@, bits.bits.start as int, bits.bits.end - bits.bits.start + 1), value@) { unimplemented!() } }
pub open spec fn wide(fs: Seq<DebugBitField>) -> bool { exists|j: int| 0 <= j < fs.len() && (#[trigger] fs[j]).bits.end - fs[j].bits.start > 32 }
pub open spec fn row(s: Seq<u8>, fs: Seq<DebugBitField>, k: int) -> Seq<char> { if wide(fs) { short_row(fs[k].name@, fs[k].display_value@) } else { long_row(fs[k].name@, fs[k].bits.start, fs[k].bits.end, digits(s, fs[k].bits.start as int, fs[k].bits.end - fs[k].bits.start + 1), fs[k].display_value@) } }
pub open spec fn rows(o: Seq<char>, s: Seq<u8>, fs: Seq<DebugBitField>, n: int) -> Seq<char> decreases n { if n <= 0 { o } else { rows(o, s, fs, n - 1) + row(s, fs, n - 1) } }
""")
    def go():
        g = f.fn("packable_fmt_fields"); b = g.body
        max_of(g)
        b, i, n = g.body, 0, 0
        while i < len(b):
            if b[i] == "for" and b[i+2:i+4] == ["in", "fields"] and b[i+4] == "{": b[i:i+5] = lex(f"for k__{n} in 0..fields.len() {{ let {b[i+1]} = &fields[k__{n}];"); n += 1; g.rule("`for x in slice` is written as an index loop")
            if b[i:i+3] == ["write", "!", "("]:
                e = X.close_of(b, i + 2); a = split_args(b[i+3:e]); lit = a[1][0]
                if a[0] != ["f"] or not lit.startswith('"') or not lit.endswith('\\r\\n"'): raise Lost("row")
                named = {x[0]: x[2:] for x in a[2:] if len(x) > 2 and x[1] == "="}; rest = [x for x in a[2:] if not (len(x) > 2 and x[1] == "=")]
                holes = [re.split(r"[:}]", h)[0] for h in re.findall(r"\{([^{}]*\}?)", lit)]
                val = lambda k: "&" + " ".join(named[k]) if k in named else None
                extra = "".join("let _ = " + " ".join(x) + "; " for x in rest + [v for k, v in named.items() if k in ("width_bits", "spaces")])
                if holes == ["name", "base_value"]: new = f"{{ {extra} f.write_short_row({val('name')}, {val('base_value')}) }}"
                elif holes == ["name", "bits_start", "bits_end", "binary_value", "dummy", "base_value"] and named["dummy"] == ['""']: new = f"{{ {extra} f.write_long_row({val('name')}, {' '.join(named['bits_start'])}, {' '.join(named['bits_end'])}, {val('binary_value')}, {val('base_value')}) }}"
                else: raise Lost("a row shows something else")
                b[i:e+1] = lex(new); g.rule("`write!(f, LIT, ..)` of a row is f.write_short_row/long_row of the arguments its placeholders name, in order; width and padding arguments are evaluated and dropped")
            i += 1
        b = g.body; i = 0
        g.subst("x.bits.len()", "range_len(&x.bits)", "Range::len is range_len"); g.subst("field.bits.len()", "range_len(&field.bits)", "Range::len is range_len")
        req = "(forall|j: int| 0 <= j < fields@.len() ==> (#[trigger] fields@[j]).bits.start <= fields@[j].bits.end < 8 * packed_bytes@.len() && fields@[j].bits.end < usize::MAX), packed_bytes@.len() <= isize::MAX"
        M = [{"kw": "for", "var": 1, "inv": "invariant (@i > 0) == m__.is_some(), @i > 0 ==> m__->0 < isize::MAX,"},
             {"kw": "for", "var": 1, "inv": f"invariant {req}, (@i > 0) == m__.is_some(), forall|j: int| 0 <= j < @i ==> (#[trigger] fields@[j]).bits.end - fields@[j].bits.start <= m__->0, @i > 0 ==> exists|j: int| 0 <= j < @i && (#[trigger] fields@[j]).bits.end - fields@[j].bits.start == m__->0,", "start": "let ghost m0__ = m__;", "end": "proof { if @i > 0 { let j = choose|j: int| 0 <= j < @i && (#[trigger] fields@[j]).bits.end - fields@[j].bits.start == m0__->0; assert(fields@[j].bits.end - fields@[j].bits.start == m0__->0); } assert(fields@[@i as int].bits.end - fields@[@i as int].bits.start == v__); }"}]
        first = [k for k, x in enumerate(b) if x == "m__"]
        if b[b.index("max_field_length_name") - 1] == "let" and b.index("max_field_length_name") > b.index("max_bit_width"): M.reverse()
        both = f"invariant {req}, fields@.len() > 0, max_field_length_name < isize::MAX, forall|j: int| 0 <= j < fields@.len() ==> (#[trigger] fields@[j]).bits.end - fields@[j].bits.start <= max_bit_width, (max_bit_width > 32) == wide(fields@), f.out() == rows(old(f).out(), packed_bytes@, fields@, @i as int),"
        ls = g.loops()[2:]; inside = ["write_short_row" in b[k:X.close_of(b, b.index("{", k))] for k in ls]
        if sorted(inside) != [False, True]: raise Lost("one loop per kind of row")
        L = M + [{"kw": "for", "var": 1, "inv": both + (" wide(fields@)," if x else " !wide(fields@),")} for x in inside]
        t = g.annotate("", L)
        k = t.find("if max_bit_width"); 
        if k < 0: raise Lost("width rule")
        t = t[:k] + "proof { if max_bit_width > 32 { let j = choose|j: int| 0 <= j < fields@.len() && (#[trigger] fields@[j]).bits.end - fields@[j].bits.start == max_bit_width; assert(fields@[j].bits.end - fields@[j].bits.start == max_bit_width); assert(wide(fields@)); } assert((max_bit_width > 32) == wide(fields@)); }\n" + t[k:]
        return g, f"fn packable_fmt_fields(f: &mut Formatter, packed_bytes: &[u8], fields: &[DebugBitField]) -> (r: fmt::Result) requires {req} ensures r.is_ok() ==> final(f).out() == rows(old(f).out(), packed_bytes@, fields@, fields@.len() as int) {{\n" + t + "}"
    u.fn("packable_fmt_fields: one row per field, in order, with the field's bits", go)
    return u
TABLE = """
pub struct Rejected;
#[derive(Copy, Clone, PartialEq, Eq, Structural)] pub struct Ident { id: u64 }
pub struct FieldRegular { pub bit_range: core::ops::Range<usize> }
pub enum FieldKind { Regular { ident: Ident, field: Box<FieldRegular> }, Array { ident: Ident, elements: Vec<FieldRegular> } }
pub struct PackStruct { pub fields: Vec<FieldKind> }
/// a field below `src.` or an element of it; also the row's name: that field's name without r#, with the element's number
#[derive(Copy, Clone, PartialEq, Eq, Structural)] pub enum Place { Whole(Ident), Element(Ident, usize) }
pub struct Row { pub name: Place, pub first: usize, pub last: usize, pub value: Place }
#[derive(Copy, Clone)] pub struct Span { pub first: usize, pub last: usize }
#[verifier::external_body] fn syntax<T>(x: T) -> (r: Result<T, Rejected>) ensures r.is_ok() ==> r->Ok_0 == x { unimplemented!() }
pub open spec fn row_of(k: FieldKind, i: int) -> Row { match k { FieldKind::Regular { ident, field } => Row { name: Place::Whole(ident), first: (*field).bit_range.start, last: (*field).bit_range.end, value: Place::Whole(ident) }, FieldKind::Array { ident, elements } => Row { name: Place::Element(ident, i as usize), first: elements@[i].bit_range.start, last: elements@[i].bit_range.end, value: Place::Element(ident, i as usize) } } }
pub open spec fn size_of_kind(k: FieldKind) -> nat { match k { FieldKind::Regular { ident, field } => 1, FieldKind::Array { ident, elements } => elements@.len() } }
pub open spec fn kind_rows(k: FieldKind) -> Seq<Row> { Seq::new(size_of_kind(k), |i: int| row_of(k, i)) }
pub open spec fn all_rows(fs: Seq<FieldKind>, k: int) -> Seq<Row> decreases k { if k <= 0 { Seq::empty() } else { all_rows(fs, k - 1) + kind_rows(fs[k - 1]) } }
"""
def table():
    u = Unit("table"); f = src(CG + "pack_codegen_docs.rs"); d = f.fn("struct_runtime_formatter"); u.trusted += ["a row's name is Ident::unraw's text, with `[i]` for an element (token shape matched; compared natively)", DECL_NOTE]
    u.text(TABLE); b = d.body
    def loop():
        k = seq_at(b, "let mut debug_fields"); k = seq_at(b, "for ", k); o = k
        while b[o] != "{":
            if b[o] in ("(", "["): o = X.close_of(b, o)
            o += 1
        g = X.Fn("rows", ["fn"], b[k:X.close_of(b, o)+1]); bb = g.body; i = 0
        g.subst("&ident.unraw().to_string()", "Place::Whole(*ident)", "a row named after a field is that field's place"); g.subst("ident.unraw().to_string()", "Place::Whole(*ident)", "a row named after a field is that field's place")
        g.subst('format!("{}[{}]", ident.unraw(), i)', "Place::Element(*ident, i)", "a row named after an element is that element's place")
        bb = g.body
        while i < len(bb):
            if bb[i:i+6] == ["syn", "::", "parse_str", "(", "&", "format"]:
                e = X.close_of(bb, i + 3); a = split_args(bb[i+8:X.close_of(bb, i + 7)])
                if len(a) != 3 or a[0] != ['"{}..{}"']: raise Lost("range text")
                bb[i:e+1] = lex("syntax(Span { first: ") + a[1] + lex(", last: ") + a[2] + lex("})"); g.rule('`parse_str(&format!("{}..{}", a, b))` is the range a..b')
            i += 1
        g.subst("syn::ExprRange =", "Span =", "generated ranges are typed by what they hold")
        base = ":: packed_struct :: debug_fmt :: DebugBitField { name : # <n> . into ( ) , bits : # <b> , display_value : format ! ( \"{:?}\" , src . # ident%s ) . into ( ) }"
        pushes(g, "debug_fields", [(base % "", "Row {{ name: {n}, first: {b}.first, last: {b}.last, value: Place::Whole(*ident) }}"), (base % " [ # <i> ]", "Row {{ name: {n}, first: {b}.first, last: {b}.last, value: Place::Element(*ident, {i}) }}")])
        for x in ("ident", "field", "elements"): g.subst("ref " + x, x, "`ref` under a reference pattern is the default")
        ref_loops(g); g.enumerate_loops(); g.body += lex("Ok(debug_fields)")
        n = g.body[1]
        L = [{"kw": "for", "var": 1, "inv": "invariant debug_fields@ =~= all_rows(parsed.fields@, @i as int),", "end": ""},
             {"kw": "for", "var": 1, "inv": f"invariant {n} < parsed.fields@.len(), parsed.fields@[{n} as int] matches FieldKind::Array {{ ident: i__, elements: e__ }} && i__ == *ident && e__@ == elements@, debug_fields@ =~= all_rows(parsed.fields@, {n} as int) + kind_rows(parsed.fields@[{n} as int]).take(@i as int),"}]
        return g, "fn table_rows(parsed: &PackStruct) -> (r: Result<Vec<Row>, Rejected>) ensures r.is_ok() ==> r->Ok_0@ == all_rows(parsed.fields@, parsed.fields@.len() as int) {\n" + g.annotate("let mut debug_fields: Vec<Row> = Vec::new();", L) + "}"
    u.fn("struct_runtime_formatter: every field and element once, in order, with its range and value", loop)
    def whole():
        for w in ("{ [#(#debug_fields),*] }", "let fields = #debug_fields_fn(self); let packed: [u8; #num_bytes] = self.pack()?; ::packed_struct::debug_fmt::packable_fmt_fields(fmt, &packed, &fields)", "let num_fields = debug_fields.len();", "let num_bytes = parsed.num_bytes;", "let display = ::packed_struct::debug_fmt::PackedStructDisplay::new(self); display.fmt(f)"): seq_at(b, w)
        g = X.Fn("fmt_fields", ["fn"], lex("0")); g.rule("the generated fmt_fields is matched literally: it prints the table of these rows and the packed bytes")
        return g, "fn matched() -> (r: usize) ensures r == 0 {\n" + g.annotate("", []) + "}"
    u.fn("struct_runtime_formatter: the assembled impls", whole)
    return u
