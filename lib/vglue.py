"""Contracts of the code that assembles the derived impl (C01, C02, C03, C16) and its debug table (C18): every declaration."""
from vunits import *
from venum import ref_loops

GLUE = """
pub struct Rejected;
#[derive(Copy, Clone, PartialEq, Eq, Structural)] pub struct Ident { id: u64 }
/// a field's width, position, type and wrappers, as parsed; opaque here
#[derive(Copy, Clone, PartialEq, Eq, Structural)] pub struct FieldRegular { id: u64 }
pub enum FieldKind { Regular { ident: Ident, field: Box<FieldRegular> }, Array { ident: Ident, elements: Vec<FieldRegular> } }
pub struct PackStruct { pub fields: Vec<FieldKind> }
/// an expression below `self.`: a field, or an element of an array field
#[derive(Copy, Clone, PartialEq, Eq, Structural)] pub enum Place { Whole(Ident), Element(Ident, usize) }
/// a local of the generated unpack(): numbered by field, or by field and element
#[derive(Copy, Clone, PartialEq, Eq, Structural)] pub enum Local { One(usize), Two(usize, usize) }
#[derive(Copy, Clone)] pub struct Value { pub place: Place, pub field: FieldRegular }
#[derive(Copy, Clone)] pub struct PackStep { pub packed: Value, pub copied: FieldRegular }
#[derive(Copy, Clone)] pub struct UnpackStep { pub target: Local, pub bytes: FieldRegular, pub value: FieldRegular }
pub enum Set { One(Ident, Local), Many(Ident, Vec<Local>) }
pub struct Copies { pub pack: FieldRegular, pub unpack: FieldRegular }
fn pack_bits(field: &FieldRegular) -> (r: Copies) ensures r.pack == *field, r.unpack == *field { Copies { pack: *field, unpack: *field } }
fn pack_field(src: &Place, field: &FieldRegular) -> (r: Value) ensures r.place == *src, r.field == *field { Value { place: *src, field: *field } }
#[verifier::external_body] fn unpack_field(field: &FieldRegular) -> (r: Result<FieldRegular, Rejected>) ensures r.is_ok() ==> r->Ok_0 == *field { unimplemented!() }
#[verifier::external_body] fn syntax<T>(x: T) -> (r: Result<T, Rejected>) ensures r.is_ok() ==> r->Ok_0 == x { unimplemented!() }
/// what the k-th field contributes, in order
pub open spec fn packs(k: FieldKind) -> Seq<PackStep> { match k { FieldKind::Regular { ident, field } => seq![PackStep { packed: Value { place: Place::Whole(ident), field: *field }, copied: *field }], FieldKind::Array { ident, elements } => Seq::new(elements@.len(), |i: int| PackStep { packed: Value { place: Place::Element(ident, i as usize), field: elements@[i] }, copied: elements@[i] }) } }
pub open spec fn unpacks(n: int, k: FieldKind) -> Seq<UnpackStep> { match k { FieldKind::Regular { ident, field } => seq![UnpackStep { target: Local::One(n as usize), bytes: *field, value: *field }], FieldKind::Array { ident, elements } => Seq::new(elements@.len(), |i: int| UnpackStep { target: Local::Two(n as usize, i as usize), bytes: elements@[i], value: elements@[i] }) } }
pub open spec fn all_packs(fs: Seq<FieldKind>, k: int) -> Seq<PackStep> decreases k { if k <= 0 { Seq::empty() } else { all_packs(fs, k - 1) + packs(fs[k - 1]) } }
pub open spec fn all_unpacks(fs: Seq<FieldKind>, k: int) -> Seq<UnpackStep> decreases k { if k <= 0 { Seq::empty() } else { all_unpacks(fs, k - 1) + unpacks(k - 1, fs[k - 1]) } }
/// a field is set from its own local; an array from its elements' own locals, in order
pub open spec fn sets(n: int, k: FieldKind, s: Set) -> bool { match k { FieldKind::Regular { ident, field } => s == Set::One(ident, Local::One(n as usize)), FieldKind::Array { ident, elements } => s is Many && s->Many_0 == ident && s->Many_1@.len() == elements@.len() && forall|i: int| 0 <= i < elements@.len() ==> #[trigger] s->Many_1@[i] == Local::Two(n as usize, i as usize) } }
"""
GLUE_NOTE = "locals of the generated unpack() named by number (`__field_N`, `__field_N_I`) are distinct for distinct numbers; pack_field and unpack_field stand for the conversions they generate (their own contracts: unit conversions)"
def frag(b, i):
    """quote! { .. } at b[i] -> tokens without spaces, index after"""
    return S.quote_at(b, i)
def shape(q, pat):
    """match fragment tokens against a pattern with holes <name>; -> {name: splice}"""
    p = []
    for t in pat.split(" "): p.append(t)
    if len(p) != len(q): raise Lost("a generated fragment has another form")
    out = {}
    for a, t in zip(p, q):
        if a.startswith("<") and len(a) > 1 and a.endswith(">"):
            if out.setdefault(a[1:-1], t) != t: raise Lost("fragment")
        elif a != t: raise Lost("a generated fragment has another form")
    return out
def pushes(g, vec, pats):
    """VEC.push(quote! { .. }) -> VEC.push(<constructor>)"""
    b, i, n = g.body, 0, 0
    while i < len(b):
        if b[i:i+4] == [vec, ".", "push", "("] and b[i+4] == "quote":
            e = X.close_of(b, i + 3); q, z = S.quote_at(b, i + 4)
            if z != e: raise Lost("push")
            for pat, make in pats:
                try: m = shape(q, pat)
                except Lost: continue
                b[i+4:e] = lex(make.format(**m)); n += 1; break
            else: raise Lost(f"a fragment pushed to {vec} has another form")
        i += 1
    if n != len(pats): raise Lost(f"{n} fragments pushed to {vec}")
    g.rule(f"a fragment pushed to `{vec}` is the record of its splices; its other tokens are matched literally")
def names_of(g):
    """syn::parse_str(&format!(..))  ->  places and locals"""
    b, i = g.body, 0
    while i < len(b):
        if b[i:i+6] == ["syn", "::", "parse_str", "(", "&", "format"]:
            e = X.close_of(b, i + 3); o = i + 7; a = split_args(b[o+1:X.close_of(b, o)])
            fmt, args = a[0][0], [" ".join(x) for x in a[1:]]
            if re.match(r'^"__[a-z_]+_\{\}"$', fmt) and len(args) == 1: new = f"syntax(Local::One({args[0]}))"
            elif re.match(r'^"__[a-z_]+_\{\}_\{\}"$', fmt) and len(args) == 2: new = f"syntax(Local::Two({args[0]}, {args[1]}))"
            elif fmt == '"{}[{}]"' and args[0] == "tokens_to_string ( ident )": new = f"syntax(Place::Element(*ident, {args[1]}))"
            else: raise Lost("a generated name has another form")
            b[i:e+1] = lex(new); g.rule("`parse_str(&format!(\"__field_{}\", n))` is the local numbered n, `\"{}[{}]\"` the element of that field")
        i += 1
    g.subst("syn::Ident =", "Local =", "generated names are typed by what they name"); g.subst("syn::ExprIndex =", "Place =", "generated names are typed by what they name")
def glue(prop=None):
    u = Unit("glue"); f = src(CG + "pack_codegen.rs"); d = f.fn("derive_pack"); b = d.body; pk = src(CG + "pack.rs"); u.trusted += [GLUE_NOTE]
    h, e = pk.block("enum", "FieldKind"); u.text(GLUE)
    i = seq_at(b, "let mut reg = |src: &dyn quote::ToTokens, target: &dyn quote::ToTokens, field: &FieldRegular| -> syn::Result<()> {")
    o = i
    while b[o] != "{": o += 1
    e = X.close_of(b, o); body = b[o+1:e]; start = e + 2
    def reg():
        g = X.Fn("reg", ["fn"], body); g.rule("the closure is lifted to a function; the vectors it captures become parameters")
        pushes(g, "pack_fields", [("{ let packed = { # <p> } ; # <c> }", "PackStep {{ packed: {p}, copied: {c} }}")])
        pushes(g, "unpack_fields", [("let # <t> = { let bytes = { # <b> } ; # <v> } ;", "UnpackStep {{ target: *{t}, bytes: {b}, value: {v} }}")])
        return g, """fn reg(pack_fields: &mut Vec<PackStep>, unpack_fields: &mut Vec<UnpackStep>, src: &Place, target: &Local, field: &FieldRegular) -> (r: Result<(), Rejected>)
 ensures r.is_ok() ==> final(pack_fields)@ == old(pack_fields)@.push(PackStep { packed: Value { place: *src, field: *field }, copied: *field }), r.is_ok() ==> final(unpack_fields)@ == old(unpack_fields)@.push(UnpackStep { target: *target, bytes: *field, value: *field }) {
""" + g.annotate("", []) + "}"
    u.fn("derive_pack: one field's packing and unpacking blocks", reg)
    def loop():
        k = seq_at(b, "for (", start); o = k
        while b[o] != "{":
            if b[o] in ("(", "["): o = X.close_of(b, o)
            o += 1
        g = X.Fn("derive_pack", ["fn"], b[k:X.close_of(b, o)+1]); names_of(g)
        # the array arm's two-name pattern and the literals
        pushes(g, "unpack_struct_set", [("# ident : # <t>", "Set::One(*ident, {t})"), ("# ident : [ # ( # <a> ) , * ]", "Set::Many(*ident, {a})")])
        g.subst("reg(ident,", "reg(&mut pack_fields, &mut unpack_fields, &Place::Whole(*ident),", "`ident` below `self.` is that field"); g.subst("reg(&src,", "reg(&mut pack_fields, &mut unpack_fields, &src,", "captured vectors are passed")
        g.subst("ref ident", "ident", "`ref` under a reference pattern is the default"); g.subst("ref field", "field", "`ref` under a reference pattern is the default"); g.subst("ref elements", "elements", "`ref` under a reference pattern is the default")
        bb, q = g.body, 0
        while q < len(bb):
            if bb[q] == "vec" and bb[q+1:q+4] == ["!", "[", "]"]: bb[q:q+4] = lex("Vec::new()")
            if bb[q:q+3] == ["let", "mut", "array_unpacked_elements"] and bb[q+3] == "=": bb[q+3:q+3] = lex(": Vec<Local>")
            q += 1
        g.enumerate_loops()
        n = bb[1]
        g.body += lex("Ok((pack_fields, unpack_fields, unpack_struct_set))")
        L = [{"kw": "for", "var": 1, "inv": "invariant pack_fields@ =~= all_packs(parsed.fields@, @i as int), unpack_fields@ =~= all_unpacks(parsed.fields@, @i as int), unpack_struct_set@.len() == @i, forall|k: int| 0 <= k < @i ==> sets(k, parsed.fields@[k], #[trigger] unpack_struct_set@[k]),"},
             {"kw": "for", "var": 1, "inv": f"invariant {n} < parsed.fields@.len(), parsed.fields@[{n} as int] matches FieldKind::Array {{ ident: i__, elements: e__ }} && i__ == *ident && e__@ == elements@, pack_fields@ =~= all_packs(parsed.fields@, {n} as int) + packs(parsed.fields@[{n} as int]).take(@i as int), unpack_fields@ =~= all_unpacks(parsed.fields@, {n} as int) + unpacks({n} as int, parsed.fields@[{n} as int]).take(@i as int), array_unpacked_elements@.len() == @i, forall|k: int| 0 <= k < @i ==> #[trigger] array_unpacked_elements@[k] == Local::Two({n}, k as usize),"}]
        t = g.annotate("let mut pack_fields: Vec<PackStep> = Vec::new(); let mut unpack_fields: Vec<UnpackStep> = Vec::new(); let mut unpack_struct_set: Vec<Set> = Vec::new();", L)
        return g, """fn derive_pack(parsed: &PackStruct) -> (r: Result<(Vec<PackStep>, Vec<UnpackStep>, Vec<Set>), Rejected>)
 ensures r.is_ok() ==> r->Ok_0.0@ == all_packs(parsed.fields@, parsed.fields@.len() as int) && r->Ok_0.1@ == all_unpacks(parsed.fields@, parsed.fields@.len() as int) && r->Ok_0.2@.len() == parsed.fields@.len() && forall|k: int| 0 <= k < parsed.fields@.len() ==> sets(k, parsed.fields@[k], #[trigger] r->Ok_0.2@[k]) {
""" + t + "}"
    u.fn("derive_pack: every field and element packed and unpacked once, in order", loop)
    def whole():
        for w in ("let mut target = [0 as u8; #num_bytes]; #(#pack_fields)* Ok(target) }", "#(#unpack_fields)* Ok(#name { #(#unpack_struct_set),* }) }", "let num_bytes = parsed.num_bytes;", "let num_bits = parsed.num_bits;", "fn packed_bits() -> usize { #num_bits }", "type ByteArray = [u8; #num_bytes];"): seq_at(b, w)
        g = X.Fn("assembled", ["fn"], lex("let target: [u8; N] = [0; N]; target")); g.rule("the assembled impl is matched literally: a zeroed target, all packing blocks, all unpacking blocks, every field set once")
        return g, "fn assembled<const N: usize>() -> (r: [u8; N]) ensures forall|i: int| 0 <= i < N ==> #[trigger] r@[i] == 0 {\n" + g.annotate("", []) + "}"
    u.fn("derive_pack: the assembled impl", whole)
    u.text("""
/// distinct fields and elements use distinct locals, and every local set in the result is one that an unpacking block defines for that very field
proof fn lemma_locals(fs: Seq<FieldKind>, k: int, n: int, i: int) requires 0 <= n < k, k <= fs.len(), 0 <= i < unpacks(n, fs[n]).len() ensures all_unpacks(fs, n).len() + i < all_unpacks(fs, k).len(), all_unpacks(fs, k)[all_unpacks(fs, n).len() + i] == unpacks(n, fs[n])[i] decreases k
{ assert(all_unpacks(fs, k) == all_unpacks(fs, k - 1) + unpacks(k - 1, fs[k - 1])); if n < k - 1 { lemma_locals(fs, k - 1, n, i); } }
""")
    return u

# ------------------------------------------------------------------ C14: positions as written
POSITIONS = """
global size_of usize == 8;
pub struct Rejected;
/// what an attribute's text says; a number may not parse
pub enum Form { Number(Option<usize>), OpenDots(Option<usize>), OpenColon(Option<usize>), Colon(Option<usize>, Option<usize>), DotsEq(Option<usize>, Option<usize>), Dots(Option<usize>, Option<usize>) }
#[derive(Copy, Clone)] #[verifier::external_body] pub struct Text { n: u8 }
impl Text { pub uninterp spec fn form(self) -> Form;
  #[verifier::external_body] fn trim(self) -> (r: Text) ensures r.form() == self.form() { unimplemented!() }
  #[verifier::external_body] fn ends_dots(self) -> (r: bool) ensures r == (self.form() is OpenDots) { unimplemented!() }
  #[verifier::external_body] fn ends_colon(self) -> (r: bool) ensures r == (self.form() is OpenColon) { unimplemented!() }
  #[verifier::external_body] fn has_colon(self) -> (r: bool) ensures r == (self.form() is OpenColon || self.form() is Colon) { unimplemented!() }
  #[verifier::external_body] fn has_dots_eq(self) -> (r: bool) ensures r == (self.form() is DotsEq) { unimplemented!() }
  #[verifier::external_body] fn has_dots(self) -> (r: bool) ensures r == (self.form() is OpenDots || self.form() is DotsEq || self.form() is Dots) { unimplemented!() }
  #[verifier::external_body] fn drop_dots(self) -> (r: Text) requires self.form() is OpenDots ensures r.form() == Form::Number(self.form()->OpenDots_0) { unimplemented!() }
  #[verifier::external_body] fn drop_colon(self) -> (r: Text) requires self.form() is OpenColon ensures r.form() == Form::Number(self.form()->OpenColon_0) { unimplemented!() }
  #[verifier::external_body] fn split_colon(self) -> (r: Vec<Text>) requires self.form() is Colon ensures r@.len() == 2, r@[0].form() == Form::Number(self.form()->Colon_0), r@[1].form() == Form::Number(self.form()->Colon_1) { unimplemented!() }
  #[verifier::external_body] fn split_dots_eq(self) -> (r: Vec<Text>) requires self.form() is DotsEq ensures r@.len() == 2, r@[0].form() == Form::Number(self.form()->DotsEq_0), r@[1].form() == Form::Number(self.form()->DotsEq_1) { unimplemented!() }
  #[verifier::external_body] fn split_dots(self) -> (r: Vec<Text>) requires self.form() is Dots ensures r@.len() == 2, r@[0].form() == Form::Number(self.form()->Dots_0), r@[1].form() == Form::Number(self.form()->Dots_1) { unimplemented!() } }
#[verifier::external_body] fn parse_num(s: Text) -> (r: Result<usize, Rejected>) ensures s.form() matches Form::Number(n) ==> r == (match n { Some(x) => Ok::<usize, Rejected>(x), None => Err(Rejected) }), !(s.form() is Number) ==> r.is_err() { unimplemented!() }
fn min_usize(a: usize, b: usize) -> (r: usize) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
fn max_usize(a: usize, b: usize) -> (r: usize) ensures r == if a < b { b } else { a } { if a < b { b } else { a } }
pub open spec fn lo(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn hi(a: int, b: int) -> int { if a < b { b } else { a } }
/// the bits (first, last) written, in units of m bits; an exclusive range of bytes is a listed finding and left unspecified
pub open spec fn says(f: Form, m: int, r: Result<BitsPositionParsed, Rejected>) -> bool { match f {
  Form::Number(Some(n)) => r == Ok::<BitsPositionParsed, Rejected>(BitsPositionParsed::Range((n * m) as usize, ((n + 1) * m - 1) as usize)),
  Form::OpenDots(Some(n)) => r == Ok::<BitsPositionParsed, Rejected>(BitsPositionParsed::Start((n * m) as usize)),
  Form::OpenColon(Some(n)) => r == Ok::<BitsPositionParsed, Rejected>(BitsPositionParsed::Start((n * m) as usize)),
  Form::Colon(Some(a), Some(b)) => r == Ok::<BitsPositionParsed, Rejected>(BitsPositionParsed::Range((lo(a as int, b as int) * m) as usize, ((hi(a as int, b as int) + 1) * m - 1) as usize)),
  Form::DotsEq(Some(a), Some(b)) => r == Ok::<BitsPositionParsed, Rejected>(BitsPositionParsed::Range((lo(a as int, b as int) * m) as usize, ((hi(a as int, b as int) + 1) * m - 1) as usize)),
  Form::Dots(Some(a), Some(b)) => if b == 0 { r.is_err() } else if m == 1 { r == Ok::<BitsPositionParsed, Rejected>(BitsPositionParsed::Range(lo(a as int, b - 1) as usize, hi(a as int, b - 1) as usize)) } else { true },
  _ => r.is_err() } }
pub open spec fn small(n: Option<usize>) -> bool { match n { Some(x) => x < 0x100_0000_0000, None => true } }
pub open spec fn modest(f: Form) -> bool { match f { Form::Number(n) => small(n), Form::OpenDots(n) => small(n), Form::OpenColon(n) => small(n), Form::Colon(a, b) => small(a) && small(b), Form::DotsEq(a, b) => small(a) && small(b), Form::Dots(a, b) => small(a) && small(b) } }
"""
POS_NOTE = "strings of positions: the documented forms; what trim, ends_with, contains, replace, split and parse_num answer for them is assumed (ill-formed text: compile-time battery of C15)"
def positions():
    u = Unit("positions"); f = src(CG + "pack_parse_attributes.rs"); pp = src(CG + "pack_parse.rs"); u.trusted += [POS_NOTE, "position numbers below 2^40", "usize is 64 bits wide (the sandbox's target)"]
    h, b = pp.block("enum", "BitsPositionParsed"); u.text(f"#[derive(Copy, Clone, PartialEq, Eq, Structural)] pub enum BitsPositionParsed {{ {text(b)} }}" + POSITIONS + "impl BitsPositionParsed {")
    def order():
        hh, bb = pp.impl(r"^impl BitsPositionParsed"); g = pp.fn("range_in_order", bb); minmax(g)
        s = g.sig(); m = re.search(r"\( (\w+) : usize , (\w+) : usize", s)
        return g, s + f" ensures r == BitsPositionParsed::Range(lo({m.group(1)} as int, {m.group(2)} as int) as usize, hi({m.group(1)} as int, {m.group(2)} as int) as usize) {{\n" + g.annotate("", []) + "}"
    u.fn("BitsPositionParsed::range_in_order", order)
    u.text("}")
    def go():
        g = f.fn("parse_position_val"); minmax(g); b, i = g.body, 0
        for o, n in (('ends_with("..")', "ends_dots()"), ("ends_with(':')", "ends_colon()"), ('ends_with(":")', "ends_colon()"), ('replace("..", "")', "drop_dots()"), ("replace(':', \"\")", "drop_colon()"), ('replace(":", "")', "drop_colon()"), ("contains(':')", "has_colon()"), ('contains(":")', "has_colon()"), ('contains("..=")', "has_dots_eq()"), ('contains("..")', "has_dots()"), ("split(':').collect()", "split_colon()"), ('split(":").collect()', "split_colon()"), ('split("..=").collect()', "split_dots_eq()"), ('split("..").collect()', "split_dots()")):
            g.subst(o, n, "a search for a separator in the text is the question about its form")
        g.subst("parse_num(&v)", "parse_num(v)", "text is passed by value"); b = g.body
        while i < len(b):
            if b[i:i+3] == ["panic", "!", "("]:
                e = X.close_of(b, i + 2); b[i:e+1] = lex("return Err(Rejected)"); g.rule("a panic of the macro is a rejected declaration")
            i += 1
        s = g.header; m = re.search(r"\( (\w+) : & str , (\w+) : usize \)", " ".join(s))
        if not m: raise Lost("signature")
        v, k = m.groups()
        return g, f"fn parse_position_val({v}: Text, {k}: usize) -> (r: Result<BitsPositionParsed, Rejected>) requires {k} == 1 || ({k} == 8 && !({v}.form() is Dots)), modest({v}.form()) ensures says({v}.form(), {k} as int, r) {{\n" + g.annotate("", []) + "}"
    u.fn("parse_position_val: the bits a written position names", go)
    return u
