"""Contracts of how the derive macro puts its parts together (C13-C15): parse_struct and get_field_mid_positioning as wholes."""
from vunits import *

HEAD = """
global size_of usize == 8;
#[derive(Copy, Clone)] pub struct Rejected;   // the declaration does not compile: an error, or a panic of the macro
#[derive(Copy, Clone, PartialEq, Eq, Structural)] pub enum Word { w_packed_struct, w_packed_field, Literal(u64) }
/// the attributes written on an item, the (key, value) pairs read from them, a type's path segment, a length expression, one field's bits
#[verifier::external_body] pub struct Attributes { n: u64 }
#[verifier::external_body] pub struct Pairs { n: u64 }
#[verifier::external_body] pub struct TypePath { n: u64 }
#[verifier::external_body] pub struct Segment { n: u64 }
#[verifier::external_body] pub struct Length { n: u64 }
#[verifier::external_body] pub struct FieldKind { n: u64 }
#[verifier::external_body] pub struct Ranges { n: u64 }
#[verifier::external_body] pub struct OfStruct { n: u64 }
#[verifier::external_body] pub struct OfField { n: u64 }
pub struct TypeArray { pub elem: Box<Type>, pub len: Length }
pub enum Type { Path(TypePath), Array(TypeArray), Other }
pub struct Field { pub ty: Type, pub attrs: Attributes }
pub struct DataStruct { pub fields: Vec<Field> }
pub enum Data { Struct(DataStruct), Enum(u64), Union(u64) }
pub struct Params { pub count: usize } impl Params { fn is_empty(&self) -> (r: bool) ensures r == (self.count == 0) { self.count == 0 } fn len(&self) -> (r: usize) ensures r == self.count { self.count } }
pub struct Generics { pub params: Params }
pub struct DeriveInput { pub attrs: Attributes, pub data: Data, pub generics: Generics }
pub struct PackStruct { pub fields: Vec<FieldKind>, pub num_bytes: usize, pub num_bits: usize }
#[derive(Copy, Clone)] pub struct FieldMidPositioning { pub bit_width: usize, pub bits_position: BitsPositionParsed }

// the parts, each under its own contract in the units `attributes` and `decl`; here functions of what they are given
/// the pairs of the attributes named `main`; whether one named `wrong` is written
pub uninterp spec fn pairs(a: Attributes, main: Word) -> Pairs;
pub uninterp spec fn written(a: Attributes, wrong: Word) -> bool;
pub uninterp spec fn struct_words(p: Pairs) -> OfStruct;
pub uninterp spec fn field_words(p: Pairs) -> OfField;
pub uninterp spec fn segment(p: TypePath) -> Option<Segment>;
pub uninterp spec fn natural(s: Segment) -> Option<usize>;
pub uninterp spec fn length(e: Length) -> Option<usize>;
pub uninterp spec fn first_bitnumbering_of(a: OfStruct) -> Option<BitNumbering>;
pub uninterp spec fn first_defaultintendianness_of(a: OfStruct) -> Option<IntegerEndianness>;
pub uninterp spec fn first_sizebytes_of(a: OfStruct) -> Option<usize>;
pub uninterp spec fn first_bitposition_byteposition_of(a: OfField) -> Option<BitsPositionParsed>;
pub uninterp spec fn first_sizebits_of(a: OfField) -> Option<usize>;
pub uninterp spec fn first_elementsizebits_of(a: OfField) -> Option<usize>;
/// the fields with their bits, under a numbering, a size and a default byte order; None: one of them is refused
pub uninterp spec fn laid_out(fs: Seq<Field>, n: Option<BitNumbering>, size: Option<usize>, e: Option<IntegerEndianness>) -> Option<Seq<FieldKind>>;
/// the bits of each field, and of each element of an array
pub uninterp spec fn ranges(ks: Seq<FieldKind>) -> Ranges;
pub uninterp spec fn ranges_of(fs: Seq<Field>, n: Option<BitNumbering>, size: Option<usize>) -> Ranges;
/// (bits, bytes); None: neither fields nor a size
pub uninterp spec fn size_of_all(rs: Ranges, size: Option<usize>) -> Option<(usize, usize)>;
pub uninterp spec fn apart(rs: Ranges, bytes: usize) -> bool;
pub uninterp spec fn width_of(size: Option<usize>, element: Option<usize>, elements: usize, p: BitsPositionParsed, natural: Option<usize>) -> Option<usize>;
#[verifier::external_body] fn parse_sub_attributes(a: &Attributes, main: Word, wrong: Word) -> (r: Result<Pairs, Rejected>) ensures r.is_ok() == !written(*a, wrong), r.is_ok() ==> r->Ok_0 == pairs(*a, main) { unimplemented!() }
#[verifier::external_body] fn struct_parse_all(p: &Pairs) -> (r: OfStruct) ensures r == struct_words(*p) { unimplemented!() }
#[verifier::external_body] fn field_parse_all(p: &Pairs) -> (r: OfField) ensures r == field_words(*p) { unimplemented!() }
#[verifier::external_body] fn get_single_segment(p: &TypePath) -> (r: Result<&Segment, Rejected>) ensures r.is_ok() == segment(*p).is_some(), r.is_ok() ==> *r->Ok_0 == segment(*p)->0 { unimplemented!() }
#[verifier::external_body] fn get_builtin_type_bit_width(s: &Segment) -> (r: Result<Option<usize>, Rejected>) ensures r == Ok::<Option<usize>, Rejected>(natural(*s)) { unimplemented!() }
#[verifier::external_body] fn get_expr_int_val(e: &Length) -> (r: Result<usize, Rejected>) ensures r.is_ok() == length(*e).is_some(), r.is_ok() ==> r->Ok_0 == length(*e)->0 { unimplemented!() }
#[verifier::external_body] fn positions(fs: &Vec<Field>, n: Option<BitNumbering>, size: Option<usize>, e: Option<IntegerEndianness>) -> (r: Result<Vec<FieldKind>, Rejected>) ensures r.is_ok() == laid_out(fs@, n, size, e).is_some(), r.is_ok() ==> r->Ok_0@ == laid_out(fs@, n, size, e)->0 && ranges(r->Ok_0@) == ranges_of(fs@, n, size) { unimplemented!() }
#[verifier::external_body] fn sizes(ks: &Vec<FieldKind>, size: Option<usize>) -> (r: Result<(usize, usize), Rejected>) ensures r.is_ok() == size_of_all(ranges(ks@), size).is_some(), r.is_ok() ==> r->Ok_0 == size_of_all(ranges(ks@), size)->0 && (r->Ok_0).0 < 0x1000_0000_0000 && (r->Ok_0).1 < 0x1000_0000_0000 { unimplemented!() }
#[verifier::external_body] fn overlaps(ks: &Vec<FieldKind>, bytes: usize) -> (r: Result<(), Rejected>) ensures r.is_ok() == apart(ranges(ks@), bytes) { unimplemented!() }
#[verifier::external_body] fn width(size: Option<usize>, element: Option<usize>, elements: usize, p: BitsPositionParsed, natural: Option<usize>) -> (r: Result<usize, Rejected>) ensures r.is_ok() == width_of(size, element, elements, p, natural).is_some(), r.is_ok() ==> r->Ok_0 == width_of(size, element, elements, p, natural)->0 { unimplemented!() }
fn first_of(v: &Vec<Field>) -> (r: Option<&Field>) ensures r.is_some() == (v@.len() > 0), r.is_some() ==> *r->0 == v@[0] { if v.len() > 0 { Some(&v[0]) } else { None } }
"""
SPEC = """
/// a type as an attribute sees it: its segment and how many times it is repeated; None: not a plain type or an array of one
pub open spec fn repeated(t: Type) -> Option<(Segment, usize)> { match t {
  Type::Path(p) => match segment(p) { Some(s) => Some((s, 1)), None => None },
  Type::Array(a) => match *a.elem { Type::Path(p) => match (segment(p), length(a.len)) { (Some(s), Some(n)) => Some((s, n)), _ => None }, _ => None },
  Type::Other => None } }
pub open spec fn position_of(f: Field) -> BitsPositionParsed { match first_bitposition_byteposition_of(field_words(pairs(f.attrs, Word::w_packed_field))) { Some(p) => p, None => BitsPositionParsed::Next } }
pub open spec fn bits_of(f: Field) -> Option<usize> { let a = field_words(pairs(f.attrs, Word::w_packed_field)); let t = repeated(f.ty)->0; width_of(first_sizebits_of(a), first_elementsizebits_of(a), t.1, position_of(f), natural(t.0)) }
pub open spec fn field_refused(f: Field) -> bool { repeated(f.ty).is_none() || (repeated(f.ty)->0).1 == 0 || written(f.attrs, Word::w_packed_struct) || bits_of(f).is_none() }
// what a declaration says
pub open spec fn words_of(ast: DeriveInput) -> OfStruct { struct_words(pairs(ast.attrs, Word::w_packed_struct)) }
pub open spec fn fields_of(ast: DeriveInput) -> Seq<Field> { ast.data->Struct_0.fields@ }
pub open spec fn placed(ast: DeriveInput) -> Option<Seq<FieldKind>> { let a = words_of(ast); laid_out(fields_of(ast), first_bitnumbering_of(a), first_sizebytes_of(a), first_defaultintendianness_of(a)) }
pub open spec fn spread(ast: DeriveInput) -> Ranges { ranges_of(fields_of(ast), first_bitnumbering_of(words_of(ast)), first_sizebytes_of(words_of(ast))) }
pub open spec fn bits_bytes(ast: DeriveInput) -> Option<(usize, usize)> { size_of_all(spread(ast), first_sizebytes_of(words_of(ast))) }
/// the declarations that do not compile
pub open spec fn refused(ast: DeriveInput) -> bool {
  written(ast.attrs, Word::w_packed_field) || !(ast.data is Struct) || ast.generics.params.count != 0
  || (fields_of(ast).len() > 0 && field_refused(fields_of(ast)[0])) || placed(ast).is_none() || bits_bytes(ast).is_none()
  || (fields_of(ast).len() > 0 && position_of(fields_of(ast)[0]) is Next && (bits_bytes(ast)->0).0 % 8 != 0 && first_sizebytes_of(words_of(ast)).is_none())     // the first field's place would be a guess
  || !apart(spread(ast), (bits_bytes(ast)->0).1) }
"""
# per property: only what it says
VALUE, FIELD_REFUSED = "r.is_ok() ==> r->Ok_0 == (FieldMidPositioning { bit_width: bits_of(*field)->0, bits_position: position_of(*field) })", "r.is_ok() == !field_refused(*field), r.is_ok() ==> r->Ok_0.bits_position == position_of(*field)"
MID = {"C13": "true", "C14": VALUE, "C15": FIELD_REFUSED}
WHOLE = {"C13": "r.is_ok() ==> (r->Ok_0.num_bits, r->Ok_0.num_bytes) == bits_bytes(*ast)->0", "C14": "r.is_ok() ==> r->Ok_0.fields@ == placed(*ast)->0", "C15": "r.is_ok() == !refused(*ast)"}
LOOKUPS = {("BitNumbering",): "bitnumbering", ("DefaultIntEndianness",): "defaultintendianness", ("SizeBytes",): "sizebytes", ("BitPosition", "BytePosition"): "bitposition_byteposition", ("SizeBits",): "sizebits", ("ElementSizeBits",): "elementsizebits"}
WHOLE_NOTE = "parts of parse_struct and get_field_mid_positioning are functions of their inputs here; what they compute is under contract in the units `decl` and `attributes`"
OF = {"C13": ("parse_struct",)}
def lookups(g):
    b, i = g.body, 0; names = {k for q in LOOKUPS for k in q}
    while i < len(b):
        if b[i+1:i+5] == lex(".iter()") and b[i+5:i+8] == lex(".filter_map("):
            e = X.close_of(b, i + 7); ks = tuple(sorted({x for x in b[i+8:e] if x in names}))
            if b[e+1:e+5] != lex(".next()") or ks not in LOOKUPS: raise Lost("look-up")
            b[i:e+5] = [f"first_{LOOKUPS[ks]}", "(", "&", b[i], ")"]; g.rule("`v.iter().filter_map(|a| E).next()` is first_K(&v), verified in the unit `attributes`")
        i += 1
def words(g):
    for i, x in enumerate(g.body):
        if re.match(r'"[^"]*"$', x): g.body[i] = f"Word::w_{x[1:-1]}" if x[1:-1] in ("packed_struct", "packed_field") else f"Word::Literal({i})"
def statement(b, i):
    """index of the `;` ending the statement at i"""
    d = 0
    for j in range(i, len(b)):
        d += b[j] in X.OPEN; d -= b[j] in X.CLOSE
        if b[j] == ";" and d == 0: return j
    raise Lost("statement")
def structure(prop=None):
    u = Unit("structure"); pp = src(CG + "pack_parse.rs"); u.trusted += [DECL_NOTE, WHOLE_NOTE, NOTE_SYN]
    part = OF.get(prop); u.only = (lambda k: any(x in k for x in part)) if part else None
    for e in ("BitNumbering", "IntegerEndianness", "BitsPositionParsed"):
        h, b = pp.block("enum", e); u.text(f"#[derive(Copy, Clone, PartialEq, Eq, Structural)] pub enum {e} {{ {text(b)} }}")
    u.text(HEAD)
    for ks, (T, R) in {("BitNumbering",): ("OfStruct", "BitNumbering"), ("DefaultIntEndianness",): ("OfStruct", "IntegerEndianness"), ("SizeBytes",): ("OfStruct", "usize"), ("BitPosition", "BytePosition"): ("OfField", "BitsPositionParsed"), ("SizeBits",): ("OfField", "usize"), ("ElementSizeBits",): ("OfField", "usize")}.items():
        n = LOOKUPS[ks]; u.text(f"#[verifier::external_body] fn first_{n}(a: &{T}) -> (r: Option<{R}>) ensures r == first_{n}_of(*a) {{ unimplemented!() }}")
    u.text(SPEC)
    mid = MID.get(prop, FIELD_REFUSED + ", " + VALUE); whole_ = WHOLE[prop] if prop in WHOLE else ", ".join(WHOLE.values())
    def middle():
        g = pp.fn("get_field_mid_positioning"); b = g.body
        i = seq_at(b, "let bit_width = if let"); j = statement(b, i); ex = X.Fn("w", ["fn"], b[i+3:j]); lookups(ex)
        used = {x for x in ex.body if x.startswith("first_")}; args = {ex.body[k+3] for k, x in enumerate(ex.body) if x.startswith("first_")}
        if used != {"first_sizebits", "first_elementsizebits"} or len(args) != 1: raise Lost("width")
        a = args.pop(); b[i:j] = lex(f"let bit_width = width(first_sizebits(&{a}), first_elementsizebits(&{a}), array_size, bits_position, bit_width_builtin)?"); g.rule("the computation of the width is the function `width` verified in the unit `decl`")
        rejects(g); lookups(g); g.subst("PackFieldAttribute::parse_all(", "field_parse_all(", "parse_all is the function verified in the unit `attributes`", 1); words(g)
        g.subst("syn::Type::", "Type::", "syn's types are mirrored"); g.subst("match *type_array.elem {", "match &*type_array.elem {", "a match through the box is on a reference"); g.subst("Type::Path(ref p)", "Type::Path(p)", "a match through the box is on a reference"); g.subst("segment.clone()", "()", "the unused copy of the path segment is dropped")
        return g, "fn get_field_mid_positioning(field: &Field) -> (r: Result<FieldMidPositioning, Rejected>) ensures " + mid + " {\n" + g.annotate("", []) + "}"
    if not u.fn("get_field_mid_positioning: type, position and width of a field", middle): u.text("#[verifier::external_body] fn get_field_mid_positioning(field: &Field) -> (r: Result<FieldMidPositioning, Rejected>) ensures " + mid + " { unimplemented!() }")
    def whole():
        g = pp.fn("parse_struct"); b = g.body
        # the loop over the fields
        i = seq_at(b, "let mut fields_parsed: Vec<FieldKind> = vec![];"); o = seq_at(b, "{", i); e = X.close_of(b, o); blk = b[o:e+1]
        k = seq_at(blk, "parse_field("); args = split_args(blk[k+2:X.close_of(blk, k + 1)]); fv = [blk[q+4] for q in range(len(blk)) if blk[q:q+4] == ["for", "field", "in", "&"]]
        if len(args) != 4 or len(args[3]) != 1 or fv != ["fields"]: raise Lost("the loop over the fields")
        b[i:e+1] = lex(f"let fields_parsed = positions(fields, bit_positioning, struct_size_bytes, {args[3][0]})?;"); g.rule("the loop over the fields is the function `positions` verified in the unit `decl`")
        # the sizes: both statements, next to each other
        i = seq_at(b, "let num_bits: usize = {"); e = X.close_of(b, seq_at(b, "{", i))
        if b[e+1:e+5] != lex("; let num_bytes ="): raise Lost("sizes")
        j = statement(b, e + 2); b[i:j] = lex("let (num_bits, num_bytes) = sizes(&fields_parsed, struct_size_bytes)?"); g.rule("the computation of bits and bytes is the function `sizes` verified in the unit `decl`")
        # overlaps
        o = seq_at(b, "let mut bits = vec![None;")
        if b[o-1] != "{": raise Lost("overlaps")
        e = X.close_of(b, o - 1); b[o-1:e+1] = lex("overlaps(&fields_parsed, num_bytes)?;"); g.rule("the overlap check is the function `overlaps` verified in the unit `decl`")
        rejects(g); lookups(g); words(g)
        g.subst("PackStructAttribute::parse_all(", "struct_parse_all(", "parse_all is the function verified in the unit `attributes`", 1)
        g.subst("syn::Data::", "Data::", "syn's types are mirrored"); g.subst("let fields: Vec<_> = data_struct.fields.iter().collect();", "let fields = &data_struct.fields;", "the collected references are the fields", 1); g.subst("fields.first()", "first_of(fields)", "first is first_of")
        i = seq_at(g.body, "PackStruct {"); e = X.close_of(g.body, i + 1); g.body[i+2:e] = [x for p in split_args(g.body[i+2:e]) if p[0] in ("fields", "num_bytes", "num_bits") for x in p + [","]]; g.rule("the result keeps fields, bytes and bits")
        return g, "fn parse_struct(ast: &DeriveInput) -> (r: Result<PackStruct, Rejected>) ensures " + whole_ + " {\n" + g.annotate("", []) + "}"
    u.fn("parse_struct: what is read, refused and handed on, as a whole", whole)
    return u
NOTE_SYN = "syn's view of a declaration (attributes, generics, data, types) is mirrored with the parts the derive reads; get_single_segment and get_expr_int_val are functions of their argument"
