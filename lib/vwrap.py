"""Contracts of the conversions a field goes through (C01-C03, C14-C16): how its wrappers are chosen and applied, every declaration."""
from vunits import *
from vglue import frag, shape
from venum import ref_loops

HEAD = """
global size_of usize == 8;
pub struct Rejected;
/// a type's text: one of the native integers, or any other
#[derive(Copy, Clone, PartialEq, Eq, Structural)] pub enum Name { U8, I8, U16, I16, U32, I32, U64, I64, Literal(u64), Text(u64) }
pub open spec fn native(n: Name) -> bool { !(n is Literal) && !(n is Text) }
pub uninterp spec fn an_integer(n: Name) -> bool;     // starts with `Integer < `
pub uninterp spec fn with_bits(n: Name) -> bool;      // contains `Bits`
/// no native type's text is one of Integer<..>
pub broadcast axiom fn axiom_native(n: Name) ensures #[trigger] an_integer(n) ==> !native(n);
#[verifier::external_body] fn is_an_integer(n: &Name) -> (r: bool) ensures r == an_integer(*n) { unimplemented!() }
#[verifier::external_body] fn has_bits(n: &Name) -> (r: bool) ensures r == with_bits(*n) { unimplemented!() }
fn any_name(ns: &[Name], n: &Name) -> (r: bool) ensures r == exists|i: int| 0 <= i < ns@.len() && #[trigger] ns@[i] == *n
{ for i in 0..ns.len() invariant forall|j: int| 0 <= j < i ==> #[trigger] ns@[j] != *n { if ns[i] == *n { return true; } } false }
#[derive(Copy, Clone, PartialEq, Eq, Structural)] pub struct Type { pub name: Name }
fn tokens_to_string(t: &Type) -> (r: Name) ensures r == t.name { t.name }
/// `Integer<of, Bits::<bits>>`; of: the native type itself, or an enumeration's backing type
#[derive(Copy, Clone, PartialEq, Eq, Structural)] pub enum Of { Native(Name), PrimitiveOf(Name) }
#[derive(Copy, Clone, PartialEq, Eq, Structural)] pub struct IntegerType { pub of: Of, pub bits: usize }
#[derive(Copy, Clone, PartialEq, Eq, Structural)] pub enum Prefix { Msb, Lsb, Literal(u64) }
#[derive(Copy, Clone, PartialEq, Eq, Structural)] pub struct WrapperType { pub prefix: Prefix }
#[derive(Copy, Clone, PartialEq, Eq, Structural)] pub enum SerializationWrapper { Integer { integer: IntegerType }, Endiannes { endian: WrapperType }, PrimitiveEnum }
pub struct FieldRegular { pub ty: Type, pub serialization_wrappers: Vec<SerializationWrapper> }
fn syntax<T>(x: T) -> (r: Result<T, Rejected>) ensures r == Ok::<T, Rejected>(x) { Ok(x) }
/// a field's own byte order overrides the default; up to 8 bits there is only one; without any the declaration is rejected
pub open spec fn order(own: Option<IntegerEndianness>, default: Option<IntegerEndianness>, width: int) -> Option<Prefix>
{ if width <= 8 { Some(Prefix::Msb) } else { match own { Some(e) => Some(prefix(e)), None => match default { Some(e) => Some(prefix(e)), None => None } } } }
pub open spec fn prefix(e: IntegerEndianness) -> Prefix { match e { IntegerEndianness::Msb => Prefix::Msb, IntegerEndianness::Lsb => Prefix::Lsb } }
/// the conversions of a field: enumeration to its number, number to its sized integer, integer to its byte order
pub open spec fn wrappers(ty: Type, is_enum: bool, own: Option<IntegerEndianness>, default: Option<IntegerEndianness>, width: int) -> Option<Seq<SerializationWrapper>>
{ let o = order(own, default, width);
  if is_enum { match o { Some(p) => Some(seq![SerializationWrapper::PrimitiveEnum, SerializationWrapper::Integer { integer: IntegerType { of: Of::PrimitiveOf(ty.name), bits: width as usize } }, SerializationWrapper::Endiannes { endian: WrapperType { prefix: p } }]), None => None } }
  else if native(ty.name) { match o { Some(p) => Some(seq![SerializationWrapper::Integer { integer: IntegerType { of: Of::Native(ty.name), bits: width as usize } }, SerializationWrapper::Endiannes { endian: WrapperType { prefix: p } }]), None => None } }
  else if an_integer(ty.name) && with_bits(ty.name) { match o { Some(p) => Some(seq![SerializationWrapper::Endiannes { endian: WrapperType { prefix: p } }]), None => None } }
  else { Some(seq![]) } }
/// the shapes `wrappers` takes
pub open spec fn shaped(w: Seq<SerializationWrapper>) -> bool { w.len() == 0 || (w.len() == 1 && w[0] is Endiannes) || (w.len() == 2 && w[0] is Integer && w[1] is Endiannes) || (w.len() == 3 && w[0] is PrimitiveEnum && w[1] is Integer && w[2] is Endiannes) }
proof fn lemma_shaped(ty: Type, is_enum: bool, own: Option<IntegerEndianness>, default: Option<IntegerEndianness>, width: int) requires wrappers(ty, is_enum, own, default, width).is_some() ensures shaped(wrappers(ty, is_enum, own, default, width)->0) { }
"""
CONV = """
/// the expressions generated for packing a field ..
pub enum Packs { Place(u64), ToPrimitive(Box<Packs>), IntoInteger(IntegerType, Box<Packs>), IntoOrder(WrapperType, Box<Packs>), Packed(Box<Packs>) }
/// .. and for unpacking it
pub enum Unpacks { Bytes, OrderedInteger(WrapperType, IntegerType, Box<Unpacks>), Ordered(WrapperType, Type, Box<Unpacks>), FromPrimitive(Type, Box<Unpacks>), Plain(Type, Box<Unpacks>) }
/// packing applies the wrappers first to last
pub open spec fn applied(p: Packs, w: Seq<SerializationWrapper>, k: int) -> Packs decreases k
{ if k <= 0 { p } else { let i = Box::new(applied(p, w, k - 1)); match w[k - 1] { SerializationWrapper::PrimitiveEnum => Packs::ToPrimitive(i), SerializationWrapper::Integer { integer } => Packs::IntoInteger(integer, i), SerializationWrapper::Endiannes { endian } => Packs::IntoOrder(endian, i) } } }
/// unpacking undoes them last to first
pub open spec fn undone(ty: Type, w: Seq<SerializationWrapper>) -> Unpacks
{ if w.len() == 0 { Unpacks::Plain(ty, Box::new(Unpacks::Bytes)) } else if w.len() == 1 { Unpacks::Ordered(w[0]->endian, ty, Box::new(Unpacks::Bytes)) }
  else if w.len() == 2 { Unpacks::OrderedInteger(w[1]->endian, w[0]->integer, Box::new(Unpacks::Bytes)) }
  else { Unpacks::FromPrimitive(ty, Box::new(Unpacks::OrderedInteger(w[2]->endian, w[1]->integer, Box::new(Unpacks::Bytes)))) } }
fn reversed(v: &Vec<SerializationWrapper>) -> (r: Vec<SerializationWrapper>) ensures r@ == v@.reverse() { let mut r: Vec<SerializationWrapper> = Vec::new(); let mut i = v.len(); while i > 0 invariant i <= v@.len(), r@.len() == v@.len() - i, forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == v@[v@.len() - 1 - k] decreases i { i -= 1; r.push(v[i]); } assert(r@ =~= v@.reverse()); r }
fn get(v: &Vec<SerializationWrapper>, i: usize) -> (r: Option<&SerializationWrapper>) ensures r.is_some() == (i < v@.len()), r.is_some() ==> *r->0 == v@[i as int] { if i < v.len() { Some(&v[i]) } else { None } }
"""
SENSE = """
/// what the generated expressions compute, over any conversions: values, numbers, integers and bytes are one sort here
pub struct Value { pub id: int }
pub uninterp spec fn number(t: Name, v: Value) -> Value;               // to_primitive
pub uninterp spec fn of_number(t: Name, v: Value) -> Option<Value>;    // from_primitive
pub uninterp spec fn sized(t: IntegerType, v: Value) -> Value;         // .into() an Integer
pub uninterp spec fn bytes_of(w: WrapperType, t: Option<IntegerType>, v: Value) -> Value;          // .into() its wrapper, .pack()
pub uninterp spec fn of_bytes(w: WrapperType, t: Option<IntegerType>, b: Value) -> Option<Value>;  // unpack, down to the Integer (None: the type is the field's own) or the number in it
pub uninterp spec fn plain_bytes(t: Name, v: Value) -> Value;
pub uninterp spec fn of_plain_bytes(t: Name, b: Value) -> Option<Value>;
pub open spec fn inner(p: Packs, t: Name, v: Value) -> Value decreases p { match p { Packs::Place(_) => v, Packs::ToPrimitive(x) => number(t, inner(*x, t, v)), Packs::IntoInteger(i, x) => sized(i, inner(*x, t, v)), Packs::IntoOrder(_, x) => inner(*x, t, v), Packs::Packed(x) => inner(*x, t, v) } }
pub open spec fn packed(p: Packs, t: Name, v: Value) -> Value { match p { Packs::Packed(x) => match *x { Packs::IntoOrder(w, y) => match *y { Packs::IntoInteger(i, z) => bytes_of(w, Some(i), inner(*z, t, v)), y => bytes_of(w, None, inner(y, t, v)) }, x => plain_bytes(t, inner(x, t, v)) }, _ => v } }
pub open spec fn unpacked(u: Unpacks, b: Value) -> Option<Value> decreases u { match u { Unpacks::Bytes => Some(b), Unpacks::OrderedInteger(w, i, x) => match unpacked(*x, b) { Some(y) => of_bytes(w, Some(i), y), None => None }, Unpacks::Ordered(w, _, x) => match unpacked(*x, b) { Some(y) => of_bytes(w, None, y), None => None }, Unpacks::FromPrimitive(t, x) => match unpacked(*x, b) { Some(y) => of_number(t.name, y), None => None }, Unpacks::Plain(t, x) => match unpacked(*x, b) { Some(y) => of_plain_bytes(t.name, y), None => None } } }
/// the type's own guarantees: C08 for enumerations, C03-C06 for integers, C07/C16 and the rest for types without wrappers
pub open spec fn lawful(t: Name, v: Value) -> bool { of_number(t, number(t, v)) == Some(v) && of_plain_bytes(t, plain_bytes(t, v)) == Some(v) && (forall|w: WrapperType, i: IntegerType| #[trigger] of_bytes(w, Some(i), bytes_of(w, Some(i), v)) == Some(v)) && (forall|w: WrapperType, i: IntegerType| #[trigger] of_bytes(w, Some(i), bytes_of(w, Some(i), number(t, v))) == Some(number(t, v))) && forall|w: WrapperType| #[trigger] of_bytes(w, None, bytes_of(w, None, v)) == Some(v) }
/// C02 for every combination of wrappers: unpacking what was packed gives the value back
proof fn lemma_inverse(f: u64, ty: Type, w: Seq<SerializationWrapper>, v: Value) requires shaped(w), lawful(ty.name, v) ensures unpacked(undone(ty, w), packed(Packs::Packed(Box::new(applied(Packs::Place(f), w, w.len() as int))), ty.name, v)) == Some(v)
{ reveal_with_fuel(applied, 5); reveal_with_fuel(inner, 6); reveal_with_fuel(unpacked, 6); }
"""
NOTE = "the type of a field is its text: one of the native integers' names, or another; `Integer<..>` generated from it parses; a type whose text starts with `Integer < ` is none of the native ones"
PARTS = {"C01": ("packing",), "C02": ("chosen", "packing", "unpacking", "elements"), "C03": ("unpacking",), "C14": ("chosen", "elements"), "C15": ("chosen",), "C16": ("chosen", "elements")}
INTS = ("u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64")
def lookups(g):
    """field_attributes.iter().filter_map(|a| ..).next()  ->  the first attribute of that kind, a parameter"""
    b, k = g.body, 0
    while k < len(b):
        if b[k:k+6] == lex("field_attributes.iter().") and b[k+6] == "filter_map":
            e = X.close_of(b, k + 7); c = " ".join(b[k+8:e])
            if b[e+1:e+5] != lex(".next()"): raise Lost("attribute lookup")
            m = re.match(r"\| (\w+) \| if let & ?PackFieldAttribute :: (\w+) \( (\w+) \) = \1 \{ Some \( \3 \) \} else \{ None \}$", c) or \
                re.match(r"\| (\w+) \| if let PackFieldAttribute :: (\w+) \( (\w+) \) = \* \1 \{ Some \( \3 \) \} else \{ None \}$", c) or \
                re.match(r"\| (\w+) \| if let PackFieldAttribute :: (\w+) \( (\w+) \) = \1 \{ Some \( \* \3 \) \} else \{ None \}$", c)
            n = re.match(r"\| (\w+) \| match \* \1 \{ PackFieldAttribute :: Ty \( TyKind :: Enum \) => Some \( \( \) \) , _ => None (?:, )?\}$", c)
            if not m and not n: raise Lost("attribute lookup")
            b[k:e+5] = ["attr_" + (m.group(2) if m else "Ty")]; g.rule("the first attribute of a kind (`iter().filter_map(..).next()`) is a parameter attr_K")
        k += 1
def conversions(prop=None):
    u = Unit("conversions"); pp = src(CG + "pack_parse.rs"); pc = src(CG + "pack_codegen.rs"); pk = src(CG + "pack.rs"); u.trusted += [NOTE]
    if prop: u.only = lambda k: any(x in k for x in PARTS[prop])
    h, b = pp.block("enum", "IntegerEndianness"); u.text(f"#[derive(Copy, Clone, PartialEq, Eq, Structural)] pub enum IntegerEndianness {{ {text(b)} }}")
    h, b = pk.block("enum", "SerializationWrapper")
    if sorted(x for x in b if x[0].isupper()) != ["Endiannes", "Integer", "PrimitiveEnum", "Type", "Type"]: raise Lost("SerializationWrapper has other variants")
    u.text(HEAD)
    def chosen():
        g = pp.fn("parse_reg_field"); b = g.body; k = 0
        g.subst("let field_attributes = PackFieldAttribute::parse_all(&parse_sub_attributes(&field.attrs, \"packed_field\", \"packed_struct\")?);", "", "the field's parsed attributes are parameters", 1); lookups(g)
        g.subst('ty_str.starts_with("Integer < ")', "is_an_integer(&ty_str)", "a search in the type's text is a question about it", 1); g.subst('ty_str.contains("Bits")', "has_bits(&ty_str)", "a search in the type's text is a question about it", 1)
        g.subst('format!("<{} as PrimitiveEnum>::Primitive", tokens_to_string(ty))', "Of::PrimitiveOf(tokens_to_string(ty))", "the text of a type built with format! is the record of what it names", 1)
        g.subst("ty_str.clone()", "Of::Native(ty_str)", "the type's own text names it", 1)
        b = g.body
        while k < len(b):
            if b[k:k+6] == lex("syn::parse_str(&format"):
                e = X.close_of(b, k + 3); a = split_args(b[k+8:X.close_of(b, k + 7)])
                f, args = a[0][0], [" ".join(x) for x in a[1:]]
                if f == '"Integer<{}, Bits::<{}>>"' and len(args) == 2: new = f"syntax(IntegerType {{ of: {args[0]}, bits: {args[1]} }})"
                elif f == '"{}Integer"' and len(args) == 1: new = f"syntax(WrapperType {{ prefix: {args[0]} }})"
                else: raise Lost("a generated type has another form")
                if b[e+1:e+5] == lex(".unwrap()"): b[e+1:e+5] = ["?"]
                b[k:e+1] = lex(new); g.rule("the text of a type built with format! is the record of what it names")
            if b[k:k+3] == ["panic", "!", "("]:
                e = X.close_of(b, k + 2); b[k:e+1] = lex("return Err(Rejected)"); g.rule("a panic of the macro is a rejected declaration")
            if b[k] in ("vec",) and b[k+1:k+4] == ["!", "[", "]"] and b[k-4:k] == ["let", "mut", "wrappers", "="]: b[k-1:k+4] = lex(": Vec<SerializationWrapper> = Vec::new()"); g.rule("vec![] is Vec::new()")
            if b[k:k+2] == ["int_types", "."] and b[k+2:k+6] == ["iter", "(", ")", "."] and b[k+6] == "any":
                e = X.close_of(b, k + 7); c = b[k+8:e]
                if not (c[0] == "|" and c[2:] == ["|", c[1], "==", "&", "ty_str"]): raise Lost("native types")
                b[k:e+1] = lex("any_name(&int_types, &ty_str)"); g.rule("`a.iter().any(|t| t == &x)` is any_name(&a, &x)")
            k += 1
        for i, x in enumerate(b):
            if re.match(r'"[^"]*"$', x):
                t = x[1:-1]; prev = b[i-1]
                b[i] = f"Name::{t.upper()}" if t in INTS else f"Prefix::{t}" if t in ("Msb", "Lsb") else f"Prefix::Literal({i})" if prev == "=>" else f"Name::Literal({i})"
                g.rule("a string naming a native integer or a byte order is a constant of an enumeration of them")
        i = seq_at(b, "Ok(FieldRegular"); o = i + 3
        inner = [p for p in split_args(b[o+1:X.close_of(b, o)]) if p and p[0] in ("ty", "serialization_wrappers")]
        b[i:] = ["Ok", "(", "FieldRegular", "{"] + [x for p in inner for x in p + [","]] + ["}", ")"]; g.rule("the literal FieldRegular keeps type and wrappers (width and ranges: unit decl)")
        g.subst("ty.clone()", "*ty", "Type::clone is a copy"); g.body = [x for x in g.body]
        return g, """fn parse_reg_field(ty: &Type, bit_range: &core::ops::Range<usize>, default_endianness: Option<IntegerEndianness>, attr_Ty: Option<()>, attr_IntEndiannes: Option<IntegerEndianness>) -> (r: Result<FieldRegular, Rejected>)
 requires bit_range.start <= bit_range.end < 0x4000_0000_0000
 ensures r.is_ok() == wrappers(*ty, attr_Ty.is_some(), attr_IntEndiannes, default_endianness, bit_range.end - bit_range.start + 1).is_some(), r.is_ok() ==> r->Ok_0.ty == *ty && r->Ok_0.serialization_wrappers@ == wrappers(*ty, attr_Ty.is_some(), attr_IntEndiannes, default_endianness, bit_range.end - bit_range.start + 1)->0 {
""" + g.annotate("broadcast use axiom_native;", []) + "}"
    u.fn("parse_reg_field: the conversions chosen for a field", chosen)
    u.text(CONV)
    def fragments(g, table):
        """quote! { .. } -> the record of its splices"""
        b, i, seen = g.body, 0, []
        while i < len(b):
            if b[i:i+3] == ["quote", "!", "{"]:
                q, e = frag(b, i)
                for pat, make in table:
                    try: m = shape(q, pat)
                    except Lost: continue
                    b[i:e] = lex(make.format(**m)); seen.append(pat); break
                else: raise Lost("a generated fragment has another form")
            i += 1
        if len(set(seen)) != len(table): raise Lost("a fragment is missing")
        g.rule("a quote! fragment is the record of its splices; its other tokens are matched literally")
    def refs(g):
        b = [x for x in g.body if x != "ref"]; i = 0
        while i < len(b):
            if b[i:i+4] == ["Some", "(", "&", "SerializationWrapper"]: del b[i+2]
            i += 1
        g.body = b; g.rule("`ref` and `&` in patterns under a reference are the default")
    def packing():
        g = pc.fn("pack_field"); refs(g)
        fragments(g, [("( self . # <n> )", "Packs::Place(*{n})"),
            ("{ use :: packed_struct :: PrimitiveEnum ; let primitive_integer = { # <o> } . to_primitive ( ) ; primitive_integer }", "Packs::ToPrimitive(Box::new({o}))"),
            ("{ use :: packed_struct :: types :: * ; use :: packed_struct :: types :: bits :: * ; let sized_integer : # <i> = { # <o> } . into ( ) ; sized_integer }", "Packs::IntoInteger(*{i}, Box::new({o}))"),
            ("{ use :: packed_struct :: types :: * ; use :: packed_struct :: types :: bits :: * ; let wrapper : # <e> < _ , _ , _ > = { # <o> } . into ( ) ; wrapper }", "Packs::IntoOrder(*{e}, Box::new({o}))"),
            ("{ { & # <o> } . pack ( ) ? }", "Packs::Packed(Box::new({o}))")])
        ref_loops(g)
        L = [{"kw": "for", "var": 1, "inv": "invariant output == applied(Packs::Place(*name), field.serialization_wrappers@, @i as int),"}]
        return g, "fn pack_field(name: &u64, field: &FieldRegular) -> (r: Packs) ensures r == Packs::Packed(Box::new(applied(Packs::Place(*name), field.serialization_wrappers@, field.serialization_wrappers@.len() as int))) {\n" + g.annotate("", L) + "}"
    u.fn("pack_field: packing applies the conversions in order", packing)
    def unpacking():
        g = pc.fn("unpack_field"); refs(g)
        U = "use :: packed_struct :: types :: * ; use :: packed_struct :: types :: bits :: * ; let res : # <r> < # <e> < _ , _ , # <i> > , PackingError > = "
        fragments(g, [("bytes", "Unpacks::Bytes"),
            (U + "< # <e> < _ , _ , _ >> :: unpack ( & # <u> ) ; let unpacked = res ? ; * * unpacked", "Unpacks::OrderedInteger(*{e}, *{i}, Box::new({u}))"),
            ("use :: packed_struct :: PrimitiveEnum ; let primitive_integer : < # <t> as PrimitiveEnum > :: Primitive = { # <u> } ; let r = < # <t> > :: from_primitive ( primitive_integer ) . ok_or ( PackingError :: InvalidValue ) ; r ?", "Unpacks::FromPrimitive(*{t}, Box::new({u}))"),
            (U + "< # <e> < _ , _ , # <i> >> :: unpack ( & # <u> ) ; let unpacked = res ? ; * unpacked", "Unpacks::Ordered(*{e}, *{i}, Box::new({u}))"),
            ("< # <t> > :: unpack ( & # <u> ) ?", "Unpacks::Plain(*{t}, Box::new({u}))")])
        g.subst("field.serialization_wrappers.iter().rev().cloned().collect()", "reversed(&field.serialization_wrappers)", "`v.iter().rev().cloned().collect()` is reversed(&v)", 1); g.subst("let wrappers: Vec<_>", "let wrappers: Vec<SerializationWrapper>", "")
        g.subst("let result_ty = result_type();", "", "Result's path is literal", 1); rejects(g)
        g.subst("wrappers.get(i)", "get(&wrappers, i)", "Vec::get is get"); g.subst("wrappers.get(i+1)", "get(&wrappers, i+1)", "Vec::get is get"); g.subst("wrappers.is_empty()", "(wrappers.len() == 0)", "Vec::is_empty")
        W = "field.serialization_wrappers@"
        L = [{"kw": "loop", "inv": f"""invariant_except_break wrappers@ == {W}.reverse(), shaped({W}), i <= wrappers@.len(), wrappers@.len() <= 3, i < wrappers@.len() || i == 0,
  i == 0 ==> unpack == Unpacks::Bytes, i != 1, i == 2 ==> wrappers@.len() == 3 && unpack == Unpacks::OrderedInteger({W}[2]->endian, {W}[1]->integer, Box::new(Unpacks::Bytes)), ensures unpack == undone(field.ty, {W}), decreases 4 - i"""}]
        return g, f"fn unpack_field(field: &FieldRegular) -> (r: Result<Unpacks, Rejected>) requires shaped({W}) ensures r == Ok::<Unpacks, Rejected>(undone(field.ty, {W})) {{\n" + g.annotate("", L) + "}"
    u.fn("unpack_field: unpacking undoes the conversions in reverse", unpacking)
    def elements():
        g = pp.fn("parse_field"); b = g.body; k = 0; n = []
        while k < len(b):
            if b[k:k+2] == ["parse_reg_field", "("]:
                e = X.close_of(b, k + 1); args = [" ".join(x) for x in split_args(b[k+2:e])]
                if len(args) != 4: raise Lost("parse_reg_field called in another form")
                n.append((args[0], args[1], args[3]))
            k += 1
        if len(n) != 2: raise Lost(f"{len(n)} calls of parse_reg_field")
        h = " ".join(g.header); m = re.search(r"\( (\w+) : & syn :: Field , \w+ : & FieldMidPositioning , \w+ : & Range < usize > , (\w+) : Option < IntegerEndianness > \)", h)
        if not m: raise Lost("signature")
        fld, df = m.groups(); i = seq_at(b, f"match &{fld}.ty")
        g2 = X.Fn("parse_field", ["fn"], [])
        g2.rule("the arguments of parse_reg_field(field, type, .., byte order) for a plain field and for an array's elements")
        def arg(a): return {f"& {fld} . ty": "field.ty", "& type_array . elem": "field.elem", fld: "field", df: "default"}.get(a) or "None"
        g2.body = lex(f"(({arg(n[0][0])}, {arg(n[0][1])}, {arg(n[0][2])}), ({arg(n[1][0])}, {arg(n[1][1])}, {arg(n[1][2])}))")
        for a in n:
            if any(arg(x) == "None" and x != "None" for x in a): raise Lost("parse_reg_field called with other arguments")
        return g2, "#[derive(Copy, Clone)] pub struct Field { pub ty: Type, pub elem: Type }\nfn parse_field_args(field: Field, default: Option<IntegerEndianness>) -> (r: ((Field, Type, Option<IntegerEndianness>), (Field, Type, Option<IntegerEndianness>))) ensures r.0 == (field, field.ty, default), r.1 == (field, field.elem, default) {\n" + g2.annotate("", []) + "}"
    u.fn("parse_field: an array's elements are converted as the field itself", elements)
    u.text(SENSE)
    return u
