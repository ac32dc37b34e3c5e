"""Contracts of the enumeration derive (C08, C19): every enumeration, every number, every string."""
from vunits import *
import vunits as VU

ENUM = """
use vstd::string::*;
pub struct Rejected;   // an error on the declaration: it does not compile
#[derive(Copy, Clone, PartialEq, Eq, Structural)] pub enum IntTy { I8, I16, I32, I64, U8, U16, U32, U64, None, Other }
impl IntTy { pub open spec fn signed(self) -> bool { self == IntTy::I8 || self == IntTy::I16 || self == IntTy::I32 || self == IntTy::I64 }
  pub open spec fn width(self) -> int { match self { IntTy::I8 | IntTy::U8 => 8, IntTy::I16 | IntTy::U16 => 16, IntTy::I32 | IntTy::U32 => 32, IntTy::I64 | IntTy::U64 => 64, _ => 0 } }
  pub open spec fn holds(self, x: int) -> bool { match self { IntTy::I8 => -0x80 <= x < 0x80, IntTy::I16 => -0x8000 <= x < 0x8000, IntTy::I32 => -0x8000_0000 <= x < 0x8000_0000, IntTy::I64 => -0x8000_0000_0000_0000 <= x < 0x8000_0000_0000_0000,
    IntTy::U8 => 0 <= x < 0x100, IntTy::U16 => 0 <= x < 0x1_0000, IntTy::U32 => 0 <= x < 0x1_0000_0000, IntTy::U64 => 0 <= x < 0x1_0000_0000_0000_0000, _ => false } }
  fn is_empty(&self) -> (r: bool) ensures r == (*self == IntTy::None) { match *self { IntTy::None => true, _ => false } }
  pub open spec fn covers(self, t: IntTy) -> bool { self.signed() == t.signed() && t.width() <= self.width() } }
fn same_ty(a: IntTy, b: IntTy) -> (r: bool) ensures r == (a == b) { a == b }
/// `.iter().position(|&x| x == t).unwrap()`; no such type is a panic of the macro: the declaration does not compile
#[verifier::external_body] fn position_of(a: &[IntTy; 8], t: IntTy) -> (r: usize) requires exists|j: int| 0 <= j < 8 && #[trigger] a@[j] == t ensures r < 8, a@[r as int] == t, forall|j: int| 0 <= j < r ==> #[trigger] a@[j] != t { unimplemented!() }
/// `(d as i64).wrapping_neg()`
#[verifier::external_body] fn wrapped_neg(d: u64) -> (r: i64) ensures d <= 0x8000_0000_0000_0000 ==> r == -d { (d as i64).wrapping_neg() }
#[verifier::external_body] pub struct Text { t: String }
impl View for Text { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
impl Text { #[verifier::external_body] fn to_lowercase(&self) -> (r: Text) ensures r@ == lower(self@) { unimplemented!() }
  #[verifier::external_body] fn is(&self, s: &str) -> (r: bool) ensures r == (self@ == s@) { unimplemented!() } }
#[verifier::external_body] pub struct Ident { n: u8 }
impl Ident { pub uninterp spec fn spelled(&self) -> Seq<char>; /* the identifier without r# */ pub uninterp spec fn name(&self) -> Seq<char>;
  #[verifier::external_body] fn unraw(&self) -> (r: Ident) ensures r.spelled() == self.name(), r.name() == self.name() { unimplemented!() }
  #[verifier::external_body] fn to_string(&self) -> (r: Text) ensures r@ == self.spelled() { unimplemented!() }
  #[verifier::external_body] fn same(&self, o: &Ident) -> (r: bool) ensures r == (*self == *o) { unimplemented!() } }
pub mod syn { use super::*;
  #[verifier::external_body] pub struct LitInt { n: u8 }
  impl LitInt { pub uninterp spec fn value(&self) -> int; pub uninterp spec fn ty(&self) -> IntTy;
    #[verifier::external_body] pub fn base10_parse(&self) -> (r: Result<u64, Rejected>) ensures r.is_ok() ==> r->Ok_0 == self.value() { unimplemented!() }
    #[verifier::external_body] pub fn suffix(&self) -> (r: IntTy) ensures r == self.ty() { unimplemented!() }
    pub open spec fn negated(&self) -> int { -self.value() } }
  pub enum Lit { Int(LitInt), Other }
  pub struct ExprLit { pub lit: Lit, pub rest: u8 }
  pub enum UnOp { Deref(u8), Not(u8), Neg(u8) }
  pub struct ExprUnary { pub op: UnOp, pub expr: Box<Expr>, pub rest: u8 }
  pub enum Expr { Lit(ExprLit), Unary(ExprUnary), Other }
  pub enum Fields { Named(u8), Unnamed(u8), Unit }
  pub struct Variant { pub ident: Ident, pub fields: Fields, pub discriminant: Option<(u8, Expr)> }
  impl Variant { #[verifier::external_body] pub fn clone(&self) -> (r: Variant) ensures r == *self { unimplemented!() } }
  pub struct DataEnum { pub variants: Vec<Variant> }
  pub enum Data { Struct(u8), Enum(DataEnum), Union(u8) }
  pub struct DeriveInput { pub data: Data }
}
/// the discriminants Rust gives: the written number, otherwise one more than the previous variant's, starting from 0
pub open spec fn written(e: syn::Expr) -> Option<int> { match e { syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(l), .. }) => Some(l.value()), syn::Expr::Unary(syn::ExprUnary { op: syn::UnOp::Neg(_), expr, .. }) => match *expr { syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(l), .. }) => Some(-l.value()), _ => None }, _ => None } }
pub open spec fn given_ty(e: syn::Expr) -> IntTy { match e { syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(l), .. }) => l.ty(), syn::Expr::Unary(syn::ExprUnary { op: syn::UnOp::Neg(_), expr, .. }) => match *expr { syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(l), .. }) => l.ty(), _ => IntTy::None }, _ => IntTy::None } }
pub open spec fn rust_number(vs: Seq<syn::Variant>, k: int) -> int decreases k + 1 { if k < 0 { -1 } else { match vs[k].discriminant { Some((_, e)) => written(e)->0, None => rust_number(vs, k - 1) + 1 } } }
/// what rustc accepts: every number is a literal, implicit numbers do not overflow, variants carry no data
pub open spec fn numbered(vs: Seq<syn::Variant>) -> bool { forall|k: int| 0 <= k < vs.len() ==> (#[trigger] vs[k]).fields is Unit && (vs[k].discriminant is None ==> rust_number(vs, k) < 0x1_0000_0000_0000_0000) }
"""
ENUM_NOTE = "syn's types are mirrored with the parts the derive reads (a variant's name, its fields, its discriminant expression, a literal's value and suffix); syn's parsing of them is trusted"
LOWER_NOTE = "str::to_lowercase is an uninterpreted function of the string; Ident::unraw gives the identifier's name and ToString its spelling"
INT_NAMES = ("i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64")
def names(g):
    """integer type names in string literals are constants of an enumeration"""
    for t in INT_NAMES:
        for suf in (".into()", ".to_string()", ".to_owned()"): g.subst(f'"{t}"{suf}', "IntTy::" + t.upper(), "a string naming an integer type is a constant of an enumeration of them")
        g.subst(f'String::from("{t}")', "IntTy::" + t.upper(), "a string naming an integer type is a constant of an enumeration of them")
        g.subst(f'"{t}"', "IntTy::" + t.upper(), "a string naming an integer type is a constant of an enumeration of them")
    for e in ('"".into()', '"".to_string()', "String::new()"): g.subst(e, "IntTy::None", "the empty string is its `none`")
    if any(x.startswith('"') for x in g.body): raise Lost("another string")
def ref_loops(g):
    """for x in &E { B }  ==>  index loop"""
    b, i, n = g.body, 0, 0
    while i < len(b):
        if b[i] == "for" and re.match(r"[a-z_]\w*$", b[i+1]) and b[i+2:i+4] == ["in", "&"]:
            e = i + 4
            while b[e] != "{":
                if b[e] in ("(", "["): e = X.close_of(b, e)
                e += 1
            E = b[i+4:e]; k = f"k__{n}"; n += 1
            b[i:e+1] = ["for", k, "in", "0", ".."] + E + [".", "len", "(", ")", "{", "let", b[i+1], "=", "&"] + E + ["[", k, "]", ";"]
            g.rule("`for x in &v` is written as an index loop")
        i += 1
def mapped(b, name):
    """let NAME [: T] = v.iter().map(|x| { B }).collect();  ->  (x, B tokens, index of `let`, index after `;`)"""
    for i in range(len(b)):
        if b[i] == "let" and b[i+1] == name and b[i+2] in (":", "="):
            j = i + 2
            while b[j] != "=": j += 1
            e = j
            while b[e] != ";":
                if b[e] in X.OPEN: e = X.close_of(b, e)
                e += 1
            s = b[j+1:e]
            if s[:8] != lex("v.iter().map(") or s[8] != "|" or s[10] != "|": raise Lost(f"{name} computed in another way")
            m = X.close_of(s, 7)
            if s[m+1:] != lex(".collect()"): raise Lost(f"{name} computed in another way")
            inner = s[11:m]
            if inner and inner[0] == "{" and X.close_of(inner, 0) == len(inner) - 1: inner = inner[1:-1]
            return s[9], inner, i, e + 1
    raise Lost(f"no {name}")
def arm(inner):
    """STMTS quote! { P => R }  ->  STMTS, P, R"""
    q = seq_at(inner, "quote! {"); frag, e = S.quote_at(inner, q)
    if e != len(inner): raise Lost("the mapped fragment is not last")
    if "=>" not in frag: return inner[:q], None, frag
    k = frag.index("=>"); return inner[:q], frag[:k], frag[k+1:]
def of_variant(ts):
    """`#name::#n` is the variant named n; other splices are the generator's values"""
    out, i = [], 0
    while i < len(ts):
        if ts[i:i+4] == ["#", "name", "::", "#"]: out += [ts[i+4]]; i += 5; continue
        if ts[i:i+3] == ["#", "name", "::"] or ts[i:i+3] == ["Self", "::", "#"]: raise Lost("variant path")
        if ts[i] == "#": out.append(ts[i+1]); i += 2; continue
        out.append(ts[i]); i += 1
    return out
def tables(body):
    """match expressions over arm tables inside the generated impl: (function name, scrutinee, table, default) in order"""
    got = []
    for i in range(len(body)):
        if body[i] == "match":
            o = i + 1
            while body[o] != "{":
                if body[o] in ("(", "["): o = X.close_of(body, o)
                o += 1
            sc = body[i+1:o]; inner = body[o+1:X.close_of(body, o)]
            if inner[:3] == ["#", "(", "#"] and inner[4:7] == [")", ",", "*"]:
                rest = inner[7:]
                if rest[:1] == [","]: rest = rest[1:]
                if rest and rest[-1] == ",": rest = rest[:-1]
                if rest and rest[:2] != ["_", "=>"]: raise Lost("table followed by other arms")
                f = i
                while body[f] != "fn": f -= 1
                got.append((body[f+1], sc, inner[3], rest[2:] or None))
    return got
def table_fn(b, fn, tab, default, param, eq, ret, ens, req="", proof="", res=lambda s: s, before="true"):
    """the generated `match` as the loop over its arms, first match wins"""
    x, inner, _, _ = mapped(b, tab); pre, P, R = arm(inner)
    if P is None: raise Lost(f"{tab} is not a table of arms")
    g = X.Fn(fn, ["fn"], []); g.rule("a generated `match` over the repeated arms of v is the loop over v, first matching arm wins; the last arm is reached when none matches")
    g.body = lex("for k__ in 0..v.len() { let") + [x] + lex("= &v[k__];") + pre + lex("let hit__ = ") + eq(of_variant(P)) + lex("; if hit__ { proof { assert(at(v@, k__ as int)); } return") + of_variant(R) + lex("; } }") + (default if default else lex("unreached()"))
    for f in ("stdlib", "::"): pass
    L = [{"kw": "for", "var": 1, "inv": f"invariant {before},", "end": ""}]
    return g, f"fn {fn}<'a>(v: &'a Vec<Variant>, {param}) -> (r: {ret}) {req} ensures {ens} {{\n" + g.annotate(proof, L) + "}"
def enumeration(prop=None):
    u = Unit("enumeration"); f = src(CG + "primitive_enum.rs"); u.only = (lambda k: any(x in k for x in ENUM_OF[prop])) if prop else None
    u.trusted += [ENUM_NOTE, LOWER_NOTE, "`*self as T` converts a variant to its Rust discriminant (the language); match arms are tried in order", "i64::wrapping_neg and u64 as i64 (standard library and language)"]
    h, sb = f.block("struct", "Variant")
    if [x for x in sb if x != "pub"] not in (lex("variant: syn::Variant, discriminant: u64, negative: bool, suffix: String"), lex("variant: syn::Variant, discriminant: u64, negative: bool, suffix: String,")): raise Lost("Variant has other fields")
    u.text(ENUM + """
pub struct Variant { pub variant: syn::Variant, pub discriminant: u64, pub negative: bool, pub suffix: IntTy }
impl Variant { pub open spec fn value(&self) -> int { if self.negative { -self.discriminant } else { self.discriminant as int } }
  pub open spec fn fine(&self) -> bool { self.negative ==> self.discriminant <= 0x8000_0000_0000_0000 } }
#[verifier::external_body] fn unreached<T>() -> T requires false { unimplemented!() }
""")
    def numbers():
        g = f.fn("get_unitary_enum"); rejects(g); g.subst("let mut r = Vec::new();", "let mut r: Vec<Variant> = Vec::new();", "the type of an empty vector is written out"); ref_loops(g)
        g.subst("lit_int.suffix().into()", "lit_int.suffix()", "String::from of a suffix is the suffix"); g.subst("lit_int.suffix().to_string()", "lit_int.suffix()", "String::from of a suffix is the suffix"); names(g)

        L = [{"kw": "for", "var": 1, "start": "proof { let v__ = data_enum.variants@[@i as int]; assert(v__.fields is Unit); assert(rust_number(data_enum.variants@, @i as int) >= -0x8000_0000_0000_0000 && rust_number(data_enum.variants@, @i - 1) >= -0x8000_0000_0000_0000); if @i > 0 { assert(r@[@i - 1].value() == rust_number(data_enum.variants@, @i - 1)); } }", "inv": """invariant numbered(data_enum.variants@), forall|k: int| #[trigger] rust_number(data_enum.variants@, k) >= -0x8000_0000_0000_0000, r@.len() == @i, @i > 0 ==> d == Some(r@[@i - 1].discriminant) && neg == r@[@i - 1].negative, @i == 0 ==> d is None,
 forall|j: int| 0 <= j < @i ==> (#[trigger] r@[j]).variant == data_enum.variants@[j] && r@[j].value() == rust_number(data_enum.variants@, j) && (data_enum.variants@[j].discriminant is None ==> r@[j].suffix == IntTy::None && r@[j].fine()),
 forall|j: int| 0 <= j < @i && data_enum.variants@[j].discriminant is Some ==> (#[trigger] r@[j]).suffix == given_ty((data_enum.variants@[j].discriminant->0).1), ensures r@.len() == data_enum.variants@.len(),"""}]
        return g, """fn get_unitary_enum(input: &syn::DeriveInput) -> (r: Result<Vec<Variant>, Rejected>) requires input.data matches syn::Data::Enum(e) ==> numbered(e.variants@) && forall|k: int| #[trigger] rust_number(e.variants@, k) >= -0x8000_0000_0000_0000
 ensures r.is_ok() ==> (input.data matches syn::Data::Enum(e) && r->Ok_0@.len() == e.variants@.len() && forall|j: int| 0 <= j < e.variants@.len() ==> (#[trigger] r->Ok_0@[j]).variant == e.variants@[j] && r->Ok_0@[j].value() == rust_number(e.variants@, j)) {
""" + g.annotate("", L) + "}"
    u.fn("get_unitary_enum: each variant's number is Rust's discriminant", numbers)
    # literal of a variant's number
    u.text("impl Variant {")
    def lit():
        h, b = f.impl(r"^impl Variant"); g = f.fn("get_discriminant", b)
        b = g.body; i = seq_at(b, 'format!("{}{}",'); e = X.close_of(b, i + 2); a = split_args(b[i+3:e])
        if len(a) != 3 or a[0] != ['"{}{}"']: raise Lost("literal text")
        if b[i-3:i] != lex("let s =") : raise Lost("literal text")
        j = seq_at(b, "syn::parse_str(&s)"); z = j
        while b[z] != ";": z += 1
        b[j:z] = lex("number(") + a[1] + [","] + a[2] + [")"]; del b[i-3:e+2]
        b = g.body; i = seq_at(b, "let v: syn::LitInt"); b[i:i+6] = ["let", "v"]
        k = 0
        while k < len(b):
            if b[k] == "quote":
                q, e = S.quote_at(b, k); b[k:e] = ["("] + [x for x in q if x != "#"] + [")"]
            k += 1
        g.rule('`parse_str::<LitInt>(&format!("{}{}", n, suffix))` is the literal n; `#v` in a fragment is its value')
        return g, "fn get_discriminant(&self) -> (r: i128) ensures r == self.value() {\n" + g.annotate("", []) + "}"
    u.fn("Variant::get_discriminant", lit)
    u.text("}\nfn number(n: u64, suffix: IntTy) -> (r: i128) ensures r == n { n as i128 }")
    d = f.fn("derive"); b = d.body
    try: i = seq_at(b, "let min_ty"); x, inner, i, e = mapped(b, "min_ty")
    except Lost as er: x, inner, e = "d", None, None
    def least():
        if inner is None: raise Lost("no min_ty")
        g = X.Fn("min_ty", ["fn"], inner); names(g); g.rule("the closure of map is lifted to a function")
        g.subst(f"({x}.discriminant as i64).wrapping_neg()", f"wrapped_neg({x}.discriminant)", "`(d as i64).wrapping_neg()` is the trusted helper wrapped_neg"); g.subst(f"{x}.suffix.clone()", f"{x}.suffix", "suffixes are Copy constants")
        for t in ("i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64"):
            for m, c in (("min_value", "MIN"), ("max_value", "MAX")): g.subst(f"<{t}>::{m}()", f"{t}::{c}", "<T>::min_value() is T::MIN"); g.subst(f"{t}::{m}()", f"{t}::{c}", "<T>::min_value() is T::MIN")
        return g, f"fn min_ty({x}: &Variant) -> (r: IntTy) requires {x}.fine() ensures {x}.suffix != IntTy::None ==> r == {x}.suffix, {x}.suffix == IntTy::None ==> r.holds({x}.value()) && r.signed() == {x}.negative {{\n" + g.annotate("", []) + "}"
    u.fn("the type one discriminant needs", least)
    def choose():
        if e is None: raise Lost("no min_ty")
        z = seq_at(b, "prim_type = Some", e); g = X.Fn("choose_ty", ["fn"], b[e:z]); names(g)
        bb, k = g.body, 0
        while k < len(bb):
            if bb[k+1:k+4] == [".", "iter", "("] and bb[k+5:k+8] == [".", "position", "("] and bb[k+8:k+15][:1] == ["|"]:
                q = X.close_of(bb, k + 7); c = bb[k+8:q]
                m = re.match(r"^\| & (\w+) \| \1 == (\w+)$", " ".join(c)) or re.match(r"^\| & (\w+) \| (\w+) == \1$", " ".join(c))
                if not m or bb[q+1:q+5] != lex(".unwrap()"): raise Lost("position looked up in another way")
                bb[k:q+5] = lex(f"position_of(&{bb[k]}, {m.group(2)})"); g.rule("`a.iter().position(|&x| x == t).unwrap()` is position_of(&a, t)")
            if bb[k] == "for" and bb[k+2:k+4] == ["in", "min_ty"]: bb[k:k+5] = lex("for k__ in 0..min_ty.len() { let") + [bb[k+1]] + lex("= min_ty[k__];"); g.rule("`for x in v` over Copy items is written as an index loop")
            k += 1
        g.body += ["ty"]
        L = [{"kw": "for", "var": 1, "inv": "invariant priority@.len() == 8, forall|k: int| 0 <= k < min_ty@.len() ==> (#[trigger] min_ty@[k]).width() > 0, ty.width() > 0, forall|t: IntTy| #[trigger] t.width() > 0 ==> exists|j: int| 0 <= j < 8 && #[trigger] priority@[j] == t, prefers(priority@), forall|k: int| 0 <= k < @i ==> wins(ty, #[trigger] min_ty@[k]), ty == IntTy::U8 || exists|k: int| 0 <= k < @i && #[trigger] min_ty@[k] == ty,", "start": "let ghost ty0__ = ty;", "end": "proof { let m = min_ty@[@i as int]; assert(wins(ty, m) && wins(ty, ty0__)); assert forall|k: int| 0 <= k < @i + 1 implies wins(ty, #[trigger] min_ty@[k]) by { if k < @i { assert(wins(ty0__, min_ty@[k])); } } }"}]
        t = g.annotate("", L)
        k = t.find("for k__"); 
        t = t[:k] + "proof { assert(priority@.len() == 8); assert forall|t: IntTy| #[trigger] t.width() > 0 implies exists|j: int| 0 <= j < 8 && #[trigger] priority@[j] == t by { assert(priority@[0] == t || priority@[1] == t || priority@[2] == t || priority@[3] == t || priority@[4] == t || priority@[5] == t || priority@[6] == t || priority@[7] == t); } assert forall|i: int, j: int| 0 <= i <= j < 8 implies wins(#[trigger] priority@[i], #[trigger] priority@[j]) by { } }\n" + t[k:]
        return g, "fn choose_ty(min_ty: &Vec<IntTy>) -> (ty: IntTy) requires forall|k: int| 0 <= k < min_ty@.len() ==> (#[trigger] min_ty@[k]).width() > 0 ensures forall|k: int| 0 <= k < min_ty@.len() ==> wins(ty, #[trigger] min_ty@[k]), ty == IntTy::U8 || exists|k: int| 0 <= k < min_ty@.len() && #[trigger] min_ty@[k] == ty {\n" + t + "}"
    u.text("""
/// a signed type wins over an unsigned one, of two alike the wider wins
pub open spec fn wins(a: IntTy, b: IntTy) -> bool { (b.signed() ==> a.signed()) && (a.signed() == b.signed() ==> b.width() <= a.width()) }
pub open spec fn prefers(p: Seq<IntTy>) -> bool { forall|i: int, j: int| 0 <= i <= j < p.len() ==> wins(#[trigger] p[i], #[trigger] p[j]) }
/// C08: the chosen type represents every discriminant of its own signedness; with a negative one it is signed
proof fn lemma_represents(v: Variant, m: IntTy, ty: IntTy) requires wins(ty, m), ty.width() > 0, v.suffix == IntTy::None ==> m.holds(v.value()) && m.signed() == v.negative ensures v.suffix == IntTy::None && ty.signed() == v.negative ==> ty.holds(v.value()), v.negative && v.suffix == IntTy::None ==> ty.signed() { }
pub open spec fn at(v: Seq<Variant>, k: int) -> bool { 0 <= k < v.len() }
""")
    u.fn("the backing type derived from all discriminants", choose)
    try: ts = tables(b)
    except (Lost, IndexError): ts = []
    def one(fn, k=0):
        got = [t for t in ts if t[0] == fn]
        if len(got) <= k: raise Lost(f"no table in {fn}")
        return got[k]
    def fromp():
        _, sc, tab, de = one("from_primitive")
        if sc != ["val"] or de is None: raise Lost("from_primitive")
        return table_fn(b, "from_primitive", tab, de, "val: i128", lambda P: lex("(") + P + lex(") == val"), "Option<&'a Ident>", "match r { Some(i) => exists|k: int| #[trigger] at(v@, k) && v@[k].value() == val && *i == v@[k].variant.ident && forall|j: int| 0 <= j < k ==> (#[trigger] v@[j]).value() != val, None => forall|k: int| 0 <= k < v@.len() ==> (#[trigger] v@[k]).value() != val }",
          before="forall|k: int| 0 <= k < @i ==> (#[trigger] v@[k]).value() != val, at(v@, @i as int) || true", )
    u.fn("from_primitive: the variant with that number, or none", fromp)
    def strs(fn, want):
        def go():
            _, sc, tab, de = one(fn)
            if sc != ["s"] or de is None: raise Lost(fn)
            return table_fn(b, fn, tab, de, "s: &str", lambda P: ["("] + P + lex(").is(s)"), "Option<&'a Ident>", f"match r {{ Some(i) => exists|k: int| #[trigger] at(v@, k) && {want.format('v@[k]')} == s@ && *i == v@[k].variant.ident && forall|j: int| 0 <= j < k ==> {want.format('(#[trigger] v@[j])')} != s@, None => forall|k: int| 0 <= k < v@.len() ==> {want.format('(#[trigger] v@[k])')} != s@ }}", before=f"forall|k: int| 0 <= k < @i ==> {want.format('(#[trigger] v@[k])')} != s@")
        return go
    u.fn("from_str: the variant of that name, or none", strs("from_str", "{}.variant.ident.name()"))
    u.fn("from_str_lower: the variant of that lower-case name, or none", strs("from_str_lower", "lower({}.variant.ident.name())"))
    for k, lab in ((0, "static"), (1, "dynamic")):
        def disp(k=k):
            _, sc, tab, de = one("to_display_str", k)
            if sc != ["*", "self"] or de is not None: raise Lost("to_display_str")
            return table_fn(b, f"to_display_str_{k}", tab, None, "self_: &Ident", lambda P: ["("] + P + lex(").same(self_)"), "Text", "r@ == self_.name()", "requires exists|k: int| #[trigger] at(v@, k) && v@[k].variant.ident == *self_", before="forall|k: int| 0 <= k < @i ==> (#[trigger] v@[k]).variant.ident != *self_, exists|k: int| #[trigger] at(v@, k) && v@[k].variant.ident == *self_")
        u.fn(f"to_display_str ({lab}): the variant's name", disp)
    def all_():
        x, inner, _, _ = mapped(b, "all_variants"); pre, P, R = arm(inner)
        if P is not None: raise Lost("all_variants")
        i = seq_at(b, "const #all_variants_const_ident"); j = i
        while b[j] != "=": j += 1
        e = j
        while b[e] != ";": e += 1
        if b[j+1:e] != lex("&[ #(#all_variants),* ]"): raise Lost("the list of variants is assembled in another form")
        for w in ("#all_variants_const_ident", "#stdlib_prefix::borrow::Cow::Borrowed(#all_variants_const_ident)"): seq_at(b, "{ " + w + " }")
        g = X.Fn("all_variants", ["fn"], lex("let mut out__: Vec<&Ident> = Vec::new(); for k__ in 0..v.len() { let") + [x] + lex("= &v[k__];") + pre + lex("out__.push(") + of_variant(R) + lex("); } out__")); g.rule("the repetition of a mapped fragment is the loop emitting it")
        return g, "fn all_variants<'a>(v: &'a Vec<Variant>) -> (r: Vec<&'a Ident>) ensures r@.len() == v@.len(), forall|k: int| 0 <= k < v@.len() ==> *#[trigger] r@[k] == v@[k].variant.ident {\n" + g.annotate("", [{"kw": "for", "var": 1, "inv": "invariant out__@.len() == @i, forall|k: int| 0 <= k < @i ==> *#[trigger] out__@[k] == v@[k].variant.ident,"}]) + "}"
    u.fn("all_variants: every variant once, in order", all_)
    u.text("""
pub open spec fn distinct(v: Seq<Variant>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).variant.ident.name() != (#[trigger] v[j]).variant.ident.name() && v[i].value() != v[j].value() }
/// number and name round trips, from the contracts above alone
fn round_trip(v: &Vec<Variant>, k: usize, s: &str) requires k < v@.len(), distinct(v@), s@ == v@[k as int].variant.ident.name() { let n = v[k].get_discriminant(); let back = from_primitive(v, n); assert(at(v@, k as int)); assert(back.is_some() && *back->0 == v@[k as int].variant.ident); let again = from_str(v, s); assert(again.is_some() && *again->0 == v@[k as int].variant.ident); }
""")
    return u
ENUM_OF = {"C08": ("get_unitary_enum", "get_discriminant", "the type one", "the backing type", "from_primitive"), "C19": ("from_str", "to_display", "all_variants")}
