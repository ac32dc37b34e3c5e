"""Contracts of the attribute parser (C14, C15): what every written attribute means, every declaration."""
from vunits import *
from venum import ref_loops

WORDS = ("endian", "bits", "bytes", "size_bytes", "size_bits", "element_size_bytes", "element_size_bits", "ty", "bit_numbering", "enum", "lsb0", "msb0", "lsb", "le", "msb", "be",
         "bool", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "ReservedZero", "ReservedZeroes", "ReservedOne", "ReservedOnes", "Integer")
HEAD = """
#[allow(non_camel_case_types)] #[derive(Copy, Clone, PartialEq, Eq, Structural)] pub enum Word { @words, Literal(u64), Other(u64) }
/// why an attribute is not accepted: ignored, or the macro panics (the declaration is rejected)
#[derive(Copy, Clone, PartialEq, Eq, Structural)] pub enum Problem { Ignored, Panic }
/// the text of an attribute's value
#[derive(Copy, Clone)] #[verifier::external_body] pub struct Text { n: u64 }
impl Text { pub uninterp spec fn word(self) -> Word; pub uninterp spec fn lower(self) -> Word; pub uninterp spec fn num(self) -> Option<usize>; pub uninterp spec fn pos(self, unit: int) -> Option<BitsPositionParsed>;
  pub uninterp spec fn begins(self, s: Word) -> bool; pub uninterp spec fn radix_after(self, k: int, r: int) -> Option<usize>; pub uninterp spec fn decimal(self) -> Option<usize>;
  #[verifier::external_body] fn is_word(&self, w: Word) -> (r: bool) ensures r == (self.word() == w) { unimplemented!() }
  #[verifier::external_body] fn trim(self) -> (r: Text) ensures r.radix_after(2, 16) == self.radix_after(2, 16), r.decimal() == self.decimal(), forall|w: Word| #[trigger] r.begins(w) == self.begins(w) { unimplemented!() }
  #[verifier::external_body] fn starts_with(&self, w: Word) -> (r: bool) ensures r == self.begins(w) { unimplemented!() }
  #[verifier::external_body] fn parse_after(&self, k: usize, radix: u32) -> (r: Result<usize, Problem>) requires self.begins(Word::w_0x) || self.begins(Word::w_0X) ensures r == (match self.radix_after(k as int, radix as int) { Some(n) => Ok::<usize, Problem>(n), None => Err(Problem::Ignored) }) { unimplemented!() }
  #[verifier::external_body] fn parse_decimal(&self) -> (r: Result<usize, Problem>) ensures r == (match self.decimal() { Some(n) => Ok::<usize, Problem>(n), None => Err(Problem::Ignored) }) { unimplemented!() } }
#[verifier::external_body] fn lowercase(s: Text) -> (r: Word) ensures r == s.lower() { unimplemented!() }
fn or_ignored<T>(o: Option<T>) -> (r: Result<T, Problem>) ensures r == (match o { Some(x) => Ok::<T, Problem>(x), None => Err(Problem::Ignored) }) { match o { Some(x) => Ok(x), None => Err(Problem::Ignored) } }
fn or_panic<T>(o: Option<T>) -> (r: Result<T, Problem>) ensures r == (match o { Some(x) => Ok::<T, Problem>(x), None => Err(Problem::Panic) }) { match o { Some(x) => Ok(x), None => Err(Problem::Panic) } }
/// hexadecimal after 0x or 0X, else decimal
pub open spec fn number(s: Text) -> Option<usize> { if s.begins(Word::w_0x) || s.begins(Word::w_0X) { s.radix_after(2, 16) } else { s.decimal() } }
pub open spec fn numbering_of(w: Word) -> Option<BitNumbering> { match w { Word::w_lsb0 => Some(BitNumbering::Lsb0), Word::w_msb0 => Some(BitNumbering::Msb0), _ => None } }
pub open spec fn order_of(w: Word) -> Option<IntegerEndianness> { match w { Word::w_lsb | Word::w_le => Some(IntegerEndianness::Lsb), Word::w_msb | Word::w_be => Some(IntegerEndianness::Msb), _ => None } }
#[verifier::external_body] fn parse_position_val(v: Text, m: usize) -> (r: Result<BitsPositionParsed, Problem>) ensures v.pos(m as int) matches Some(p) ==> r == Ok::<BitsPositionParsed, Problem>(p), v.pos(m as int).is_none() ==> r.is_err() { unimplemented!() }
/// what an attribute of a structure, and of a field, says; None: nothing (ignored, or the declaration is rejected)
pub open spec fn of_struct(name: Word, v: Text) -> Option<PackStructAttribute> { match name {
  Word::w_endian => match order_of(v.lower()) { Some(e) => Some(PackStructAttribute::DefaultIntEndianness(e)), None => None },
  Word::w_bit_numbering => match numbering_of(v.lower()) { Some(b) => Some(PackStructAttribute::BitNumbering(b)), None => None },
  Word::w_size_bytes => match number(v) { Some(n) => Some(PackStructAttribute::SizeBytes(n)), None => None }, _ => None } }
pub open spec fn of_field(name: Word, v: Text) -> Option<PackFieldAttribute> { match name {
  Word::w_endian => match order_of(v.lower()) { Some(e) => Some(PackFieldAttribute::IntEndiannes(e)), None => None },
  Word::w_bits => match v.pos(1) { Some(p) => Some(PackFieldAttribute::BitPosition(p)), None => None },
  Word::w_bytes => match v.pos(8) { Some(p) => Some(PackFieldAttribute::BytePosition(p)), None => None },
  Word::w_size_bits => match number(v) { Some(n) => Some(PackFieldAttribute::SizeBits(n)), None => None },
  Word::w_size_bytes => match number(v) { Some(n) => Some(PackFieldAttribute::SizeBits((8 * n) as usize)), None => None },
  Word::w_element_size_bits => match number(v) { Some(n) => Some(PackFieldAttribute::ElementSizeBits(n)), None => None },
  Word::w_element_size_bytes => match number(v) { Some(n) => Some(PackFieldAttribute::ElementSizeBits((8 * n) as usize)), None => None },
  Word::w_ty => if v.word() == Word::w_enum { Some(PackFieldAttribute::Ty(TyKind::Enum)) } else { None }, _ => None } }
pub open spec fn modest(v: Text) -> bool { match number(v) { Some(n) => n < 0x1000_0000, None => true } }
/// a numbering (and a field's byte order) that is no such thing rejects the declaration
pub open spec fn struct_panics(name: Word, v: Text) -> bool { name == Word::w_bit_numbering && numbering_of(v.lower()).is_none() }
pub open spec fn field_panics(name: Word, v: Text) -> bool { name == Word::w_endian && order_of(v.lower()).is_none() }
"""
KEPT = """
pub open spec fn kept_@k(a: Seq<(Word, Text)>, n: int) -> Seq<@T> decreases n { if n <= 0 { Seq::empty() } else { match of_@k(a[n - 1].0, a[n - 1].1) { Some(x) => kept_@k(a, n - 1).push(x), None => kept_@k(a, n - 1) } } }
"""
SUB = """
/// syn's view of `#[packed_field(..)]`, with the parts the derive reads
#[derive(Copy, Clone)] pub struct Rejected;
pub struct Path { pub ident: Option<Word> }
pub struct LitStr { pub v: Text } pub enum Lit { Str(LitStr), Other } pub struct ExprLit { pub lit: Lit } pub enum Expr { Lit(ExprLit), Other }
pub struct NameValue { pub path: Path, pub value: Expr }
pub enum Meta { Path(u64), List(u64), NameValue(NameValue) }
pub struct Attribute { pub name: Option<Word>, pub args: Option<Vec<Meta>> }
impl Path { fn get_ident(&self) -> (r: Option<Word>) ensures r == self.ident { self.ident } }
impl Attribute { fn is_ident(&self, w: Word) -> (r: bool) ensures r == (self.name == Some(w)) { match self.name { Some(n) => n == w, None => false } }
  fn arguments(&self) -> (r: Result<&Vec<Meta>, Rejected>) ensures r.is_ok() == self.args.is_some(), r.is_ok() ==> *r->Ok_0 == self.args->0 { match &self.args { Some(a) => Ok(a), None => Err(Rejected) } } }
/// the `key = "value"` items among the first n, and over the first n attributes of that name, in order
pub open spec fn entry(m: Meta) -> Option<(Word, Text)> { match m { Meta::NameValue(nv) => match (nv.path.ident, nv.value) { (Some(k), Expr::Lit(ExprLit { lit: Lit::Str(s) })) => Some((k, s.v)), _ => None }, _ => None } }
pub open spec fn entries(ms: Seq<Meta>, n: int) -> Seq<(Word, Text)> decreases n { if n <= 0 { Seq::empty() } else { match entry(ms[n - 1]) { Some(e) => entries(ms, n - 1).push(e), None => entries(ms, n - 1) } } }
pub open spec fn written(a: Seq<Attribute>, main: Word, n: int) -> Seq<(Word, Text)> decreases n { if n <= 0 { Seq::empty() } else if a[n - 1].name == Some(main) && a[n - 1].args.is_some() { written(a, main, n - 1) + entries(a[n - 1].args->0@, a[n - 1].args->0@.len() as int) } else { written(a, main, n - 1) } }
"""
NOTE = "strings of attributes are words, compared exactly or in lower case; str::{trim, starts_with, parse, to_lowercase} and usize::from_str_radix are uninterpreted functions of the text; syn's parsing of `#[..(key = \"value\", ..)]` into items is trusted"
SIZES_NOTE = "sizes written in attributes below 2^28"
PARTS = {"C13": ("parse_num", "SizeBytes", "PackStruct", "parse_sub")}      # a property's own part; C14, C15: all
def attributes(prop=None):
    u = Unit("attributes"); pa = src(CG + "pack_parse_attributes.rs"); pp = src(CG + "pack_parse.rs"); u.trusted += [NOTE, SIZES_NOTE]
    seen = {}
    def words(g, only=None):
        for i, x in enumerate(g.body):
            if re.match(r'"[^"]*"$', x):
                t = x[1:-1]; g.body[i] = f"Word::w_{t}" if t in WORDS + ("0x", "0X") else f"Word::Literal({seen.setdefault(t, len(seen))})"
        g.rule("string literals compared with names are constants of an enumeration of words")
    for e in ("BitNumbering", "IntegerEndianness", "BitsPositionParsed"):
        h, b = pp.block("enum", e); u.text(f"#[derive(Copy, Clone, PartialEq, Eq, Structural)] pub enum {e} {{ {text(b)} }}")
    for e in ("TyKind", "PackStructAttribute", "PackFieldAttribute", "PackStructAttributeKind", "PackFieldAttributeKind"):
        h, b = pa.block("enum", e); u.text(f"#[derive(Copy, Clone, PartialEq, Eq, Structural)] pub enum {e} {{ {text(b)} }}")
    u.text(HEAD.replace("@words", ", ".join("w_" + w for w in WORDS + ("0x", "0X"))))
    for ty, sp in (("BitNumbering", "numbering_of"), ("IntegerEndianness", "order_of")):
        def go(ty=ty, sp=sp):
            h, b = pp.impl(rf"^impl {ty}$"); g = pp.fn("from_str", b)
            g.subst("s.to_lowercase()", "lowercase(s)", "to_lowercase is lowercase"); g.subst("match s.as_str() {", "match s {", "as_str of a word is the word"); words(g)
            return g, f"impl {ty} {{ fn from_str(s: Text) -> (r: Option<Self>) ensures r == {sp}(s.lower()) {{\n" + g.annotate("", []) + "} }"
        u.fn(f"{ty}::from_str", go)
    def skip_unreadable(g):
        b, i = g.body, 0
        while i < len(b):
            s = " ".join(b[i:i+24]); m = re.match(r"let (\w+) = if let Ok \( (\w+) \) = (\w+) \{ \2 \} else \{ continue( ; \} ;| \} ;)?", s)
            if m:
                e = i; 
                while b[e] != "continue": e += 1
                e += 1 + (b[e+1] == ";") + 1          # past `}`
                if b[e] != ";": raise Lost("skip")
                z = len(b) if False else None; d = 0
                for k in range(e + 1, len(b)):
                    if b[k] in "{([": d += 1
                    elif b[k] in "})]":
                        if d == 0: z = k; break
                        d -= 1
                b[i:z] = lex(f"if let Ok({m.group(1)}) = {m.group(3)} {{") + b[e+1:z] + ["}"]; g.rule("`let x = if let Ok(x) = e { x } else { continue }; REST` is `if let Ok(x) = e { REST }` (loop bodies without `continue`)")
            i += 1
    def messages(g):
        b, i = g.body, 0
        while i < len(b):
            if b[i:i+3] == lex(".map_err("): e = X.close_of(b, i + 2); b[i:e+1] = []; g.rule("map_err of a message is dropped"); continue
            i += 1
    def num():
        g = pp.fn("parse_num"); messages(g); b = g.body; i = 0
        g.subst("s.parse()", "s.parse_decimal()", "str::parse::<usize> is parse_decimal"); b = g.body
        while i < len(b):
            if b[i:i+4] == lex("usize::from_str_radix("):
                e = X.close_of(b, i + 3); a = split_args(b[i+4:e]); m = re.match(r"& s \[ (\d+) \.\. \]$", " ".join(a[0]))
                if not m: raise Lost("number")
                b[i:e+1] = lex(f"s.parse_after({m.group(1)}, ") + a[1] + [")"]; g.rule("usize::from_str_radix(&s[k..], r) is parse_after(k, r)")
            i += 1
        words(g)
        return g, "fn parse_num(s: Text) -> (r: Result<usize, Problem>) ensures r == (match number(s) { Some(n) => Ok::<usize, Problem>(n), None => Err(Problem::Ignored) }) {\n" + g.annotate("", []) + "}"
    if not u.fn("parse_num: decimal or hexadecimal", num): u.text("#[verifier::external_body] fn parse_num(s: Text) -> (r: Result<usize, Problem>) ensures r == (match number(s) { Some(n) => Ok::<usize, Problem>(n), None => Err(Problem::Ignored) }) { unimplemented!() }")
    for ty, k in (("PackStructAttribute", "struct"), ("PackFieldAttribute", "field")):
        kind = ty + "Kind"
        h, kb = pa.block("enum", kind); variants = [x for x in kb if x[0].isupper()]
        named = {"SizeBytes": "size_bytes", "DefaultIntEndianness": "endian", "BitNumbering": "bit_numbering", "IntEndiannes": "endian", "BitPosition": "bits", "BytePosition": "bytes", "SizeBits": "size_bits", "ElementSizeBytes": "element_size_bytes", "ElementSizeBits": "element_size_bits", "Ty": "ty"}
        if any(v not in named for v in variants): raise Lost("another attribute")
        u.text(f"pub open spec fn {k}_name(k: {kind}) -> Word {{ match k {{ " + ", ".join(f"{kind}::{v} => Word::w_{named[v]}" for v in variants) + " } }")
        def name(kind=kind, k=k):
            h, b = pa.impl(rf"^impl {kind}$"); g = pa.fn("get_attr_name", b)
            g.subst(f"use self::{kind}::*;", "", "variants are written with their enumeration"); g.subst(f"use {kind}::*;", "", "variants are written with their enumeration"); bb, i = g.body, 0
            while i < len(bb):
                if bb[i] in named and bb[i-1] != "::": bb[i:i+1] = [kind, "::", bb[i]]; i += 2
                i += 1
            words(g)
            return g, f"impl {kind} {{ fn get_attr_name(&self) -> (r: Word) ensures r == {k}_name(*self) {{\n" + g.annotate("", []) + "} }"
        u.fn(f"{kind}::get_attr_name", name)
        def parse(ty=ty, k=k):
            h, b = pa.impl(rf"^impl {ty}$"); g = pa.fn("parse", b); b = g.body; i = 0
            while i < len(b):
                for fn in ("BitNumbering", "IntegerEndianness"):
                    if b[i:i+4] == [fn, "::", "from_str", "("]:
                        e = X.close_of(b, i + 3); call = b[i:e+1]
                        if b[e+1:e+3] == [".", "ok_or_else"] or b[e+1:e+3] == [".", "ok_or"]:
                            z = X.close_of(b, e + 3); b[i:z+1] = ["or_ignored", "("] + call + [")"]; g.rule("`ok_or_else(message)` is or_ignored")
                        elif b[e+1:e+3] in ([".", "unwrap"], [".", "expect"]):
                            z = X.close_of(b, e + 3); b[i:z+1] = ["or_panic", "("] + call + [")", "?"]; g.rule("unwrap and expect of the macro reject the declaration")
                        else: raise Lost("from_str used in another way")
                        i += 2
                if b[i:i+3] == lex("Err(format"): e = X.close_of(b, i + 1); b[i:e+1] = lex("Err(Problem::Ignored)"); g.rule("an error's message is not specified")
                if b[i:i+2] == ["val", "=="]: b[i:i+3] = ["val", ".", "is_word", "(", b[i+2], ")"]; g.rule("`val == LIT` is a question about the text")
                i += 1
            words(g)
            return g, f"impl {ty} {{ fn parse(name: Word, val: Text) -> (r: Result<Self, Problem>) requires modest(val) ensures r.is_ok() == of_{k}(name, val).is_some(), r.is_ok() ==> r->Ok_0 == of_{k}(name, val)->0, {k}_panics(name, val) ==> r == Err::<Self, Problem>(Problem::Panic) {{\n" + g.annotate("", []) + "} }"
        u.fn(f"{ty}::parse", parse)
        u.text(KEPT.replace("@k", k).replace("@T", ty))
        def every(ty=ty, k=k):
            h, b = pa.impl(rf"^impl {ty}$"); g = pa.fn("parse_all", b)
            g.subst("for (name, val) in attributes {", "for k__ in 0..attributes.len() { let name = attributes[k__].0; let val = attributes[k__].1;", "`for (a, b) in v` is written as an index loop", 1)
            g.subst("let mut r = vec![];", f"let mut r: Vec<{ty}> = Vec::new();", "vec![] is Vec::new()")
            L = [{"kw": "for", "var": 1, "inv": f"invariant r@ =~= kept_{k}(attributes@, @i as int), forall|i: int| 0 <= i < attributes@.len() ==> modest((#[trigger] attributes@[i]).1),"}]
            return g, f"impl {ty} {{ fn parse_all(attributes: &[(Word, Text)]) -> (r: Vec<Self>) requires forall|i: int| 0 <= i < attributes@.len() ==> modest((#[trigger] attributes@[i]).1) ensures r@ == kept_{k}(attributes@, attributes@.len() as int) {{\n" + g.annotate("", L) + "} }"
        u.fn(f"{ty}::parse_all: every attribute, in order", every)
    # which attribute counts: the first of its kind
    KINDS = {("BitNumbering",): ("PackStructAttribute", "BitNumbering"), ("DefaultIntEndianness",): ("PackStructAttribute", "IntegerEndianness"), ("SizeBytes",): ("PackStructAttribute", "usize"),
             ("BitPosition", "BytePosition"): ("PackFieldAttribute", "BitsPositionParsed"), ("SizeBits",): ("PackFieldAttribute", "usize"), ("ElementSizeBits",): ("PackFieldAttribute", "usize"), ("IntEndiannes",): ("PackFieldAttribute", "IntegerEndianness"), ("Enum", "Ty"): ("PackFieldAttribute", "()")}
    def closures(fn):
        b = pp.fn(fn).body; got = {}
        for i in range(len(b)):
            if b[i:i+6] == lex(".iter().filter_map") [:6] and b[i+1] == "iter" and b[i+5] == "filter_map":
                e = X.close_of(b, i + 6); cl = b[i+7:e]; ks = tuple(sorted({x for x in cl if x in {y for q in KINDS for y in q}}))
                if b[e+1:e+5] == lex(".next()"): got.setdefault(ks, []).append(cl)
        return got
    for fn, kinds in (("parse_struct", [("BitNumbering",), ("DefaultIntEndianness",), ("SizeBytes",)]), ("get_field_mid_positioning", [("BitPosition", "BytePosition"), ("SizeBits",), ("ElementSizeBits",)]), ("parse_reg_field", [("IntEndiannes",), ("Enum", "Ty")])):
        for ks in kinds:
            T, R = KINDS[ks]; nm = "first_" + "_".join(ks).lower()
            pat = {("Enum", "Ty"): "PackFieldAttribute::Ty(TyKind::Enum) => Some(())"}.get(ks) or " ".join(f"{T}::{k}(x) => Some(x)," for k in ks).rstrip(",")
            u.text(f"pub open spec fn says_{nm}(a: {T}) -> Option<{R}> {{ match a {{ {pat}, _ => None }} }}\npub open spec fn {nm}_of(v: Seq<{T}>, n: int) -> Option<{R}> decreases n {{ if n <= 0 {{ None }} else {{ match {nm}_of(v, n - 1) {{ Some(x) => Some(x), None => says_{nm}(v[n - 1]) }} }} }}")
            u.text(f"proof fn {nm}_keeps(v: Seq<{T}>, n: int, m: int) requires 0 <= n <= m, {nm}_of(v, n).is_some() ensures {nm}_of(v, m) == {nm}_of(v, n) decreases m {{ if n < m {{ {nm}_keeps(v, n, m - 1); }} }}")
            def go(fn=fn, ks=ks, T=T, R=R, nm=nm):
                got = closures(fn).get(ks, [])
                if len(got) != 1: raise Lost(f"{len(got)} look-ups of {ks}")
                cl = got[0]
                if cl[0] != "|" or cl[2] != "|": raise Lost("look-up")
                a, body = cl[1], list(cl[3:]); g = X.Fn(nm, ["fn"], body); i = 0
                if "&" in body:
                    if not body[:2] == ["match", a]: raise Lost("look-up")
                    body = ["match", "*", a] + [x for x in body[2:] if x != "&"]
                g.body = lex("for k__ in 0..v.len() { let ") + [a] + lex("= &v[k__]; let o__ = {") + body + lex("}; if o__.is_some() { return o__; } } None")
                g.rule("`v.iter().filter_map(|a| E).next()` is written as the loop returning the first Some")
                L = [{"kw": "for", "var": 1, "inv": f"invariant {nm}_of(v@, @i as int).is_none(),", "start": f"proof {{ if says_{nm}(v@[@i as int]).is_some() {{ {nm}_keeps(v@, @i + 1, v@.len() as int); }} }}"}]
                return g, f"fn {nm}(v: &Vec<{T}>) -> (r: Option<{R}>) ensures r == {nm}_of(v@, v@.len() as int) {{\n" + g.annotate("", L) + "}"
            u.fn(f"{fn}: the first {' or '.join(ks)} attribute counts", go)
    # the text of the attributes
    u.text(SUB)
    def sub():
        g = pp.fn("parse_sub_attributes"); rejects(g); b = g.body; i = 0
        g.subst("attr.path().is_ident(", "attr.is_ident(", "the path's identifier is the attribute's name"); g.subst("attr.parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated)", "attr.arguments()", "the parsed arguments are the attribute's", 1)
        g.subst("syn::", "", "syn's types are mirrored"); g.subst("key.to_string()", "key", "an identifier's text is the word"); g.subst("lit.value()", "lit.v", "a string literal's value"); g.subst("let mut r = vec![];", "let mut r: Vec<(Word, Text)> = Vec::new();", "vec![] is Vec::new()")
        skip_unreadable(g); ref_loops(g); g.subst("for attr in attributes {", "for k__ in 0..attributes.len() { let attr = &attributes[k__];", "`for x in v` is written as an index loop"); g.subst("for meta in nested {", "for m__ in 0..nested.len() { let meta = &nested[m__];", "`for x in v` is written as an index loop", 1)
        m = re.search(r"\( (\w+) : & \[ syn :: Attribute \] , (\w+) : & str , (\w+) : & str \)", " ".join(g.header))
        if not m or m.group(1) != "attributes": raise Lost("signature")
        A, B = m.group(2), m.group(3)
        L = [{"kw": "for", "var": 1, "inv": f"invariant r@ =~= written(attributes@, {A}, @i as int), forall|j: int| 0 <= j < @i ==> (#[trigger] attributes@[j]).name != Some({B}),", "end": ""},
             {"kw": "for", "var": 1, "inv": f"invariant k__ < attributes@.len(), attr == &attributes@[k__ as int], attr.name == Some({A}), attr.args.is_some(), *nested == attr.args->0, r@ =~= written(attributes@, {A}, k__ as int) + entries(nested@, @i as int), "}]
        t = g.annotate("", L)
        return g, f"fn parse_sub_attributes(attributes: &[Attribute], {A}: Word, {B}: Word) -> (r: Result<Vec<(Word, Text)>, Rejected>) requires {A} != {B} ensures r.is_ok() == (forall|j: int| 0 <= j < attributes@.len() ==> (#[trigger] attributes@[j]).name != Some({B})), r.is_ok() ==> r->Ok_0@ == written(attributes@, {A}, attributes@.len() as int) {{\n" + t + "}"
    u.fn("parse_sub_attributes: every key and value, in order", sub)
    u.text("""
pub struct PathSegment { pub ident: Word, pub args: Option<usize> }
fn bits_argument(p: &PathSegment) -> (r: Result<Option<usize>, Rejected>) ensures r == Ok::<Option<usize>, Rejected>(p.args) { Ok(p.args) }
/// the width a type has by itself
pub open spec fn natural(p: PathSegment) -> Option<usize> { match p.ident { Word::w_bool => Some(1), Word::w_u8 | Word::w_i8 => Some(8), Word::w_u16 | Word::w_i16 => Some(16), Word::w_u32 | Word::w_i32 => Some(32), Word::w_u64 | Word::w_i64 => Some(64), Word::w_ReservedZero | Word::w_ReservedZeroes | Word::w_ReservedOne | Word::w_ReservedOnes | Word::w_Integer => p.args, _ => None } }
""")
    def builtin():
        g = pp.fn("get_builtin_type_bit_width"); b = g.body; i = seq_at(b, '"Integer" => {'); o = i + 2; e = X.close_of(b, o)
        b[o:e+1] = lex("bits_argument(p)"); g.rule("the number N of `Bits::<N>` among a type's arguments is a parameter")
        g.subst("match p.ident.to_string().as_str() {", "match p.ident {", "an identifier's text is the word", 1); words(g)
        return g, "fn get_builtin_type_bit_width(p: &PathSegment) -> (r: Result<Option<usize>, Rejected>) ensures r == Ok::<Option<usize>, Rejected>(natural(*p)) {\n" + g.annotate("", []) + "}"
    u.fn("get_builtin_type_bit_width: a type's own width", builtin)
    part = PARTS.get(prop)
    if part: u.only = lambda k: any(x in k for x in part)
    return u
