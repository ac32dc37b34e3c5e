"""Verus units: contracts and annotations for functions extracted from /repo."""
import os, re
import extract as X
from extract import File, Fn, Lost, lex, text
import verus as V
from verus import Unit
from core import REPO

def src(p): return File(open(os.path.join(REPO, p)).read())
RT = "packed_struct/src/"
CG = "packed_struct_codegen/src/"

ERROR_NOTE = "PackingError is extracted from /repo; its derives are replaced by Verus' own for Copy, Clone, PartialEq, Eq"
def errors():
    h, b = src(RT + "packing.rs").block("enum", "PackingError")
    return "#[derive(Copy, Clone, PartialEq, Eq)] pub enum PackingError { " + text(b) + "}\npub type PackingResult<T> = Result<T, PackingError>;\n"

# ------------------------------------------------------------------ trait contracts
BYTEARRAY = """
pub open spec fn rot(s: Seq<u8>, k: int) -> Seq<u8> { Seq::new(s.len(), |j: int| if j < k { 0u8 } else { s[j - k] }) }
pub trait ByteArray: Sized {
    spec fn size() -> nat;
    spec fn bytes(&self) -> Seq<u8>;
    proof fn law_len(&self) ensures self.bytes().len() == Self::size();
    fn len() -> (r: usize) ensures r == Self::size();
    fn as_bytes_slice(&self) -> (r: &[u8]) ensures r@ == self.bytes(), r@.len() == Self::size();
    fn as_mut_bytes_slice(&mut self) -> (r: &mut [u8]) ensures r@ == old(self).bytes(), r@.len() == Self::size(), final(self).bytes() == final(r)@;
    fn rotate_right(&mut self, bytes: usize) requires bytes < Self::size() ensures final(self).bytes() == rot(old(self).bytes(), bytes as int);
    fn new(value: u8) -> (r: Self) ensures r.bytes() == Seq::new(Self::size(), |i: int| value);
}
"""
MIN = "fn min_usize(a: usize, b: usize) -> (r: usize) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }\n"
PACKED = """
pub trait PackedStruct: Sized {
    type ByteArray: ByteArray;
    spec fn packed(&self) -> PackingResult<Seq<u8>>;
    spec fn unpacked(s: Seq<u8>) -> PackingResult<Self>;
    fn pack(&self) -> (r: PackingResult<Self::ByteArray>) ensures self.packed() == (match r { Ok(b) => Ok(b.bytes()), Err(e) => Err::<Seq<u8>, PackingError>(e) });
    fn unpack(src: &Self::ByteArray) -> (r: PackingResult<Self>) ensures r == Self::unpacked(src.bytes());
}
"""
SLICE_HEAD = """
pub open spec fn mismatch<T>(expected: nat, actual: nat) -> PackingResult<T> { Err(PackingError::BufferSizeMismatch { expected: expected as usize, actual: actual as usize }) }
pub open spec fn small(n: nat) -> bool { n <= isize::MAX }
pub trait PackedStructSlice: Sized {
    /// the answer to packed_bytes_size
    spec fn size_spec(o: Option<&Self>) -> PackingResult<usize>;
    spec fn pack_spec(&self) -> PackingResult<Seq<u8>>;
    /// what unpacking s may answer
    spec fn unpack_rel(s: Seq<u8>, r: PackingResult<Self>) -> bool;
    /// a failing pack leaves the output untouched
    spec fn clean() -> bool;
    /// the instance's (type's) total size is representable
    spec fn fits(&self) -> bool;
    spec fn fits_none() -> bool;
    proof fn law_static(&self) requires self.fits() ensures Self::fits_none(), Self::size_spec(None).is_ok() ==> Self::size_spec(Some(self)) == Self::size_spec(None);
    fn pack_to_slice(&self, output: &mut [u8]) -> (r: PackingResult<()>)
      requires self.fits()
      ensures final(output)@.len() == old(output)@.len(),
        match Self::size_spec(Some(self)) {
          Err(e) => r.is_err(),
          Ok(n) => if n != old(output)@.len() { r == mismatch::<()>(n as nat, old(output)@.len()) } else {
              match self.pack_spec() { Ok(s) => r.is_ok() && final(output)@ == s, Err(e) => r == Err::<(), PackingError>(e) } } },
        r.is_err() && Self::clean() ==> final(output)@ == old(output)@;
    fn unpack_from_slice(src: &[u8]) -> (r: PackingResult<Self>)
      requires Self::fits_none()
      ensures Self::unpack_rel(src@, r);
    fn packed_bytes_size(opt_self: Option<&Self>) -> (r: PackingResult<usize>)
      requires match opt_self { Some(s) => s.fits(), None => Self::fits_none() }
      ensures r == Self::size_spec(opt_self);
"""
SLICE_VEC = """    fn pack_to_vec(&self) -> (r: PackingResult<Vec<u8>>)
      requires self.fits()
      ensures match Self::size_spec(Some(self)) { Err(e) => r == Err::<Vec<u8>, PackingError>(e), Ok(n) => match self.pack_spec() { Ok(s) => r.is_ok() && r->Ok_0@ == s, Err(e) => r == Err::<Vec<u8>, PackingError>(e) } };
"""
STD_GET = """
pub open spec fn no_part<A>(n: nat) -> PackingResult<A> { Err(PackingError::SliceIndexingError { slice_len: n as usize }) }
#[verifier::external_body]
fn std_get_range<'a>(src: &'a [u8], index: core::ops::Range<usize>) -> (r: Option<&'a [u8]>)
  ensures r.is_some() == (index.start <= index.end <= src@.len()), r.is_some() ==> r->0@ == src@.subrange(index.start as int, index.end as int)
{ src.get(index) }
#[verifier::external_body]
fn std_get_mut_range<'a>(src: &'a mut [u8], index: core::ops::Range<usize>) -> (r: Option<&'a mut [u8]>)
  ensures r.is_some() == (index.start <= index.end <= old(src)@.len()), r.is_none() ==> final(src)@ == old(src)@,
    r.is_some() ==> r->0@ == old(src)@.subrange(index.start as int, index.end as int) && final(src)@ == old(src)@.subrange(0, index.start as int) + final(r->0)@ + old(src)@.subrange(index.end as int, old(src)@.len() as int)
{ src.get_mut(index) }
#[verifier::external_body]
fn std_get_to<'a, T>(src: &'a [T], index: core::ops::RangeTo<usize>) -> (r: Option<&'a [T]>)
  ensures r.is_some() == (index.end <= src@.len()), r.is_some() ==> r->0@ == src@.subrange(0, index.end as int)
{ src.get(index) }
#[verifier::external_body]
fn std_get<'a, T>(src: &'a [T], index: usize) -> (r: Option<&'a T>)
  ensures r.is_some() == (index < src@.len()), r.is_some() ==> *(r->0) == src@[index as int]
{ src.get(index) }
#[verifier::external_body]
fn std_get_mut<'a, T>(src: &'a mut [T], index: usize) -> (r: Option<&'a mut T>)
  ensures r.is_some() == (index < old(src)@.len()), r.is_none() ==> final(src)@ == old(src)@, r.is_some() ==> *(r->0) == old(src)@[index as int] && final(src)@ == old(src)@.update(index as int, *final(r->0))
{ src.get_mut(index) }
"""
GETTER_SIGS = {
"lib_get_slice_range": ("get", "range", """fn lib_get_slice_range<'a>(src: &'a [u8], index: core::ops::Range<usize>) -> (r: PackingResult<&'a [u8]>)
  ensures index.start <= index.end <= src@.len() ==> r.is_ok() && r->Ok_0@ == src@.subrange(index.start as int, index.end as int),
    !(index.start <= index.end <= src@.len()) ==> r == no_part::<&[u8]>(src@.len())"""),
"lib_get_mut_slice_range": ("get_mut", "range", """fn lib_get_mut_slice_range<'a>(src: &'a mut [u8], index: core::ops::Range<usize>) -> (r: PackingResult<&'a mut [u8]>)
  ensures index.start <= index.end <= old(src)@.len() ==> r.is_ok() && r->Ok_0@ == old(src)@.subrange(index.start as int, index.end as int)
       && final(src)@ == old(src)@.subrange(0, index.start as int) + final(r->Ok_0)@ + old(src)@.subrange(index.end as int, old(src)@.len() as int),
    !(index.start <= index.end <= old(src)@.len()) ==> r == no_part::<&mut [u8]>(old(src)@.len()) && final(src)@ == old(src)@"""),
"lib_get_slice_to": ("get", "to", """fn lib_get_slice_to<'a, T>(src: &'a [T], index: core::ops::RangeTo<usize>) -> (r: PackingResult<&'a [T]>)
  ensures index.end <= src@.len() ==> r.is_ok() && r->Ok_0@ == src@.subrange(0, index.end as int), index.end > src@.len() ==> r == no_part::<&[T]>(src@.len())"""),
"lib_get_slice": ("get", "", """fn lib_get_slice<'a, T>(src: &'a [T], index: usize) -> (r: PackingResult<&'a T>)
  ensures index < src@.len() ==> r.is_ok() && *(r->Ok_0) == src@[index as int], index >= src@.len() ==> r == no_part::<&T>(src@.len())"""),
"lib_get_mut_slice": ("get_mut", "", """fn lib_get_mut_slice<'a, T>(src: &'a mut [T], index: usize) -> (r: PackingResult<&'a mut T>)
  ensures index < old(src)@.len() ==> r.is_ok() && *(r->Ok_0) == old(src)@[index as int] && final(src)@ == old(src)@.update(index as int, *final(r->Ok_0)), index >= old(src)@.len() ==> r == no_part::<&mut T>(old(src)@.len()) && final(src)@ == old(src)@"""),
}
def getters(u, which):
    """the named instances of lib_get_slice / lib_get_mut_slice, their bodies extracted"""
    u.text(STD_GET); f = src(RT + "lib.rs")
    for name in which:
        method, suffix, sig = GETTER_SIGS[name]; base = name.split("_range")[0].split("_to")[0]
        def go():
            g = f.fn(base); g.subst(f"src.{method}(index)", f"std_{method}{'_' if suffix else ''}{suffix}(src, index)", f"slice::{method} is the trusted std_{method}{'_' if suffix else ''}{suffix}(src, index)", 1)
            ok_or(g); g.rule("the generic index parameter is instantiated (usize, Range<usize>, RangeTo<usize>)")
            return g, sig + " {\n" + g.annotate("", []) + "}"
        if not u.fn(f"{base} ({suffix or 'index'} instance)", go): u.text("#[verifier::external_body] " + sig + " { unimplemented!() }")
def ok_or(g):
    """F(..).ok_or(E) ==> (match F(..) { Some(v) => Ok(v), None => Err(E) })"""
    b, i = g.body, 0
    while i < len(b):
        if b[i:i+3] == [".", "ok_or", "("] and b[i-1] == ")":
            e = X.close_of(b, i + 2); j = i - 1; d = 0
            while True:
                if b[j] == ")": d += 1
                if b[j] == "(":
                    d -= 1
                    if d == 0: break
                j -= 1
            j -= 1
            new = ["(", "match"] + b[j:i] + ["{", "Some", "(", "v__", ")", "=>", "Ok", "(", "v__", ")", ",", "None", "=>", "Err", "("] + b[i+3:e] + [")", "}", ")"]
            b[j:e+1] = new; g.rule("`o.ok_or(E)` is written as the match it stands for"); i = j + len(new)
        i += 1
GETTERS_NOTE = "slice::get and slice::get_mut (standard library) with an index, a range or a range-to: contract trusted (the addressed part, or None exactly when it is out of bounds); lib_get_slice/lib_get_mut_slice themselves are verified from their extracted bodies"

SLICE_LEN = """
/// Rust guarantees that no slice is longer than isize::MAX bytes
#[verifier::external_body] proof fn axiom_slice_len(s: &[u8]) ensures s@.len() <= isize::MAX { }
"""
SLICE_NOTE = "language guarantee used as an axiom: a byte slice is at most isize::MAX long"
FITS_NOTE = "total packed sizes are assumed representable (at most isize::MAX bytes); vectors of zero-sized items large enough to overflow a multiplication are outside the contract"
USER_NOTE = "element and member types: any type meeting the trait contract (pack and unpack are functions of the value, pack_to_slice obeys the slice contract); every implementation in /repo is verified against it, derived ones by the Kani batteries"

def squeeze(s): return " ".join(s.split())

# ------------------------------------------------------------------ C17
def bits():
    u = Unit("bits"); f = src(RT + "types_bits.rs")
    u.text(BYTEARRAY + MIN)
    h, body = f.impl(r"ByteArray for \[ u8 ; N \]")
    u.text(h + " {\n open spec fn size() -> nat { N as nat } open spec fn bytes(&self) -> Seq<u8> { self@ } proof fn law_len(&self) { }")
    def plain(name, end=""):
        def go():
            g = f.fn(name, body); return g, g.sig() + " {\n" + g.annotate("", [], end) + "}"
        return go
    for n in ("len", "as_bytes_slice", "as_mut_bytes_slice", "rotate_right"): u.method(f"<[u8; N] as ByteArray>::{n}", plain(n), f.fn(n, body))
    def new():
        g = f.fn("new", body); return g, g.sig() + " {\n let r__ = {" + g.annotate("", []) + "}; proof { assert(r__.bytes() =~= Seq::new(Self::size(), |i: int| value)); } r__ }"
    u.method("<[u8; N] as ByteArray>::new", new, f.fn("new", body))
    u.text("}")
    def rot():
        g = f.fn("bytes_rotate_right"); g.iter_mut_take_loops()
        if len(g.loops()) != 2: raise Lost("two loops expected")
        sh = "forall|j: int| bytes <= j < s.len() ==> s[j] == old(s)[j - bytes]"
        L = [{"kw": "loop", "inv": f"invariant s.len() == old(s).len(), bytes < s.len(), 0 <= i <= s.len() - bytes - 1, forall|j: int| 0 <= j <= i ==> s[j] == old(s)[j], forall|j: int| i + bytes < j < s.len() ==> s[j] == old(s)[j - bytes], ensures s.len() == old(s).len(), {sh}, decreases i"},
             {"kw": "for", "var": 1, "inv": f"invariant bytes < old(s).len(), s.len() == old(s).len(), {sh}, forall|j: int| 0 <= j < @i ==> s[j] == 0,"}]
        return g, g.sig() + " requires bytes < old(s).len(), ensures final(s)@ == rot(old(s)@, bytes as int) {\n" + g.annotate("", L) + "\nproof { assert(s@ =~= rot(old(s)@, bytes as int)); } }"
    u.fn("bytes_rotate_right", rot)
    return u

# ------------------------------------------------------------------ C10
def generic():
    u = Unit("generic"); f = src(RT + "types_generic.rs"); p = src(RT + "packing.rs")
    u.trusted += [ERROR_NOTE, USER_NOTE, SLICE_NOTE,
                  "copy_from_slice is given the standard library's contract (equal lengths required, all bytes copied)"]
    u.text(errors() + BYTEARRAY + PACKED + SLICE_HEAD)
    th, tb = p.impl(r"^trait PackedStructSlice", kind="trait")
    u.text(SLICE_VEC.rstrip().rstrip(";"))
    def ptv():
        g = p.fn("pack_to_vec", tb)
        g.subst("&mut buf", "buf.as_mut_slice()", "`&mut buf` (deref coercion of a Vec to a slice) is written `buf.as_mut_slice()`")
        return g, "{\n" + g.annotate("", []) + "}"
    if not u.fn("PackedStructSlice::pack_to_vec (provided method)", ptv): u.text(";")
    u.text("}\n" + "pub assume_specification [ <[u8]>::copy_from_slice ] (d: &mut [u8], s: &[u8]) requires old(d)@.len() == s@.len() ensures final(d)@ == s@;\n" if False else "}\n")
    h, body = f.impl(r"PackedStructSlice for T")
    u.text(h + """ {
    open spec fn size_spec(o: Option<&Self>) -> PackingResult<usize> { Ok(T::ByteArray::size() as usize) }
    open spec fn pack_spec(&self) -> PackingResult<Seq<u8>> { self.packed() }
    open spec fn unpack_rel(s: Seq<u8>, r: PackingResult<Self>) -> bool { r == if s.len() != T::ByteArray::size() { mismatch(T::ByteArray::size(), s.len()) } else { T::unpacked(s) } }
    open spec fn clean() -> bool { true }
    open spec fn fits(&self) -> bool { small(T::ByteArray::size()) }
    open spec fn fits_none() -> bool { small(T::ByteArray::size()) }
    proof fn law_static(&self) { }
""")
    def mk(name, entry="", tail=None):
        def go():
            g = f.fn(name, body)
            g.subst("output[..].copy_from_slice", "output.copy_from_slice", "`x[..].copy_from_slice(y)` is written `x.copy_from_slice(y)` (full-range reborrow)")
            return g, g.sig() + " {\n" + g.annotate(entry, [], tail or "") + "}"
        return go
    u.method("pack_to_slice for T: PackedStruct", mk("pack_to_slice"), f.fn("pack_to_slice", body))
    u.method("unpack_from_slice for T: PackedStruct", mk("unpack_from_slice", "proof { axiom_slice_len(src); }"), f.fn("unpack_from_slice", body))
    u.method("packed_bytes_size for T: PackedStruct", mk("packed_bytes_size"), f.fn("packed_bytes_size", body))
    u.text("}" + SLICE_LEN)
    return u

def vec():
    u = Unit("vec"); f = src(RT + "types_vec.rs")
    u.trusted += [ERROR_NOTE, USER_NOTE, GETTERS_NOTE, SLICE_NOTE, FITS_NOTE]
    u.text(errors() + SLICE_HEAD + "}\n"); getters(u, ["lib_get_slice_range", "lib_get_mut_slice_range"]); u.text(SLICE_LEN + """
pub open spec fn all_pack<T: PackedStructSlice>(v: Seq<T>) -> PackingResult<Seq<u8>> decreases v.len() {
    if v.len() == 0 { Ok(Seq::empty()) } else { match all_pack(v.drop_last()) { Err(e) => Err(e), Ok(p) => match v.last().pack_spec() { Err(e) => Err(e), Ok(q) => Ok(p + q) } } } }
proof fn lemma_prefix_err<T: PackedStructSlice>(v: Seq<T>, k: int) requires 0 <= k <= v.len(), all_pack(v.take(k)).is_err() ensures all_pack(v) == all_pack(v.take(k)) decreases v.len() - k {
    if k == v.len() { assert(v.take(k) =~= v); } else { assert(v.take(k + 1).drop_last() =~= v.take(k)); lemma_prefix_err(v, k + 1); } }
pub open spec fn chunk(s: Seq<u8>, n: int, i: int) -> Seq<u8> { s.subrange(i * n, (i + 1) * n) }
pub open spec fn item_ok<T: PackedStructSlice>(s: Seq<u8>, n: int, i: int) -> bool { exists|x: T| #[trigger] T::unpack_rel(chunk(s, n, i), Ok(x)) }
pub open spec fn vec_rel<T: PackedStructSlice>(s: Seq<u8>, r: PackingResult<Vec<T>>) -> bool { match T::size_spec(None) { Err(e) => r == Err::<Vec<T>, PackingError>(e), Ok(n) =>
    if n == 0 || s.len() == 0 { r.is_ok() && r->Ok_0@.len() == 0 }
    else if s.len() % (n as nat) != 0 { r == Err::<Vec<T>, PackingError>(PackingError::BufferModMismatch { actual_size: s.len() as usize, modulo_required: n }) }
    else { match r { Ok(v) => v@.len() == s.len() / (n as nat) && forall|i: int| 0 <= i < v@.len() ==> T::unpack_rel(#[trigger] chunk(s, n as int, i), Ok(v@[i])),
             Err(e) => exists|i: int| 0 <= i < s.len() / (n as nat) && T::unpack_rel(#[trigger] chunk(s, n as int, i), Err(e)) && forall|j: int| 0 <= j < i ==> item_ok::<T>(s, n as int, j) } } } }
pub open spec fn pk<T: PackedStructSlice>(x: T, n: nat) -> bool { x.pack_spec().is_ok() && x.pack_spec()->Ok_0.len() == n }
/// the whole: byte c of item i sits at i*n + c
proof fn lemma_pack_len<T: PackedStructSlice>(v: Seq<T>, n: nat) requires all_pack(v).is_ok(), forall|i: int| 0 <= i < v.len() ==> pk(#[trigger] v[i], n as nat) ensures all_pack(v)->Ok_0.len() == v.len() * n decreases v.len() {
    if v.len() > 0 { let p = v.drop_last(); assert(all_pack(p).is_ok()); assert(v.last() == v[v.len() - 1]); assert forall|i: int| 0 <= i < p.len() implies pk(#[trigger] p[i], n as nat) by { assert(p[i] == v[i]); } lemma_pack_len(p, n); assert(v.len() * n == (v.len() - 1) * n + n) by (nonlinear_arith) requires v.len() > 0; } else { assert(0 * n == 0); } }
/// unpack(pack(v)) == v whenever it holds item by item
proof fn lemma_round_trip<T: PackedStructSlice>(v: Seq<T>, n: usize, r: PackingResult<Vec<T>>)
  requires n > 0, T::size_spec(None) == Ok::<usize, PackingError>(n), all_pack(v).is_ok(), vec_rel::<T>(all_pack(v)->Ok_0, r),
    forall|i: int| 0 <= i < v.len() ==> pk(#[trigger] v[i], n as nat),
    forall|i: int, a: PackingResult<T>| 0 <= i < v.len() && T::unpack_rel((#[trigger] v[i]).pack_spec()->Ok_0, a) ==> #[trigger] same(a, Ok(v[i]))
  ensures r.is_ok() && r->Ok_0@ == v
{ lemma_pack_len(v, n as nat); let s = all_pack(v)->Ok_0; assert(s.len() == v.len() * n);
  if v.len() == 0 { assert(s.len() == 0) by (nonlinear_arith) requires s.len() == v.len() * n, v.len() == 0; assert(r->Ok_0@ =~= v); } else {
  vstd::arithmetic::div_mod::lemma_div_by_multiple(v.len() as int, n as int); vstd::arithmetic::div_mod::lemma_mod_multiples_basic(v.len() as int, n as int); assert(s.len() > 0) by (nonlinear_arith) requires s.len() == v.len() * n, n > 0, v.len() > 0;
  assert forall|i: int| 0 <= i < v.len() implies #[trigger] chunk(s, n as int, i) == v[i].pack_spec()->Ok_0 by { lemma_item(v, n as nat, i); assert((i + 1) * n == i * n + n) by (nonlinear_arith); }
  match r { Ok(w) => { assert forall|i: int| 0 <= i < v.len() implies w@[i] == v[i] by { let c = chunk(s, n as int, i); assert(T::unpack_rel(c, Ok(w@[i]))); assert(same::<PackingResult<T>>(Ok(w@[i]), Ok(v[i]))); } assert(w@ =~= v); }
            Err(e) => { let i = choose|i: int| 0 <= i < v.len() && T::unpack_rel(#[trigger] chunk(s, n as int, i), Err(e)); assert(same::<PackingResult<T>>(Err(e), Ok(v[i]))); } } } }
pub open spec fn same<A>(a: A, b: A) -> bool { a == b }
proof fn lemma_item<T: PackedStructSlice>(v: Seq<T>, n: nat, i: int)
  requires 0 <= i < v.len(), all_pack(v).is_ok(), forall|j: int| 0 <= j < v.len() ==> pk(#[trigger] v[j], n as nat)
  ensures (i + 1) * n <= all_pack(v)->Ok_0.len(), 0 <= i * n, all_pack(v)->Ok_0.subrange(i * n, i * n + n) == v[i].pack_spec()->Ok_0
  decreases v.len()
{ lemma_pack_len(v, n); let p = v.drop_last(); assert forall|j: int| 0 <= j < p.len() implies pk(#[trigger] p[j], n as nat) by { assert(p[j] == v[j]); } lemma_pack_len(p, n);
  assert(v.last() == v[v.len() - 1]); assert((i + 1) * n <= v.len() * n && 0 <= i * n && (i + 1) * n == i * n + n) by (nonlinear_arith) requires 0 <= i < v.len(), n >= 0;
  if i == v.len() - 1 { assert(all_pack(v)->Ok_0.subrange(i * n, i * n + n) =~= v.last().pack_spec()->Ok_0); }
  else { lemma_item(p, n, i); assert((i + 1) * n <= p.len() * n) by (nonlinear_arith) requires i < p.len(), n >= 0; assert(all_pack(v)->Ok_0.subrange(i * n, i * n + n) =~= all_pack(p)->Ok_0.subrange(i * n, i * n + n)); } }
proof fn lemma_mul(i: int, k: int, n: int) requires 0 <= i < k, 0 <= n ensures 0 <= i * n, i * n <= (i + 1) * n, (i + 1) * n == i * n + n, (i + 1) * n <= k * n { assert(0 <= i * n && (i + 1) * n == i * n + n && (i + 1) * n <= k * n) by (nonlinear_arith) requires 0 <= i < k, 0 <= n; }
""")
    h, body = f.impl(r"PackedStructSlice for Vec")
    u.text(h + """ {
    open spec fn size_spec(o: Option<&Self>) -> PackingResult<usize> { match o { None => Err(PackingError::InstanceRequiredForSize), Some(s) => match T::size_spec(None) { Err(e) => Err(e), Ok(n) => Ok((s@.len() * n) as usize) } } }
    open spec fn pack_spec(&self) -> PackingResult<Seq<u8>> { all_pack(self@) }
    open spec fn unpack_rel(s: Seq<u8>, r: PackingResult<Self>) -> bool { vec_rel::<T>(s, r) }
    open spec fn clean() -> bool { false }
    open spec fn fits(&self) -> bool { T::fits_none() && (T::size_spec(None).is_ok() ==> small(self@.len() * (T::size_spec(None)->Ok_0 as nat))) && forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).fits() }
    open spec fn fits_none() -> bool { T::fits_none() }
    proof fn law_static(&self) { }
""")
    common = "size == T::size_spec(None)->Ok_0, T::size_spec(None).is_ok(), self.fits(), output@.len() == old(output)@.len(), output@.len() == self@.len() * size, self@.len() * size <= isize::MAX,"
    def pack():
        g = f.fn("pack_to_slice", body); g.enumerate_loops(); ranges(g)
        L = [{"kw": "for", "var": 1, "inv": f"invariant {common} all_pack(self@.take(@i as int)).is_ok(), output@.take(@i * size) == all_pack(self@.take(@i as int))->Ok_0,",
              "start": "proof { lemma_mul(@i as int, self@.len() as int, size as int); self@[@i as int].law_static(); let k__ = @i as int; assert(self@.take(k__ + 1).drop_last() =~= self@.take(k__)); assert(self@.take(k__ + 1).last() == self@[k__]); if all_pack(self@.take(k__ + 1)).is_err() { lemma_prefix_err(self@, k__ + 1); } } let ghost before__ = output@;",
              "end": "proof { assert(output@.take((@i + 1) * size) =~= before__.take(@i * size) + self@[@i as int].pack_spec()->Ok_0); }"}]
        return g, g.sig() + " {\n" + g.annotate("proof { assert(self@.take(0) =~= Seq::<T>::empty()); assert(output@.take(0) =~= Seq::<u8>::empty()); assert(0 * (T::size_spec(None)->Ok_0) == 0); assert(all_pack(Seq::<T>::empty()) == Ok::<Seq<u8>, PackingError>(Seq::empty())); }", L, "proof { assert(self@.take(self@.len() as int) =~= self@); assert(output@.take(self@.len() * size) =~= output@); }") + "}"
    u.method("pack_to_slice for Vec<T>", pack, f.fn("pack_to_slice", body))
    def unpack():
        g = f.fn("unpack_from_slice", body); ranges(g)
        g.subst("src.is_empty()", "(src.len() == 0)", "`s.is_empty()` is written `s.len() == 0`")
        L = [{"kw": "for", "var": 1, "inv": "invariant T::fits_none(), T::size_spec(None) == Ok::<usize, PackingError>(item_size), item_size > 0, n * item_size == src@.len(), src@.len() <= isize::MAX, n <= src@.len(), n == src@.len() / (item_size as nat), src@.len() > 0, src@.len() % (item_size as nat) == 0, vec@.len() == @i, forall|j: int| 0 <= j < @i ==> T::unpack_rel(#[trigger] chunk(src@, item_size as int, j), Ok(vec@[j])), forall|j: int| 0 <= j < @i ==> item_ok::<T>(src@, item_size as int, j), ",
              "start": "proof { lemma_mul(@i as int, n as int, item_size as int); let c__ = chunk(src@, item_size as int, @i as int); assert(c__ == src@.subrange(@i * item_size, (@i + 1) * item_size)); }", "end": "proof { assert(T::unpack_rel(chunk(src@, item_size as int, @i as int), Ok(vec@[@i as int]))); }"}]
        return g, g.sig() + " {\n" + g.annotate("proof { axiom_slice_len(src); if T::size_spec(None).is_ok() { let k__ = T::size_spec(None)->Ok_0; if k__ > 0 { assert(src@.len() == (src@.len() as int / k__ as int) * k__ + (src@.len() as int % k__ as int)) by (nonlinear_arith) requires k__ > 0; assert(src@.len() as int / k__ as int <= src@.len()) by (nonlinear_arith) requires k__ > 0; } } } ", L) + "}"
    u.method("unpack_from_slice for Vec<T>", unpack, f.fn("unpack_from_slice", body))
    def size():
        g = f.fn("packed_bytes_size", body); return g, g.sig() + " {\n" + g.annotate("", []) + "}"
    u.method("packed_bytes_size for Vec<T>", size, f.fn("packed_bytes_size", body))
    u.text("}")
    return u

def ranges(g):
    """lib_get_slice / lib_get_mut_slice with a range argument: the range instances of the two generic helpers"""
    b, i = g.body, 0
    while i < len(b):
        if b[i] in ("lib_get_slice", "lib_get_mut_slice") and b[i + 1] == "(":
            e = X.close_of(b, i + 1); inner = b[i + 2:e]; d = 0
            for k, x in enumerate(inner):
                if x in X.OPEN: d += 1
                elif x in X.CLOSE: d -= 1
                elif inner[0] == "nth_range" or "nth_range" in inner[:6] and k == len(inner) - 1: b[i] += "_range"; g.rule("calls of the generic lib_get_slice/lib_get_mut_slice name the instance they use (index, range, range-to)"); break
                elif x == ".." and d == 0: 
                    b[i] += "_range" if inner[k - 1] != "," else "_to"; g.rule("calls of the generic lib_get_slice/lib_get_mut_slice name the instance they use (index, range, range-to)"); break
        i += 1

# ------------------------------------------------------------------ C12
def sum_count(g):
    """Iterator chains with a fold at the end, as the loops they stand for."""
    b = g.body
    def chain_start(i):          # start of the postfix expression ending before b[i] (a `.`)
        j = i - 1
        while j >= 0 and (re.match(r"[A-Za-z_]\w*$", b[j]) or b[j] == "." or b[j] == "self"): j -= 1
        return j + 1
    i = 0
    while i < len(b):
        if b[i:i+4] == [".", "iter", "(", ")"]:
            s, e = chain_start(i), i + 4; E = b[s:i]
            t = b[e:]
            if t[:4] == [".", "sum", "(", ")"]:
                new = ["{", "let", "mut", "n__", ":", "usize", "=", "0", ";", "for", "k__", "in", "0", ".."] + E + [".", "len", "(", ")", "{", "n__", "=", "n__", "+"] + E + ["[", "k__", "]", ";", "}", "n__", "}"]
                b[s:e+4] = new; g.rule("`E.iter().sum()` is written as the loop adding E[k]"); i = s + len(new); continue
            if t[:3] in ([".", "filter", "("], [".", "filter_map", "("]) and t[3] == "|" and t[5] == "|":
                c = X.close_of(b, e + 2); v, P = b[e+4], b[e+6:c]; tail = b[c+1:c+5]
                if t[1] == "filter" and tail == [".", "count", "(", ")"]:
                    P2 = []
                    for k, x in enumerate(P):
                        if x in ("&&", "&") and (k == 0 or P[k-1] in ("==", "!=")): continue
                        P2.append(x)
                    new = ["{", "let", "mut", "n__", ":", "usize", "=", "0", ";", "for", "k__", "in", "0", ".."] + E + [".", "len", "(", ")", "{", "let", v, "="] + E + ["[", "k__", "]", ";", "if"] + P2 + ["{", "n__", "+=", "1", ";", "}", "}", "n__", "}"]
                    b[s:c+5] = new; g.rule("`E.iter().filter(|x| P).count()` is written as the loop counting the k with P(E[k]) (references in comparisons dropped)"); i = s + len(new); continue
                if t[1] == "filter_map" and tail == [".", "sum", "(", ")"]:
                    new = ["{", "let", "mut", "n__", ":", "usize", "=", "0", ";", "for", "k__", "in", "0", ".."] + E + [".", "len", "(", ")", "{", "let", v, "=", "&"] + E + ["[", "k__", "]", ";", "match"] + ["{"] + P + ["}"] + ["{", "Some", "(", "v__", ")", "=>", "{", "n__", "+=", "v__", ";", "}", "None", "=>", "{", "}", "}", "}", "n__", "}"]
                    b[s:c+5] = new; g.rule("`E.iter().filter_map(|x| P).sum()` is written as the loop adding the values P(&E[k]) yields"); i = s + len(new); continue
        i += 1

def option_map(g):
    """o.map(|x| E)  ==>  (match o { Some(x) => Some(E), None => None })"""
    b, i = g.body, 0
    while i < len(b):
        if b[i+1:i+5] == [".", "map", "(", "|"] and b[i+6] == "|":
            e = X.close_of(b, i + 3); new = ["(", "match", b[i], "{", "Some", "(", b[i+5], ")", "=>", "Some", "("] + b[i+7:e] + [")", ",", "None", "=>", "None", "}", ")"]
            b[i:e+1] = new; g.rule("`o.map(|x| E)` is written as the match it stands for")
        i += 1

PLAN = """
pub open spec fn is_dyn(r: PackingResult<usize>) -> bool { r == Err::<usize, PackingError>(PackingError::InstanceRequiredForSize) }
pub open spec fn len_of(r: PackingResult<usize>) -> StructLength { match r { Ok(n) => StructLength::Static(n), Err(_) => StructLength::Dynamic } }
pub open spec fn dyn_count(l: Seq<StructLength>) -> nat decreases l.len() { if l.len() == 0 { 0 } else { dyn_count(l.drop_last()) + if l.last() == StructLength::Dynamic { 1nat } else { 0nat } } }
pub open spec fn static_of(l: StructLength) -> nat { match l { StructLength::Static(n) => n as nat, _ => 0 } }
pub open spec fn static_sum(l: Seq<StructLength>) -> nat decreases l.len() { if l.len() == 0 { 0 } else { static_sum(l.drop_last()) + static_of(l.last()) } }
/// the bytes member i takes when the dynamic one takes d
pub open spec fn bytes_of(l: StructLength, d: nat) -> nat { match l { StructLength::Static(n) => n as nat, StructLength::Dynamic => d, StructLength::Empty => 0 } }
/// where member i starts: after all the bytes of the members before it
pub open spec fn start_of(l: Seq<StructLength>, d: nat, i: nat) -> nat decreases i { if i == 0 || i > l.len() { 0 } else { start_of(l, d, (i - 1) as nat) + bytes_of(l[i - 1], d) } }
pub open spec fn no_empty(l: Seq<StructLength>) -> bool { forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] != StructLength::Empty }
/// what the one dynamic member is left with
pub open spec fn rest(l: Seq<StructLength>, total: nat) -> nat { if dyn_count(l) == 1 { (total - static_sum(l)) as nat } else { 0 } }
pub open spec fn divides(l: Seq<StructLength>, total: nat) -> bool { dyn_count(l) <= 1 && static_sum(l) <= total && (dyn_count(l) == 0 ==> static_sum(l) == total) }
pub open spec fn refusal<T>(l: Seq<StructLength>, total: nat) -> PackingResult<T> { if dyn_count(l) > 1 { Err(PackingError::MoreThanOneDynamicType) } else { mismatch(static_sum(l), total) } }
proof fn lemma_total(l: Seq<StructLength>, d: nat, k: nat) requires k <= l.len() ensures start_of(l, d, k) == static_sum(l.take(k as int)) + dyn_count(l.take(k as int)) * d decreases k {
    if k > 0 { lemma_total(l, d, (k - 1) as nat); let t = l.take(k as int); assert(t.drop_last() =~= l.take(k - 1)); assert(t.last() == l[k - 1]); assert((dyn_count(t.drop_last()) + 1) * d == dyn_count(t.drop_last()) * d + d) by (nonlinear_arith); assert(0 * d == 0) by (nonlinear_arith); } else { assert(0 * d == 0) by (nonlinear_arith); } }
proof fn lemma_mono(l: Seq<StructLength>, d: nat, i: nat, k: nat) requires i <= k <= l.len() ensures start_of(l, d, i) <= start_of(l, d, k) decreases k - i { if i < k { lemma_mono(l, d, i, (k - 1) as nat); } }
proof fn lemma_sum_mono(l: Seq<StructLength>, k: int) requires 0 <= k <= l.len() ensures static_sum(l.take(k)) <= static_sum(l), dyn_count(l.take(k)) <= dyn_count(l), dyn_count(l) <= l.len() decreases l.len() - k { if k == l.len() { assert(l.take(k) =~= l); lemma_dyn_len(l); } else { lemma_sum_mono(l, k + 1); assert(l.take(k + 1).drop_last() =~= l.take(k)); } }
proof fn lemma_dyn_len(l: Seq<StructLength>) ensures dyn_count(l) <= l.len() decreases l.len() { if l.len() > 0 { lemma_dyn_len(l.drop_last()); } }
proof fn lemma_push(l: Seq<StructLength>, x: StructLength) ensures static_sum(l.push(x)) == static_sum(l) + static_of(x), dyn_count(l.push(x)) == dyn_count(l) + if x == StructLength::Dynamic { 1nat } else { 0nat } { assert(l.push(x).drop_last() =~= l); }
pub open spec fn psum(s: Seq<usize>, i: nat) -> nat decreases i { if i == 0 { 0 } else { psum(s, (i - 1) as nat) + s[i - 1] as nat } }
proof fn lemma_psum(s: Seq<usize>, i: nat, k: nat) requires i <= k ensures psum(s, i) <= psum(s, k) decreases k - i { if i < k { lemma_psum(s, i, (k - 1) as nat); } }
proof fn lemma_psum_start(s: Seq<usize>, l: Seq<StructLength>, d: nat, i: nat) requires i <= l.len(), forall|j: int| 0 <= j < l.len() ==> #[trigger] s[j] == bytes_of(l[j], d) ensures psum(s, i) == start_of(l, d, i) decreases i { if i > 0 { lemma_psum_start(s, l, d, (i - 1) as nat); } }
proof fn lemma_psum_all(s: Seq<usize>, l: Seq<StructLength>, d: nat) requires forall|j: int| 0 <= j < l.len() ==> #[trigger] s[j] == bytes_of(l[j], d) ensures forall|i: int| 0 <= i <= l.len() ==> #[trigger] psum(s, i as nat) == start_of(l, d, i as nat) { assert forall|i: int| 0 <= i <= l.len() implies #[trigger] psum(s, i as nat) == start_of(l, d, i as nat) by { lemma_psum_start(s, l, d, i as nat); } }
/// all members together take the whole buffer
proof fn lemma_whole(l: Seq<StructLength>, total: nat) requires divides(l, total) ensures start_of(l, rest(l, total), l.len()) == total { lemma_total(l, rest(l, total), l.len()); assert(l.take(l.len() as int) =~= l); let d = rest(l, total); assert(0 * d == 0 && 1 * d == d) by (nonlinear_arith); }
"""
TUPLE_HELPERS = """
/// `ranges.get(k).ok_or(InternalError)?.clone()` without the `?`
#[verifier::external_body]
fn nth_range(ranges: &[core::ops::Range<usize>], k: usize) -> (r: PackingResult<core::ops::Range<usize>>)
  ensures k < ranges@.len() ==> r.is_ok() && r->Ok_0 == ranges@[k as int], k >= ranges@.len() ==> r == Err::<core::ops::Range<usize>, PackingError>(PackingError::InternalError)
{ unimplemented!() }
"""
def nth_range(g):
    b, i = g.body, 0
    while i < len(b):
        if b[i:i+4] == ["ranges", ".", "get", "("]:
            e = X.close_of(b, i + 3); k = b[i+4:e]
            want = lex(".ok_or(crate::PackingError::InternalError)?.clone()"); w2 = lex(".ok_or(PackingError::InternalError)?.clone()")
            for w in (want, w2):
                if b[e+1:e+1+len(w)] == w:
                    b[i:e+1+len(w)] = ["nth_range", "(", "ranges", ","] + k + [")", "?"]; g.rule("`ranges.get(k).ok_or(InternalError)?.clone()` is the trusted helper nth_range(ranges, k)?"); break
        i += 1

def module(f, name):
    """the File of `mod name { .. }` inside f"""
    t = f.t
    for i in range(len(t) - 2):
        if t[i] == "mod" and t[i+1] == name and t[i+2] == "{":
            g = File(""); g.t = t[i+3:X.close_of(t, i + 2)]; return g
    raise Lost(f"no module {name} in the expanded crate")
def tuples(exp=None):
    u = Unit("tuples"); f = src(RT + "types_tuples.rs")
    u.trusted += [ERROR_NOTE, USER_NOTE, GETTERS_NOTE, SLICE_NOTE, FITS_NOTE, "nth_range(ranges, k) stands for ranges.get(k).ok_or(InternalError)?.clone()"]
    u.text(errors() + SLICE_HEAD + "}\n"); getters(u, list(GETTER_SIGS)); u.text(SLICE_LEN + "use core::ops::Range;\n")
    h, b = f.block("enum", "StructLength"); u.text("#[derive(Copy, Clone, PartialEq, Eq, Structural)] pub enum StructLength { " + text(b) + "}")
    h, b = f.block("struct", "StructLengthBuilder"); u.text("pub " + " ".join(h) + " { " + re.sub(r"(\w+) :", r"pub \1 :", text(b)) + "}")
    h, b = f.block("struct", "StructLengths"); u.text("pub " + " ".join(h) + " { " + re.sub(r"(?<!:)\b(\w+) : (?!:)", r"pub \1 : ", text(b)) + "}")
    u.text(PLAN + TUPLE_HELPERS + """
impl StructLengthBuilder { pub open spec fn list(&self) -> Seq<StructLength> { self.lengths@.take(self.i as int) } pub open spec fn wf(&self) -> bool { self.i <= 16 && no_empty(self.list()) } }
impl StructLengths { pub open spec fn matches(&self, l: Seq<StructLength>, d: nat) -> bool { self.len == l.len() && self.len <= 16 && forall|i: int| 0 <= i < l.len() ==> (#[trigger] self.ranges@[i]).start == start_of(l, d, i as nat) && self.ranges@[i].end == start_of(l, d, (i + 1) as nat) } }
""")
    hb, bb = f.impl(r"^impl StructLengthBuilder$"); hl, bl = f.impl(r"^impl StructLengths$")
    u.text("impl StructLengthBuilder {")
    def new():
        g = f.fn("new", bb); return g, g.sig() + " ensures r.wf(), r.i == 0, r.list() == Seq::<StructLength>::empty() {\nlet r__ = {" + g.annotate("", []) + "}; proof { assert(r__.list() =~= Seq::empty()); } r__ }"
    u.fn("StructLengthBuilder::new", new)
    def add():
        g = f.fn("add", bb)
        return g, g.sig() + """ requires old(self).wf(), old(self).i < 16, match st { Some(s) => s.fits(), None => S::fits_none() }
  ensures ({ let z = S::size_spec(st); if z.is_err() && !is_dyn(z) { r == Err::<StructLength, PackingError>(z->Err_0) } else { r == Ok::<StructLength, PackingError>(len_of(z)) && final(self).wf() && final(self).i == old(self).i + 1 && final(self).list() == old(self).list().push(len_of(z)) } }) {
""" + g.annotate("", [], "proof { assert(self.list() =~= old(self).list().push(len)); }") + "}"
    u.fn("StructLengthBuilder::add", add)
    def build():
        g = f.fn("build", bb); g.enumerate_loops(); sum_count(g); ranges(g)
        all16 = "lengths@.len() <= 16, no_empty(lengths@), lengths@ == self.list(), self.wf(), self.i == lengths@.len(),"
        L = [{"kw": "for", "var": 1, "inv": f"invariant {all16} n__ == dyn_count(lengths@.take(@i as int)), n__ <= @i,", "start": "proof { assert(lengths@.take(@i + 1).drop_last() =~= lengths@.take(@i as int)); }"},
             {"kw": "for", "var": 1, "inv": f"invariant {all16} n__ == static_sum(lengths@.take(@i as int)), static_sum(lengths@) <= isize::MAX,", "start": "proof { assert(lengths@.take(@i + 1).drop_last() =~= lengths@.take(@i as int)); lemma_sum_mono(lengths@, @i + 1); lemma_sum_mono(lengths@, @i as int); }"},
             {"kw": "for", "var": 1, "inv": f"invariant {all16} forall|j: int| 0 <= j < @i ==> #[trigger] output_lengths@[j] == bytes_of(lengths@[j], len_dy as nat),"}]
        return g, g.sig() + """ requires self.wf(), static_sum(self.list()) <= isize::MAX, total_length <= isize::MAX
  ensures ({ let l = self.list(); if divides(l, total_length as nat) { r.is_ok() && r->Ok_0.matches(l, rest(l, total_length as nat)) } else { r == refusal::<StructLengths>(l, total_length as nat) } }) {
proof { assert(self.list().take(0) =~= Seq::<StructLength>::empty()); assert(self.list().take(self.list().len() as int) =~= self.list()); lemma_dyn_len(self.list()); assert(self.lengths@.subrange(0, self.i as int) =~= self.list()); if divides(self.list(), total_length as nat) { lemma_whole(self.list(), total_length as nat); } }
""" + g.annotate("", L, "proof { lemma_psum_all(output_lengths@, lengths@, len_dy as nat); assert(psum(output_lengths@, lengths@.len()) == start_of(lengths@, len_dy as nat, lengths@.len())); }") + "}"
    u.fn("StructLengthBuilder::build", build)
    u.text("}\nimpl StructLengths {")
    def lnew():
        g = f.fn("new", bl); ranges(g)
        g.subst("let l = lib_get_slice(&lengths, i)?;", "let l = *lib_get_slice(&lengths, i)?;", "a `&usize` operand is dereferenced where it is bound")
        L = [{"kw": "for", "var": 1, "inv": "invariant len <= 16, psum(lengths@, len as nat) <= usize::MAX, n == psum(lengths@, @i as nat), forall|j: int| 0 <= j < @i ==> (#[trigger] ranges@[j]).start == psum(lengths@, j as nat) && ranges@[j].end == psum(lengths@, (j + 1) as nat),",
              "start": "proof { lemma_psum(lengths@, (@i + 1) as nat, len as nat); }"}]
        return g, g.sig() + " requires len <= 16, psum(lengths@, len as nat) <= usize::MAX ensures r.is_ok(), r->Ok_0.len == len, forall|j: int| 0 <= j < len ==> (#[trigger] r->Ok_0.ranges@[j]).start == psum(lengths@, j as nat) && r->Ok_0.ranges@[j].end == psum(lengths@, (j + 1) as nat) {\n" + g.annotate("", L) + "}"
    u.fn("StructLengths::new", lnew)
    def gr():
        g = f.fn("get_ranges", bl); ranges(g)
        return g, g.sig() + " requires self.len <= 16 ensures r.is_ok(), r->Ok_0@ == self.ranges@.take(self.len as int) {\n" + g.annotate("", []) + "}"
    u.fn("StructLengths::get_ranges", gr)
    u.text("}\n")
    return u

def tuple_impl(n, ef, size_only=False):
    """The implementation of PackedStructSlice for tuples of n members, as the macro expands it."""
    u = tuples(); ks = range(n)
    # the builder's functions are verified in their own unit; here only their contracts count
    u.parts = [(None, external(t) if k else t) for k, t in u.parts]; u.fns = {}; u.name = f"tuple{n}"
    T = "ABCDEFGHIJ"[:n]; ty = "(" + "".join(t + ", " for t in T) + ")"
    gen = "<" + ", ".join(t + ": PackedStructSlice" for t in T) + ">"
    push = lambda g: "Seq::<StructLength>::empty()" + "".join(f".push(len_of({g(i)}))" for i in ks)
    some = lambda i: f"{T[i]}::size_spec(Some(&s.{i}))"
    none = lambda i: f"{T[i]}::size_spec(None)"
    first = lambda g, ok: "".join(f"if {g(i)}.is_err() && !is_dyn({g(i)}) {{ Some({g(i)}->Err_0) }} else " for i in ks) + "{ None }"
    targs = "::<" + ", ".join(T) + ">"
    u.text(f"""
pub open spec fn lens{gen}(s: &{ty}) -> Seq<StructLength> {{ {push(some)} }}
pub open spec fn lens_none{gen}() -> Seq<StructLength> {{ {push(none)} }}
pub open spec fn bad_size{gen}(s: &{ty}) -> Option<PackingError> {{ {first(some, 0)} }}
pub open spec fn bad_size_none{gen}() -> Option<PackingError> {{ {first(none, 0)} }}
proof fn lemma_unroll(l: Seq<StructLength>, d: nat) requires l.len() == {n} ensures
  start_of(l, d, 0) == 0, {', '.join(f'start_of(l, d, {i + 1}) == start_of(l, d, {i}) + bytes_of(l[{i}], d)' for i in ks)},
  static_sum(l) == {' + '.join(f'static_of(l[{i}])' for i in ks)}, dyn_count(l) == {' + '.join(f'(if l[{i}] == StructLength::Dynamic {{ 1nat }} else {{ 0nat }})' for i in ks)}
{{ reveal_with_fuel(start_of, {n + 2}); let e = Seq::<StructLength>::empty(); {' '.join(f'let l{i} = {"e" if i == 0 else f"l{i-1}"}.push(l[{i}]); lemma_push({"e" if i == 0 else f"l{i-1}"}, l[{i}]);' for i in ks)} assert(l{n-1} =~= l); }}
proof fn lemma_unroll_all(l: Seq<StructLength>) requires l.len() == {n} ensures
  forall|d: nat| #![trigger start_of(l, d, {n})] start_of(l, d, 0) == 0 && {' && '.join(f'start_of(l, d, {i + 1}) == start_of(l, d, {i}) + bytes_of(l[{i}], d)' for i in ks)},
  static_sum(l) == {' + '.join(f'static_of(l[{i}])' for i in ks)}, dyn_count(l) == {' + '.join(f'(if l[{i}] == StructLength::Dynamic {{ 1nat }} else {{ 0nat }})' for i in ks)}
{{ lemma_unroll(l, 0); assert forall|d: nat| #![trigger start_of(l, d, {n})] start_of(l, d, 0) == 0 && {' && '.join(f'start_of(l, d, {i + 1}) == start_of(l, d, {i}) + bytes_of(l[{i}], d)' for i in ks)} by {{ lemma_unroll(l, d); }} }}
pub open spec fn cat0{gen}(s: &{ty}) -> PackingResult<Seq<u8>> {{ s.0.pack_spec() }}
""" + "".join(f"pub open spec fn cat{i}{gen}(s: &{ty}) -> PackingResult<Seq<u8>> {{ match cat{i-1}{targs}(s) {{ Err(e) => Err(e), Ok(p) => match s.{i}.pack_spec() {{ Err(e) => Err(e), Ok(q) => Ok(p + q) }} }} }}\n" for i in range(1, n)) + f"""
pub open spec fn part<X: PackedStructSlice>(s: Seq<u8>, l: Seq<StructLength>, k: nat) -> Seq<u8> {{ s.subrange(start_of(l, rest(l, s.len()), k) as int, start_of(l, rest(l, s.len()), k + 1) as int) }}
pub open spec fn accepts<X: PackedStructSlice>(s: Seq<u8>, l: Seq<StructLength>, k: nat) -> bool {{ exists|x: X| #[trigger] X::unpack_rel(part::<X>(s, l, k), Ok(x)) }}
pub open spec fn tuple_rel{gen}(s: Seq<u8>, r: PackingResult<{ty}>) -> bool {{ let l = lens_none{targs}();
  if bad_size_none{targs}().is_some() {{ r == Err::<{ty}, PackingError>(bad_size_none{targs}()->0) }} else if !divides(l, s.len()) {{ r == refusal::<{ty}>(l, s.len()) }} else {{
  match r {{ Ok(t) => {' && '.join(f'{T[i]}::unpack_rel(part::<{T[i]}>(s, l, {i}), Ok(t.{i}))' for i in ks)},
    Err(e) => {' || '.join('(' + ' && '.join([f'accepts::<{T[j]}>(s, l, {j})' for j in range(i)] + [f'{T[i]}::unpack_rel(part::<{T[i]}>(s, l, {i}), Err(e))']) + ')' for i in ks)} }} }} }}
""")
    pat = r"PackedStructSlice for \( " + " , ".join(T) + r"(?: ,)? \)"
    h, body = ef.impl(pat)
    o_ = lambda i: f"(match o {{ Some(s) => Some(&s.{i}), None => None }})"
    sz = lambda i: f"{T[i]}::size_spec({o_(i)})"
    u.text(h + f""" {{
    open spec fn size_spec(o: Option<&Self>) -> PackingResult<usize> {{ {' else '.join(f'if {sz(i)}.is_err() {{ Err({sz(i)}->Err_0) }}' for i in ks)} else {{ Ok(({' + '.join(f'{sz(i)}->Ok_0' for i in ks)}) as usize) }} }}
    open spec fn pack_spec(&self) -> PackingResult<Seq<u8>> {{ cat{n-1}{targs}(self) }}
    open spec fn unpack_rel(s: Seq<u8>, r: PackingResult<Self>) -> bool {{ tuple_rel{targs}(s, r) }}
    open spec fn clean() -> bool {{ false }}
    open spec fn fits(&self) -> bool {{ small(static_sum(lens{targs}(self))) {' '.join(f'&& self.{i}.fits()' for i in ks)} }}
    open spec fn fits_none() -> bool {{ small(static_sum(lens_none{targs}())) {' '.join(f'&& {T[i]}::fits_none()' for i in ks)} }}
    proof fn law_static(&self) {{ {' '.join(f'self.{i}.law_static();' for i in ks)} lemma_unroll(lens{targs}(self), 0); lemma_unroll(lens_none{targs}(), 0); }}
""")
    sub = lambda g: (nth_range(g), ranges(g), option_map(g), sum_count(g))
    def pack():
        g = ef.fn("pack_to_slice", body); sub(g)
        # ghost text after each member is packed
        b = g.body; i = 0; seen = 0
        while i < len(b):
            if b[i] == "self" and b[i+1] == "." and b[i+3:i+6] == [".", "pack_to_slice", "("]:
                e = X.close_of(b, i + 5)
                z = e + 3 if b[e+1:e+3] == ["?", ";"] else e + 2 if b[e+1] == ";" else None
                if z is None: raise Lost("member packed in another form")
                k = int(b[i+2]); seen += 1
                b[z:z] = [f" proof {{ if all__ && {k} == {seen - 1} {{ assert(output@.take(start_of(l__, 0, {k + 1}) as int) =~= " + (f"before__.take(start_of(l__, 0, {k}) as int) + " if k else "") + f"self.{k}.pack_spec()->Ok_0); }} }} "]
                b[i:i] = [f" let ghost before__ = output@; "]; i = e + 4
            i += 1
        if seen != n: raise Lost(f"{seen} members packed instead of {n}")
        entry = f"proof {{ lemma_unroll_all(lens{targs}(self)); axiom_slice_len(output); {' '.join(f'self.{i}.law_static();' for i in ks)} }} let ghost l__ = lens{targs}(self); let ghost all__ = {' && '.join(f'{T[i]}::size_spec(Some(&self.{i})).is_ok()' for i in ks)};"
        return g, g.sig() + " {\n" + g.annotate(entry, [], f"proof {{ assert(output@.take(output@.len() as int) =~= output@); }}") + "}"
    def ext(mk):
        g, t = mk(); u.text(external(t))
    if size_only: ext(pack)
    else: u.method(f"pack_to_slice for tuples of {n}", pack, ef.fn("pack_to_slice", body))
    def unpack():
        g = ef.fn("unpack_from_slice", body); sub(g)
        entry = f"proof {{ lemma_unroll_all(lens_none{targs}()); axiom_slice_len(src); }} let ghost l__ = lens_none{targs}(); proof {{ let s = src@; let l = l__; {' '.join(f'assert(part::<{T[i]}>(s, l, {i}) == s.subrange(start_of(l, rest(l, s.len()), {i}) as int, start_of(l, rest(l, s.len()), {i+1}) as int));' for i in ks)} if divides(l, s.len()) {{ lemma_whole(l, s.len()); }} }}"
        return g, g.sig() + " {\n" + g.annotate(entry, []) + "}"
    if size_only: ext(unpack)
    else: u.method(f"unpack_from_slice for tuples of {n}", unpack, ef.fn("unpack_from_slice", body))
    def size():
        g = ef.fn("packed_bytes_size", body); sub(g)
        L = [{"kw": "for", "var": 1, "inv": f"invariant sizes@.len() == {n}, n__ == psum(sizes@, @i as nat), psum(sizes@, {n}) <= isize::MAX,", "start": f"proof {{ lemma_psum(sizes@, (@i + 1) as nat, {n}); }}"}]
        return g, g.sig() + " {\n" + g.annotate(f"proof {{ match opt_self {{ Some(s) => lemma_unroll(lens{targs}(s), 0), None => lemma_unroll(lens_none{targs}(), 0) }} reveal_with_fuel(psum, {n + 2}); }}", L) + "}"
    u.method(f"packed_bytes_size for tuples of {n}", size, ef.fn("packed_bytes_size", body))
    u.text("}")
    if not size_only: u.text(f"""
pub open spec fn same<A>(a: A, b: A) -> bool {{ a == b }}
/// unpack(pack(t)) == t whenever it holds member by member
proof fn lemma_round_trip{gen}(t: {ty}, r: PackingResult<{ty}>)
  requires cat{n-1}{targs}(&t).is_ok(), t.fits_all(), tuple_rel{targs}(cat{n-1}{targs}(&t)->Ok_0, r), dyn_count(lens_none{targs}()) <= 1, bad_size_none{targs}().is_none(),
""".replace(" t.fits_all(),", "") + "".join(f"    t.{i}.fits(), t.{i}.pack_spec().is_ok(), {T[i]}::size_spec(Some(&t.{i})) == Ok::<usize, PackingError>(t.{i}.pack_spec()->Ok_0.len() as usize), t.{i}.pack_spec()->Ok_0.len() <= isize::MAX, forall|a: PackingResult<{T[i]}>| {T[i]}::unpack_rel(t.{i}.pack_spec()->Ok_0, a) ==> #[trigger] same(a, Ok(t.{i})),\n" for i in ks) + f"""  ensures r == Ok::<{ty}, PackingError>(t)
{{ let l = lens_none{targs}(); let s = cat{n-1}{targs}(&t)->Ok_0; lemma_unroll(l, 0);
  {' '.join(f't.{i}.law_static();' for i in ks)}
  {' '.join(f'let q{i} = t.{i}.pack_spec()->Ok_0; let c{i} = cat{i}{targs}(&t)->Ok_0; assert(c{i} == ' + (f'c{i-1} + ' if i else '') + f'q{i});' for i in ks)}
  let d = rest(l, s.len()); lemma_unroll(l, d); assert(s.len() == {' + '.join(f'q{i}.len()' for i in ks)});
  {' '.join(f'assert(bytes_of(l[{i}], d) == q{i}.len());' for i in ks)} assert(divides(l, s.len()));
  {' '.join(f'assert(start_of(l, d, {i+1}) == c{i}.len());' for i in ks)}
  assert(s =~= c{n-1});
  {' '.join((f'assert(s.take(c{i}.len() as int) =~= c{i}); ' ) + f'assert(part::<{T[i]}>(s, l, {i}) =~= q{i});' for i in reversed(ks))}
  match r {{ Ok(w) => {{ {' '.join(f'assert(same::<PackingResult<{T[i]}>>(Ok(w.{i}), Ok(t.{i})));' for i in ks)} }}
    Err(e) => {{ {' '.join(f'if {T[i]}::unpack_rel(part::<{T[i]}>(s, l, {i}), Err(e)) {{ assert(same::<PackingResult<{T[i]}>>(Err(e), Ok(t.{i}))); }}' for i in ks)} }} }}
}}
""")
    return u

def external(t):
    """keep a verified function's contract, not its body"""
    i, d = t.index("{\n"), 0
    return "#[verifier::external_body] " + t[:i] + "{ unimplemented!() }"


# ------------------------------------------------------------------ C09, C19
ENUM_TRAIT = """
use vstd::std_specs::cmp::*;
pub trait PrimitiveEnum: Sized + Copy {
    type Primitive: PartialEq + Sized + Copy;
    spec fn prim(&self) -> Self::Primitive;
    spec fn of_prim(v: Self::Primitive) -> Option<Self>;
    spec fn of_name(s: Seq<char>) -> Option<Self>;
    spec fn of_lower(s: Seq<char>) -> Option<Self>;
    /// a value is recognised only as a variant with that very value
    proof fn law(v: Self::Primitive) ensures Self::of_prim(v).is_some() ==> Self::of_prim(v)->0.prim() == v;
    fn from_primitive(val: Self::Primitive) -> (r: Option<Self>) ensures r == Self::of_prim(val);
    fn to_primitive(&self) -> (r: Self::Primitive) ensures r == self.prim();
    fn from_str(s: &str) -> (r: Option<Self>) ensures r == Self::of_name(s@);
    fn from_str_lower(s: &str) -> (r: Option<Self>) ensures r == Self::of_lower(s@);
}
"""
def map_ctor(g, ctor):
    """o.map(C) with a tuple constructor C"""
    c, b, i = lex(ctor), g.body, 0
    while i < len(b):
        if b[i:i+3] == [".", "map", "("] and b[i+3:i+3+len(c)] == c and b[i+3+len(c)] == ")" and b[i-1] == ")":
            j, d = i - 1, 0
            while True:
                if b[j] == ")": d += 1
                if b[j] == "(":
                    d -= 1
                    if d == 0: break
                j -= 1
            while j > 0 and (re.match(r"[A-Za-z_]\w*$", b[j-1]) or b[j-1] in ("::", ".")): j -= 1
            new = ["(", "match"] + b[j:i] + ["{", "Some", "(", "v__", ")", "=>", "Some", "("] + c + ["(", "v__", ")", ")", ",", "None", "=>", "None", "}", ")"]
            b[j:i+4+len(c)] = new; g.rule("`o.map(Constructor)` is written as the match it stands for"); i = j + len(new)
        i += 1
def catch_all():
    u = Unit("catchall"); f = src(RT + "primitive_enum.rs")
    u.trusted += ["PartialEq of the primitive integer types is mathematical equality (vstd)", "the enumeration inside EnumCatchAll: any type meeting the PrimitiveEnum contract (derived implementations are verified exhaustively by the Kani batteries of C08 and C19)"]
    h, b = f.block("enum", "EnumCatchAll")
    u.text(ENUM_TRAIT + "#[derive(Copy, Clone)] pub enum EnumCatchAll<E> where E: PrimitiveEnum { " + text(b) + "}")
    def grab(body, name, post="", pre=""):
        def go():
            g = f.fn(name, body); map_ctor(g, "EnumCatchAll::Enum")
            return g, g.sig() + f" {pre} {post} {{\n" + g.annotate("", []) + "}"
        return go
    h, b = f.impl(r"^impl < E > EnumCatchAll < E >"); u.text(h + "{")
    u.fn("EnumCatchAll::from_enum", grab(b, "from_enum", "ensures r == EnumCatchAll::Enum(v)")); u.text("}")
    h, b = f.impl(r"PartialEq < Self > for EnumCatchAll < E >")
    u.text("impl<E> EnumCatchAll<E> where E: PrimitiveEnum {   // from: " + h)
    u.fn("<EnumCatchAll as PartialEq>::eq", grab(b, "eq", "ensures r == (self.prim() == other.prim())", "requires <E::Primitive as PartialEqSpec>::obeys_eq_spec(), forall|a: E::Primitive, b: E::Primitive| #[trigger] a.eq_spec(&b) == (a == b)")); u.text("}")
    h, b = f.impl(r" From < E > for EnumCatchAll < E >")
    u.text("impl<E> EnumCatchAll<E> where E: PrimitiveEnum {   // from: " + h)
    u.fn("<EnumCatchAll as From<E>>::from", grab(b, "from", "ensures r == EnumCatchAll::Enum(v)")); u.text("}")
    h, b = f.impl(r" PrimitiveEnum for EnumCatchAll < E >")
    u.text(h + """ {
    type Primitive = E::Primitive;
    open spec fn prim(&self) -> E::Primitive { match *self { EnumCatchAll::Enum(e) => e.prim(), EnumCatchAll::CatchAll(v) => v } }
    open spec fn of_prim(v: E::Primitive) -> Option<Self> { match E::of_prim(v) { Some(e) => Some(EnumCatchAll::Enum(e)), None => Some(EnumCatchAll::CatchAll(v)) } }
    open spec fn of_name(s: Seq<char>) -> Option<Self> { match E::of_name(s) { Some(e) => Some(EnumCatchAll::Enum(e)), None => None } }
    open spec fn of_lower(s: Seq<char>) -> Option<Self> { match E::of_lower(s) { Some(e) => Some(EnumCatchAll::Enum(e)), None => None } }
    proof fn law(v: E::Primitive) { E::law(v); }
""")
    for n in ("from_primitive", "to_primitive", "from_str", "from_str_lower"): u.fn(f"<EnumCatchAll as PrimitiveEnum>::{n}", grab(b, n))
    u.text("""}
/// every value is accepted and kept: to_primitive(from_primitive(v)) == v
proof fn lemma_kept<E: PrimitiveEnum>(v: E::Primitive) ensures EnumCatchAll::<E>::of_prim(v).is_some(), EnumCatchAll::<E>::of_prim(v)->0.prim() == v, EnumCatchAll::<E>::of_prim(v)->0 is Enum <==> E::of_prim(v).is_some() { E::law(v); }
""")
    return u

# ------------------------------------------------------------------ C01, C02, C03: the generated bit copying
import stage as S
BITS = """
global size_of usize == 8;
use core::ops::Range;
/// bit j of a byte, from the least significant
pub open spec fn b8(x: u8, j: int) -> bool { (x >> (j as u8)) & 1u8 == 1u8 }
pub open spec fn b16(x: u16, j: int) -> bool { (x >> (j as u16)) & 1u16 == 1u16 }
pub broadcast proof fn b8_or(a: u8, b: u8, j: int) requires 0 <= j < 8 ensures #[trigger] b8(a | b, j) == (b8(a, j) || b8(b, j)) { let k = j as u8; assert(((a | b) >> k) & 1u8 == 1u8 <==> (((a >> k) & 1u8 == 1u8) || ((b >> k) & 1u8 == 1u8))) by (bit_vector); }
pub broadcast proof fn b8_and(a: u8, b: u8, j: int) requires 0 <= j < 8 ensures #[trigger] b8(a & b, j) == (b8(a, j) && b8(b, j)) { let k = j as u8; assert(((a & b) >> k) & 1u8 == 1u8 <==> (((a >> k) & 1u8 == 1u8) && ((b >> k) & 1u8 == 1u8))) by (bit_vector); }
pub broadcast proof fn b8_not(a: u8, j: int) requires 0 <= j < 8 ensures #[trigger] b8(!a, j) == !b8(a, j) { let k = j as u8; assert(((!a) >> k) & 1u8 == 1u8 <==> !((a >> k) & 1u8 == 1u8)) by (bit_vector) requires k < 8; }
pub broadcast proof fn b16_and(a: u16, b: u16, j: int) requires 0 <= j < 16 ensures #[trigger] b16(a & b, j) == (b16(a, j) && b16(b, j)) { let k = j as u16; assert(((a & b) >> k) & 1u16 == 1u16 <==> (((a >> k) & 1u16 == 1u16) && ((b >> k) & 1u16 == 1u16))) by (bit_vector); }
pub broadcast proof fn b16_of(a: u8, j: int) requires 0 <= j < 16 ensures #[trigger] b16(a as u16, j) == (j < 8 && b8(a, j)) { let k = j as u16; let l = j as u8; assert(k < 8 && k == l ==> ((((a as u16) >> k) & 1u16 == 1u16) <==> ((a >> l) & 1u8 == 1u8))) by (bit_vector); assert(k >= 8 && k < 16 ==> !(((a as u16) >> k) & 1u16 == 1u16)) by (bit_vector); }
pub broadcast proof fn b8_of(a: u16, j: int) requires 0 <= j < 8 ensures #[trigger] b8(a as u8, j) == b16(a, j) { let k = j as u16; let l = j as u8; assert(k < 8 && k == l ==> (((a >> k) & 1u16 == 1u16) <==> (((a as u8) >> l) & 1u8 == 1u8))) by (bit_vector); }
pub broadcast proof fn b8_zero(j: int) requires 0 <= j < 8 ensures !#[trigger] b8(0u8, j) { let k = j as u8; assert(!((0u8 >> k) & 1u8 == 1u8)) by (bit_vector); }
pub broadcast group bits { b8_or, b8_and, b8_not, b16_and, b16_of, b8_of, b8_zero }
proof fn lemma_shl8(x: u8, s: int) requires 0 <= s < 8 ensures forall|j: int| 0 <= j < 8 ==> #[trigger] b8(x << (s as u8), j) == (j >= s && b8(x, j - s)) { assert forall|j: int| 0 <= j < 8 implies #[trigger] b8(x << (s as u8), j) == (j >= s && b8(x, j - s)) by { let k = j as u8; let t = s as u8; let d = (j - s) as u8; assert(k < 8 && t < 8 && k >= t && d == k - t ==> ((((x << t) >> k) & 1u8 == 1u8) <==> ((x >> d) & 1u8 == 1u8))) by (bit_vector); assert(k < t && t < 8 ==> !(((x << t) >> k) & 1u8 == 1u8)) by (bit_vector); } }
proof fn lemma_shr8(x: u8, s: int) requires 0 <= s < 8 ensures forall|j: int| 0 <= j < 8 ==> #[trigger] b8(x >> (s as u8), j) == (j + s < 8 && b8(x, j + s)) { assert forall|j: int| 0 <= j < 8 implies #[trigger] b8(x >> (s as u8), j) == (j + s < 8 && b8(x, j + s)) by { let k = j as u8; let t = s as u8; let d = (j + s) as u8; assert(k < 8 && t < 8 && k + t < 8 && d == k + t ==> ((((x >> t) >> k) & 1u8 == 1u8) <==> ((x >> d) & 1u8 == 1u8))) by (bit_vector); assert(k < 8 && t < 8 && k + t >= 8 ==> !(((x >> t) >> k) & 1u8 == 1u8)) by (bit_vector); } }
proof fn lemma_shl16(x: u16, s: int) requires 0 <= s < 16 ensures forall|j: int| 0 <= j < 16 ==> #[trigger] b16(x << (s as u16), j) == (j >= s && b16(x, j - s)) { assert forall|j: int| 0 <= j < 16 implies #[trigger] b16(x << (s as u16), j) == (j >= s && b16(x, j - s)) by { let k = j as u16; let t = s as u16; let d = (j - s) as u16; assert(k < 16 && t < 16 && k >= t && d == k - t ==> ((((x << t) >> k) & 1u16 == 1u16) <==> ((x >> d) & 1u16 == 1u16))) by (bit_vector); assert(k < t && t < 16 ==> !(((x << t) >> k) & 1u16 == 1u16)) by (bit_vector); } }
proof fn lemma_shr16(x: u16, s: int) requires 0 <= s < 16 ensures forall|j: int| 0 <= j < 16 ==> #[trigger] b16(x >> (s as u16), j) == (j + s < 16 && b16(x, j + s)) { assert forall|j: int| 0 <= j < 16 implies #[trigger] b16(x >> (s as u16), j) == (j + s < 16 && b16(x, j + s)) by { let k = j as u16; let t = s as u16; let d = (j + s) as u16; assert(k < 16 && t < 16 && k + t < 16 && d == k + t ==> ((((x >> t) >> k) & 1u16 == 1u16) <==> ((x >> d) & 1u16 == 1u16))) by (bit_vector); assert(k < 16 && t < 16 && k + t >= 16 ==> !(((x >> t) >> k) & 1u16 == 1u16)) by (bit_vector); } }
pub open spec fn ones(n: int) -> u8 { if n <= 0 { 0 } else if n >= 8 { 255 } else { 255u8 >> ((8 - n) as u8) } }
pub broadcast proof fn b8_ones(n: int, j: int) requires 0 <= j < 8 ensures #[trigger] b8(ones(n), j) == (j < n) { let k = j as u8; if n <= 0 { b8_zero(j); } else if n >= 8 { assert((255u8 >> k) & 1u8 == 1u8) by (bit_vector) requires k < 8; } else { lemma_shr8(255u8, 8 - n); let d = (j + 8 - n) as u8; assert(d < 8 ==> (255u8 >> d) & 1u8 == 1u8) by (bit_vector); } }
/// bit p of a byte string, in msb0 order: bit 0 is the most significant of byte 0
pub open spec fn bit(s: Seq<u8>, p: int) -> bool { b8(s[p / 8], 7 - p % 8) }
pub open spec fn bytes_for(n: int) -> int { (n + 7) / 8 }
#[verifier::external_body] fn ceil_div8(n: usize) -> (r: usize) requires n < 0x100_0000 ensures r == bytes_for(n as int) { unimplemented!() }
#[verifier::external_body] fn floor_div8(n: usize) -> (r: usize) requires n < 0x100_0000 ensures r == n as int / 8 { unimplemented!() }
#[verifier::external_body] fn zeroed(n: usize) -> (r: Vec<u8>) ensures r@ == Seq::new(n as nat, |i: int| 0u8) { vec![0; n] }
fn range_len(r: &Range<usize>) -> (n: usize) ensures n == if r.end >= r.start { r.end - r.start } else { 0 } { if r.end >= r.start { r.end - r.start } else { 0 } }
fn min_isize(a: isize, b: isize) -> (r: isize) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
#[verifier::external_body] fn copy_part(target: &mut [u8], start: usize, end: usize, from: &[u8]) requires start <= end <= old(target)@.len(), from@.len() == end - start ensures final(target)@ == old(target)@.subrange(0, start as int) + from@ + old(target)@.subrange(end as int, old(target)@.len() as int) { target[start..end].copy_from_slice(from) }
#[verifier::external_body] fn copy_from(b: &mut Vec<u8>, src: &[u8], start: usize, end: usize) requires start <= end <= src@.len(), old(b)@.len() == end - start ensures final(b)@ == src@.subrange(start as int, end as int) { b[..].copy_from_slice(&src[start..end]) }
"""
FLOAT_NOTE = "(n as f32 / 8.0).ceil() and .floor() as usize equal the integer quotients for n < 2^24: trusted in the proof, compared for every such n by a native run of /repo's expressions on every check"
V.FACTS[FLOAT_NOTE] = """fn main() { let mut n: usize = 0; while n < 1 << 24 { let c = (std::hint::black_box(n) as f32 / 8.0).ceil() as usize; let f = (std::hint::black_box(n) as f32 / 8.0).floor() as usize; assert!(c == (n + 7) / 8 && f == n / 8, "{}", n); n += 1; } println!("{} values compared", n); }"""
STD_COPY_NOTE = "standard library contracts trusted: copy_from_slice (equal lengths required, all bytes copied), [0; n] (n zero bytes), Range::len"
def floats(g):
    """(E as f32 / 8.0).ceil() as usize"""
    b, i = g.body, 0
    while i < len(b):
        if b[i] == "(":
            e = X.close_of(b, i)
            if b[e-4:e] == ["as", "f32", "/", "8.0"] and b[e+1] == "." and b[e+2] in ("ceil", "floor") and b[e+3:e+7] == ["(", ")", "as", "usize"]:
                new = [b[e+2] + "_div8", "("] + b[i+1:e-4] + [")"]; g.rule("`(n as f32 / 8.0).ceil() as usize` (and floor) is the trusted integer quotient helper")
                b[i:e+7] = new; continue
        i += 1
def bitcopy():
    u = Unit("bitcopy"); f = src(CG + "pack_codegen.rs"); ut = src(CG + "utils.rs")
    u.trusted += [FLOAT_NOTE, STD_COPY_NOTE, "structures of up to 2^24 bits", "usize is 64 bits wide (the sandbox's target)"]
    u.text(BITS + "pub struct FieldRegular { pub bit_width: usize, pub bit_range_rust: Range<usize> }\n"
      "impl FieldRegular { pub open spec fn wf(&self) -> bool { self.bit_range_rust.start < self.bit_range_rust.end < 0x100_0000 && self.bit_width == self.bit_range_rust.end - self.bit_range_rust.start } }\n")
    def ones():
        g = ut.fn("ones_u8"); return g, g.sig() + " ensures r == ones(n as int) {\n" + g.annotate("proof { assert(255u8 >> 1u8 == 127u8 && 255u8 >> 2u8 == 63u8 && 255u8 >> 3u8 == 31u8 && 255u8 >> 4u8 == 15u8 && 255u8 >> 5u8 == 7u8 && 255u8 >> 6u8 == 3u8 && 255u8 >> 7u8 == 1u8) by (bit_vector); }", []) + "}"
    u.fn("ones_u8", ones)
    base = f.fn("pack_bits"); name, par, sh, rest = S.shift_closure(base.body)
    for w in (8, 16):
        def mk(w=w):
            g = X.Fn("emit_shift", ["fn"], list(sh)); g.rule("the shift closure is lifted to a function of the shifted value, once per operand type; `<< #s` is `x << s`")
            # << isize: same value, the verifier wants an unsigned amount
            g.subst("x << s", f"x << (s as u{w})", "a shift amount is cast to the operand's unsigned type"); g.subst("x >> s", f"x >> (s as u{w})", "a shift amount is cast to the operand's unsigned type")
            return g, f"fn shift_u{w}(x: u{w}, {par}: isize) -> (r: u{w}) requires {-w} < {par} < {w} ensures forall|j: int| 0 <= j < {w} ==> #[trigger] b{w}(r, j) == (0 <= j - {par} < {w} && b{w}(x, j - {par})) {{\n" + g.annotate(f"proof {{ if {par} >= 0 {{ lemma_shl{w}(x, {par} as int); }} else {{ lemma_shr{w}(x, -{par} as int); }} if {par} == 0 {{ }} }}", []) + "}"
        u.fn(f"emit_shift on u{w}", mk)
    return u, f, rest, name
def generated(f, rest, name, mode, other):
    g = f.fn("pack_bits"); g.body = list(rest); g.ops = {"bit_shift"}; floats(g); S.erase(g, mode, other)
    g.subst(name + "(", "(", "a call of the shift closure is its (signed) amount")
    g.subst("::std::cmp::min(", "min_isize(", "std::cmp::min is min_isize"); g.subst("std::cmp::min(", "min_isize(", "std::cmp::min is min_isize")
    g.subst("field.bit_range_rust.len()", "range_len(&field.bit_range_rust)", "Range::len is range_len")
    b, i = g.body, 0
    while i < len(b):
        if b[i:i+2] == ["target", "["]:
            e = X.close_of(b, i + 1); inner = b[i+2:e]
            if ".." in inner and b[e+1:e+4] == [".", "copy_from_slice", "("]:
                z = X.close_of(b, e + 3); k = inner.index("..")
                b[i:z+1] = ["copy_part", "(", "target", ","] + inner[:k] + [","] + inner[k+1:] + [","] + (b[e+4:z] if b[e+4:z] != ["&", "packed"] else ["packed"]) + [")"]
                g.rule("`target[s..e].copy_from_slice(&packed)` is copy_part(target, s, e, packed)")
        if b[i:i+4] == ["let", "mut", "b", "="] and b[i+4:i+7] == ["[", "0", ";"]:
            e = X.close_of(b, i + 4); b[i+4:e+1] = ["zeroed", "("] + b[i+7:e] + [")"]; g.rule("`[0; n]` (n a literal once generated) is zeroed(n)")
        if b[i:i+8] == ["b", "[", "..", "]", ".", "copy_from_slice", "(", "&"] and b[i+8:i+10] == ["src", "["]:
            e = X.close_of(b, i + 9); inner = b[i+10:e]; k = inner.index("..")
            b[i:e+2] = ["copy_from", "(", "&", "mut", "b", ",", "src", ","] + inner[:k] + [","] + inner[k+1:] + [")"]; g.rule("`b[..].copy_from_slice(&src[s..e])` is copy_from(&mut b, src, s, e)")
        i += 1
    return g
BITCOPY_SPEC = """
pub open spec fn off(field: &FieldRegular) -> int { 8 * bytes_for(field.bit_width as int) - field.bit_width }
pub open spec fn reach(field: &FieldRegular, i: int) -> int { let n = bytes_for(field.bit_width as int); let sb = field.bit_range_rust.start as int / 8; let shift = off(field) - field.bit_range_rust.start as int % 8;
  if i <= 0 { field.bit_range_rust.start as int } else if i >= n { field.bit_range_rust.end as int } else if shift > 0 { 8 * (sb + i) } else { 8 * (sb + i) - shift } }
pub open spec fn got(field: &FieldRegular, i: int) -> int { reach(field, i) - field.bit_range_rust.start + off(field) }
/// target is old with the bits start..lim taken from packed
pub open spec fn placed(field: &FieldRegular, before: Seq<u8>, packed: Seq<u8>, lim: int, now: Seq<u8>) -> bool { now.len() == before.len() && forall|p: int| 0 <= p < 8 * now.len() ==> #[trigger] bit(now, p) == if field.bit_range_rust.start <= p < lim { bit(packed, p - field.bit_range_rust.start + off(field)) } else { bit(before, p) } }
pub open spec fn taken(field: &FieldRegular, src: Seq<u8>, lim: int, b: Seq<u8>) -> bool { b.len() == bytes_for(field.bit_width as int) && forall|q: int| 0 <= q < 8 * b.len() ==> #[trigger] bit(b, q) == (off(field) <= q < lim && bit(src, q - off(field) + field.bit_range_rust.start)) }
"""
def bitcopy_fns():
    u, f, rest, name = bitcopy(); u.text(BITCOPY_SPEC)
    cons = "field.wf(), packed_field_len == bytes_for(field.bit_width as int), start_byte == field.bit_range_rust.start as int / 8, shift == off(field) - field.bit_range_rust.start as int % 8, 0 <= off(field) < 8, l == 8 - off(field) + 8 * @i, dst_byte == start_byte + @i,"
    def pack():
        g = generated(f, rest, name, "pack", "unpack")
        L = [{"kw": "for", "var": 1, "inv": f"invariant {cons} packed@.len() == packed_field_len, target@.len() * 8 >= field.bit_range_rust.end, forall|p: int| field.bit_range_rust.start <= p < field.bit_range_rust.end ==> !#[trigger] bit(old(target)@, p), placed(field, old(target)@, packed@, reach(field, @i as int), target@),",
              "start": "broadcast use bits; broadcast use b8_ones; let ghost t__ = target@;", "end": """proof { let d__ = dst_byte - 1; let st = field.bit_range_rust.start as int; let sh = shift as int; let o = off(field);
 assert forall|p: int| 0 <= p < 8 * target@.len() implies #[trigger] bit(target@, p) == (if st <= p < reach(field, @i + 1) { bit(packed@, p - st + o) } else { bit(old(target)@, p) }) by {
  let y = p / 8; let m = p % 8; let q = p - st + o; assert(q == 8 * (y - start_byte) + m + sh); assert(bit(t__, p) == (if st <= p < reach(field, @i as int) { bit(packed@, q) } else { bit(old(target)@, p) }));
  if y == d__ { if 0 <= m + sh < 8 { assert(q / 8 == @i && q % 8 == m + sh); } else if m + sh >= 8 { assert(q / 8 == @i + 1 && q % 8 == m + sh - 8); } else { assert(q / 8 == @i - 1 && q % 8 == m + sh + 8); } }
  else if y == d__ + 1 { if m + sh < 0 { assert(q / 8 == @i && q % 8 == m + sh + 8); } }
  else { assert(target@[y] == t__[y]); } } }"""}]
        return g, "fn pack_bits__pack(field: &FieldRegular, packed: &[u8], target: &mut [u8]) requires field.wf(), packed@.len() == bytes_for(field.bit_width as int), old(target)@.len() * 8 >= field.bit_range_rust.end, forall|p: int| field.bit_range_rust.start <= p < field.bit_range_rust.end ==> !#[trigger] bit(old(target)@, p) ensures placed(field, old(target)@, packed@, field.bit_range_rust.end as int, final(target)@) {\n" + g.annotate("", L) + "}"
    u.fn("pack_bits: generated packing statements", pack)
    def unpack():
        g = generated(f, rest, name, "unpack", "pack")
        L = [{"kw": "for", "var": 1, "inv": f"invariant {cons} b@.len() == packed_field_len, src@.len() * 8 >= field.bit_range_rust.end, taken(field, src@, got(field, @i as int), b@),",
              "start": "broadcast use bits; broadcast use b8_ones; let ghost b__ = b@;", "end": """proof { let st = field.bit_range_rust.start as int; let sh = shift as int; let o = off(field);
 assert forall|q: int| 0 <= q < 8 * b@.len() implies #[trigger] bit(b@, q) == (o <= q < got(field, @i + 1) && bit(src@, q - o + st)) by {
  let y = q / 8; let m = q % 8; let p = q - o + st; assert(p == 8 * (start_byte + y) + m - sh); assert(bit(b__, q) == (o <= q < got(field, @i as int) && bit(src@, p)));
  if y == @i { if 0 <= m - sh < 8 { assert(p / 8 == dst_byte - 1 && p % 8 == m - sh); } else if m - sh >= 8 { assert(p / 8 == dst_byte && p % 8 == m - sh - 8); } else { assert(p / 8 == dst_byte - 2 && p % 8 == m - sh + 8); } }
  else if y == @i + 1 { if m - sh < 0 { assert(p / 8 == dst_byte - 1 && p % 8 == m - sh + 8); } }
  else { assert(b@[y] == b__[y]); } } }"""}]
        return g, "fn pack_bits__unpack(field: &FieldRegular, src: &[u8]) -> (r: Vec<u8>) requires field.wf(), src@.len() * 8 >= field.bit_range_rust.end ensures taken(field, src@, 8 * bytes_for(field.bit_width as int), r@) {\n" + g.annotate("broadcast use bits;", L) + "}"
    u.fn("pack_bits: generated unpacking statements", unpack)
    return u
LAYOUT = """
pub open spec fn disjoint(fs: Seq<FieldRegular>) -> bool { forall|i: int, j: int| 0 <= i < j < fs.len() ==> (#[trigger] fs[i]).bit_range_rust.end <= (#[trigger] fs[j]).bit_range_rust.start || fs[j].bit_range_rust.end <= fs[i].bit_range_rust.start }
pub open spec fn owns(f: &FieldRegular, p: int) -> bool { f.bit_range_rust.start <= p < f.bit_range_rust.end }
pub open spec fn inside(fs: Seq<FieldRegular>, n: int) -> bool { forall|i: int| 0 <= i < fs.len() ==> (#[trigger] fs[i]).wf() && fs[i].bit_range_rust.end <= 8 * n }
/// what the generated pack() does: a zeroed target, then each field's statements in turn
pub open spec fn run(fs: Seq<FieldRegular>, ps: Seq<Seq<u8>>, n: int, st: Seq<Seq<u8>>) -> bool { ps.len() == fs.len() && st.len() == fs.len() + 1 && st[0] == Seq::new(n as nat, |i: int| 0u8) && forall|k: int| 0 <= k < fs.len() ==> #[trigger] placed(&fs[k], st[k], ps[k], fs[k].bit_range_rust.end as int, st[k + 1]) }
pub open spec fn laid_out(fs: Seq<FieldRegular>, ps: Seq<Seq<u8>>, n: int, k: int, t: Seq<u8>) -> bool { t.len() == n
  && (forall|j: int, p: int| 0 <= j < k && owns(&fs[j], p) ==> #[trigger] bit(t, p) == #[trigger] bit(ps[j], p - fs[j].bit_range_rust.start + off(&fs[j])))
  && (forall|p: int| 0 <= p < 8 * n && (forall|j: int| 0 <= j < k ==> !owns(&#[trigger] fs[j], p)) ==> !#[trigger] bit(t, p)) }
/// C01: every field's bits are where its declaration says, every other bit is zero (and so each step's precondition holds)
proof fn lemma_layout(fs: Seq<FieldRegular>, ps: Seq<Seq<u8>>, n: int, st: Seq<Seq<u8>>, k: int)
  requires n >= 0, disjoint(fs), inside(fs, n), run(fs, ps, n, st), 0 <= k <= fs.len()
  ensures laid_out(fs, ps, n, k, st[k]), k < fs.len() ==> (forall|p: int| owns(&fs[k], p) ==> !#[trigger] bit(st[k], p)) decreases k
{ broadcast use bits; if k > 0 { lemma_layout(fs, ps, n, st, k - 1); assert(placed(&fs[k - 1], st[k - 1], ps[k - 1], fs[k - 1].bit_range_rust.end as int, st[k - 1 + 1]));
    assert forall|j: int, p: int| 0 <= j < k && owns(&fs[j], p) implies #[trigger] bit(st[k], p) == #[trigger] bit(ps[j], p - fs[j].bit_range_rust.start + off(&fs[j])) by { assert(fs[j].wf()); if j < k - 1 { assert(!owns(&fs[k - 1], p)); assert(bit(st[k - 1], p) == bit(ps[j], p - fs[j].bit_range_rust.start + off(&fs[j]))); } }
    assert forall|p: int| 0 <= p < 8 * n && (forall|j: int| 0 <= j < k ==> !owns(&#[trigger] fs[j], p)) implies !#[trigger] bit(st[k], p) by { assert(!owns(&fs[k - 1], p)); assert(!bit(st[k - 1], p)); } }
  if k < fs.len() { assert forall|p: int| owns(&fs[k], p) implies !#[trigger] bit(st[k], p) by { assert(fs[k].wf()); assert forall|j: int| 0 <= j < k implies !owns(&#[trigger] fs[j], p) by { assert(fs[j].bit_range_rust.end <= fs[k].bit_range_rust.start || fs[k].bit_range_rust.end <= fs[j].bit_range_rust.start); } } } }
proof fn lemma_byte(x: u8, y: u8) requires forall|j: int| 0 <= j < 8 ==> #[trigger] b8(x, j) == b8(y, j) ensures x == y { assert(b8(x, 0) == b8(y, 0) && b8(x, 1) == b8(y, 1) && b8(x, 2) == b8(y, 2) && b8(x, 3) == b8(y, 3) && b8(x, 4) == b8(y, 4) && b8(x, 5) == b8(y, 5) && b8(x, 6) == b8(y, 6) && b8(x, 7) == b8(y, 7));
  assert(((x >> 0u8) & 1u8 == 1u8 <==> (y >> 0u8) & 1u8 == 1u8) && ((x >> 1u8) & 1u8 == 1u8 <==> (y >> 1u8) & 1u8 == 1u8) && ((x >> 2u8) & 1u8 == 1u8 <==> (y >> 2u8) & 1u8 == 1u8) && ((x >> 3u8) & 1u8 == 1u8 <==> (y >> 3u8) & 1u8 == 1u8) && ((x >> 4u8) & 1u8 == 1u8 <==> (y >> 4u8) & 1u8 == 1u8) && ((x >> 5u8) & 1u8 == 1u8 <==> (y >> 5u8) & 1u8 == 1u8) && ((x >> 6u8) & 1u8 == 1u8 <==> (y >> 6u8) & 1u8 == 1u8) && ((x >> 7u8) & 1u8 == 1u8 <==> (y >> 7u8) & 1u8 == 1u8) ==> x == y) by (bit_vector); }
proof fn lemma_bytes(a: Seq<u8>, b: Seq<u8>) requires a.len() == b.len(), forall|p: int| 0 <= p < 8 * a.len() ==> #[trigger] bit(a, p) == bit(b, p) ensures a == b { assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert forall|j: int| 0 <= j < 8 implies #[trigger] b8(a[i], j) == b8(b[i], j) by { let p = 8 * i + 7 - j; assert(p / 8 == i && p % 8 == 7 - j); assert(bit(a, p) == bit(b, p)); } lemma_byte(a[i], b[i]); } assert(a =~= b); }
/// C02: what unpacking hands to each field is what packing was given
proof fn lemma_inverse(fs: Seq<FieldRegular>, ps: Seq<Seq<u8>>, n: int, st: Seq<Seq<u8>>, j: int, b: Seq<u8>)
  requires n >= 0, disjoint(fs), inside(fs, n), run(fs, ps, n, st), 0 <= j < fs.len(), ps[j].len() == bytes_for(fs[j].bit_width as int), taken(&fs[j], st[fs.len() as int], 8 * bytes_for(fs[j].bit_width as int), b), forall|q: int| 0 <= q < off(&fs[j]) ==> !#[trigger] bit(ps[j], q)
  ensures b == ps[j]
{ lemma_layout(fs, ps, n, st, fs.len() as int); assert(fs[j].wf()); let f = fs[j]; assert forall|q: int| 0 <= q < 8 * b.len() implies #[trigger] bit(b, q) == bit(ps[j], q) by { if q >= off(&f) { let p = q - off(&f) + f.bit_range_rust.start; assert(owns(&fs[j], p)); assert(bit(st[fs.len() as int], p) == bit(ps[j], p - fs[j].bit_range_rust.start + off(&fs[j]))); } } lemma_bytes(b, ps[j]); }
/// C02, the other way: what is unpacked packs back to the same owned bits
proof fn lemma_back(f: &FieldRegular, src: Seq<u8>, b: Seq<u8>, before: Seq<u8>, now: Seq<u8>, p: int)
  requires f.wf(), f.bit_range_rust.end <= 8 * src.len(), f.bit_range_rust.end <= 8 * now.len(), taken(f, src, 8 * bytes_for(f.bit_width as int), b), placed(f, before, b, f.bit_range_rust.end as int, now), owns(f, p) ensures bit(now, p) == bit(src, p)
{ assert(bit(now, p) == bit(b, p - f.bit_range_rust.start + off(f))); }
/// C03: a field sees its own bits only
proof fn lemma_own(f: &FieldRegular, s: Seq<u8>, t: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
  requires f.wf(), taken(f, s, 8 * bytes_for(f.bit_width as int), a), taken(f, t, 8 * bytes_for(f.bit_width as int), b), forall|p: int| owns(f, p) ==> #[trigger] bit(s, p) == bit(t, p) ensures a == b
{ assert forall|q: int| 0 <= q < 8 * a.len() implies #[trigger] bit(a, q) == bit(b, q) by { if q >= off(f) { assert(owns(f, q - off(f) + f.bit_range_rust.start)); assert(bit(s, q - off(f) + f.bit_range_rust.start) == bit(t, q - off(f) + f.bit_range_rust.start)); } } lemma_bytes(a, b); }
"""
def layout(): return bitcopy_fns().text(LAYOUT)

# ------------------------------------------------------------------ C13, C14, C15, C16: what the derive macro computes
CODEGEN = """
global size_of usize == 8;
use core::ops::Range;
pub struct Rejected;   // an error on the declaration: it does not compile
pub struct NextBits;
#[verifier::external_body] pub struct Name { n: u8 }
fn min_usize(a: usize, b: usize) -> (r: usize) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
fn max_usize(a: usize, b: usize) -> (r: usize) ensures r == if a < b { b } else { a } { if a < b { b } else { a } }
#[verifier::external_body] fn unsigned_abs(a: isize) -> (r: usize) ensures r == if a < 0 { -a } else { a as int } { a.unsigned_abs() }
#[verifier::external_body] fn clone_range(a: &Range<usize>) -> (r: Range<usize>) ensures r == *a { a.clone() }
/// `bits[i] = x`: out of bounds is a panic of the macro, which the compiler reports as an error on the declaration
#[verifier::external_body] fn set_or_reject(bits: &mut Vec<Option<Name>>, i: usize, x: Option<Name>) -> (r: Result<(), Rejected>)
  ensures r.is_ok() == (i < old(bits)@.len()), r.is_ok() ==> final(bits)@ == old(bits)@.update(i as int, x), r.is_err() ==> final(bits)@ == old(bits)@ { unimplemented!() }
#[verifier::external_body] fn vec_get<T>(v: &Vec<T>, i: usize) -> (r: Option<&T>) ensures r.is_some() == (i < v@.len()), r.is_some() ==> *(r->0) == v@[i as int] { v.get(i) }
#[verifier::external_body] fn some_name() -> (r: Name) { unimplemented!() }
#[verifier::external_body] fn no_names(n: usize) -> (r: Vec<Option<Name>>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i]).is_none() { unimplemented!() }
pub struct FieldRegular { pub bit_width: usize, pub bit_range: Range<usize>, pub bit_range_rust: Range<usize> }
impl FieldRegular { pub open spec fn of(&self, s: int, e: int) -> bool { self.bit_range.start == s && self.bit_range.end == e && self.bit_width == e - s + 1 && self.bit_range_rust.start == s && self.bit_range_rust.end == e + 1 } }
pub enum FieldKind { Regular { field: Box<FieldRegular> }, Array { elements: Vec<FieldRegular> } }
pub open spec fn limit() -> int { 0x1000_0000_0000 }
"""
DECL_NOTE = "generator values other than positions and widths (syn types, names, spans, wrappers) are dropped from the verified text; a rejected declaration is Err(Rejected), whatever its message or span"
NUM_NOTE = "bit numbers and widths below 2^44: no overflow of the macro's own arithmetic"
def rejects(g):
    """Err(syn::Error::new(..)) ==> Err(Rejected)"""
    b, i = g.body, 0
    while i < len(b):
        if b[i:i+3] == ["Err", "(", "syn"] and b[i+3:i+7] == ["::", "Error", "::", "new"]:
            e = X.close_of(b, i + 1); b[i:e+1] = ["Err", "(", "Rejected", ")"]; g.rule("`Err(syn::Error::new(..))` is Err(Rejected)")
        i += 1
def minmax(g):
    for p in ("::std::cmp::", "std::cmp::", "::core::cmp::", "core::cmp::"):
        for m in ("min", "max"): g.subst(f"{p}{m}(", f"{m}_usize(", f"std::cmp::{m} on usize is {m}_usize")
def seq_at(b, pat, start=0):
    p = lex(pat)
    for i in range(start, len(b) - len(p) + 1):
        if b[i:i+len(p)] == p: return i
    raise Lost(f"`{pat}` not found")
def split_args(ts):
    out, part, d = [], [], 0
    for x in ts + [","]:
        if x == "," and d == 0:
            if part: out.append(part)
            part = []; continue
        d += x in X.OPEN; d -= x in X.CLOSE; part.append(x)
    return out
FIELD_SPEC = """
pub enum Ty { Path, Array(Option<usize>), Other }
#[derive(Copy, Clone)] pub struct FieldMidPositioning { pub bit_width: usize, pub bits_position: BitsPositionParsed }
fn int_val(a: &Option<usize>) -> (r: Result<usize, Rejected>) ensures r.is_ok() == a.is_some(), r.is_ok() ==> r->Ok_0 == a->0 { match a { Some(n) => Ok(*n), None => Err(Rejected) } }
fn mid_of(fields: &Vec<(Ty, Option<FieldMidPositioning>)>, k: usize) -> (r: Result<FieldMidPositioning, Rejected>) requires k < fields@.len() ensures r.is_ok() == fields@[k as int].1.is_some(), r.is_ok() ==> r->Ok_0 == fields@[k as int].1->0 { match fields[k].1 { Some(m) => Ok(m), None => Err(Rejected) } }
pub open spec fn good(ty: Ty, mp: FieldMidPositioning) -> bool { 1 <= mp.bit_width < limit() && (ty is Array && ty->Array_0.is_some() ==> ty->Array_0->0 > 0) }
/// an array's bits divide evenly among its elements
pub open spec fn fits(ty: Ty, mp: FieldMidPositioning) -> bool { match ty { Ty::Path => true, Ty::Array(Some(n)) => mp.bit_width as int % n as int == 0, _ => false } }
pub open spec fn spans(k: FieldKind, ty: Ty, mp: FieldMidPositioning, s: int, e: int) -> bool { match ty {
  Ty::Path => k is Regular && k->Regular_field.of(s, e),
  Ty::Array(Some(n)) => k is Array && k->elements@.len() == n && forall|j: int| 0 <= j < n ==> (#[trigger] k->elements@[j]).of(s + j * (mp.bit_width as int / n as int), s + (j + 1) * (mp.bit_width as int / n as int) - 1),
  _ => false } }
/// first and last bit of field i: its own position, or after its predecessor
pub open spec fn at(fs: Seq<(Ty, Option<FieldMidPositioning>)>, n: Option<BitNumbering>, size: Option<usize>, i: int) -> (int, int) decreases i
{ if i < 0 || fs[i].1.is_none() || placed_pos(n, fs[i].1->0.bits_position, size).is_none() { (0, 0) } else { after(placed_pos(n, fs[i].1->0.bits_position, size)->0, fs[i].1->0.bit_width as int, if i == 0 { None } else { Some(at(fs, n, size, i - 1).1) }) } }
pub open spec fn accepted(fs: Seq<(Ty, Option<FieldMidPositioning>)>, n: Option<BitNumbering>, size: Option<usize>, i: int) -> bool { fs[i].1.is_some() && placed_pos(n, fs[i].1->0.bits_position, size).is_some() && fits(fs[i].0, fs[i].1->0) }
pub open spec fn good_field(fs: Seq<(Ty, Option<FieldMidPositioning>)>, n: Option<BitNumbering>, size: Option<usize>, i: int) -> bool { (fs[i].1.is_some() ==> good(fs[i].0, fs[i].1->0) && (match fs[i].1->0.bits_position { BitsPositionParsed::Start(s) => s < limit(), BitsPositionParsed::Range(a, b) => a <= b < limit(), _ => true })) && 0 <= at(fs, n, size, i).0 <= at(fs, n, size, i).1 < limit() }
pub open spec fn declared(fs: Seq<(Ty, Option<FieldMidPositioning>)>, n: Option<BitNumbering>, size: Option<usize>) -> bool { forall|i: int| 0 <= i < fs.len() ==> #[trigger] good_field(fs, n, size, i) }
"""
DECL_OF = {"C14": ("get_bits_range", "range_in_order", "to_bits_position", "under a bit numbering", ": width", "width and ranges", "after its predecessor"),
           "C15": ("under a bit numbering", ": width", "equal shares", "after its predecessor", "no two fields", "get marked", "size in bits"),
           "C16": ("equal shares", "width and ranges"), "C13": ("size in bits",), "C01": ("width and ranges", "no two fields", "get marked")}
def decl(prop=None):
    u = Unit("decl"); u.only = (lambda k: any(x in k for x in DECL_OF[prop])) if prop else None; ut = src(CG + "utils.rs"); pp = src(CG + "pack_parse.rs"); pk = src(CG + "pack.rs")
    u.trusted += [DECL_NOTE, NUM_NOTE, FLOAT_NOTE, "standard library contracts trusted: Vec::get, indexing past the end panics, isize::unsigned_abs, Range::clone, core::cmp::{min,max}", "usize is 64 bits wide (the sandbox's target)"]
    h, b = pk.block("struct", "FieldRegular")
    if not all(t in text(b) for t in ("bit_width : usize", "bit_range : Range < usize >", "bit_range_rust : Range < usize >")): raise Lost("FieldRegular has other fields")
    u.text(CODEGEN)
    for e, der in (("BitNumbering", "Copy, Clone, PartialEq, Eq, Structural"), ("BitsPositionParsed", "Copy, Clone, PartialEq, Eq, Structural")):
        h, b = pp.block("enum", e); u.text(f"#[derive({der})] pub enum {e} {{ {text(b)} }}")
    u.text("""
/// the bits (first, last) a position denotes
pub open spec fn denotes(p: BitsPositionParsed, w: int, prev: Option<Range<usize>>) -> (int, int) { after(p, w, match prev { Some(r) => Some(r.end as int), None => None }) }
pub open spec fn after(p: BitsPositionParsed, w: int, prev: Option<int>) -> (int, int) { match p { BitsPositionParsed::Next => match prev { Some(e) => (e + 1, e + w), None => (0, w - 1) }, BitsPositionParsed::Start(s) => (s as int, s + w - 1), BitsPositionParsed::Range(a, b) => (a as int, b as int) } }
/// where a written position is under a bit numbering; None: the declaration is rejected
pub open spec fn placed_pos(n: Option<BitNumbering>, p: BitsPositionParsed, size: Option<usize>) -> Option<BitsPositionParsed> { match (n, p) {
   (Some(BitNumbering::Msb0), p) => Some(p), (None, BitsPositionParsed::Next) => Some(p), (None, _) => None,
   (Some(BitNumbering::Lsb0), BitsPositionParsed::Range(a, b)) => match size { None => None, Some(z) => if a >= 8 * z || b >= 8 * z { None } else if a > b { Some(BitsPositionParsed::Range((8 * z - 1 - a) as usize, (8 * z - 1 - b) as usize)) } else { Some(BitsPositionParsed::Range((8 * z - 1 - b) as usize, (8 * z - 1 - a) as usize)) } },
   (Some(BitNumbering::Lsb0), _) => None } }
pub open spec fn prev_ok(p: Option<Range<usize>>) -> bool { p.is_some() ==> p->0.end < limit() }
""")
    # get_bits_range for its three kinds of position
    for ty, pos, pat in (("usize", "BitsPositionParsed::Start(*self_)", r"BitsRange for usize"), ("Range<usize>", "BitsPositionParsed::Range(self_.start, self_.end)", r"BitsRange for Range < usize >"), ("NextBits", "BitsPositionParsed::Next", r"BitsRange for NextBits")):
        def go(ty=ty, pos=pos, pat=pat):
            h, b = ut.impl(pat); g = ut.fn("get_bits_range", b); g.self_as()
            sg = g.sig(rename="get_bits_range_" + ty.split("<")[0].lower(), self_as=ty).replace("_prev_range", "prev_range").replace("_packed_bit_width", "packed_bit_width")
            g.body = [x[1:] if x in ("_prev_range", "_packed_bit_width") else x for x in g.body]
            req = {"usize": "*self_ < limit(),", "NextBits": "", "Range<usize>": ""}[ty]
            return g, sg + f" requires 1 <= packed_bit_width < limit(), prev_ok(*prev_range), {req} ensures r.start == denotes({pos}, packed_bit_width as int, *prev_range).0, r.end == denotes({pos}, packed_bit_width as int, *prev_range).1 {{\n" + g.annotate("", []) + "}"
        u.fn(f"<{ty} as BitsRange>::get_bits_range", go)
    hb, bb = pp.impl(r"^impl BitsPositionParsed")
    u.text("impl BitsPositionParsed {")
    def order():
        g = pp.fn("range_in_order", bb); minmax(g)
        return g, g.sig() + " ensures r == BitsPositionParsed::Range(if a < b { a } else { b }, if a < b { b } else { a }) {\n" + g.annotate("", []) + "}"
    u.fn("BitsPositionParsed::range_in_order", order)
    u.text("}")
    def topos():
        g = pp.fn("to_bits_position", bb); b = g.body; i = 0; n = 0
        while i < len(b):
            if b[i:i+4] == ["Box", "::", "new", "("]:
                e = X.close_of(b, i + 3); inner = b[i+4:e]; n += 1
                k = "nextbits" if inner == ["NextBits"] else "range" if ".." in inner else "usize" if len(inner) == 1 else None
                if k is None: raise Lost("another kind of position")
                b[i:e+1] = ["get_bits_range_" + k, "(", "&", "("] + inner + [")", ",", "packed_bit_width", ",", "prev_range", ")"]
            i += 1
        g.rule("`p.to_bits_position().get_bits_range(w, prev)`: each `Box::new(E)` of the dyn BitsRange is the call of get_bits_range on E")
        seq_at(pp.fn("parse_struct").body, "bits_position.to_bits_position().get_bits_range(mp.bit_width, &prev_bit_range)")
        g.self_as()
        return g, "fn bits_of_position(self_: BitsPositionParsed, packed_bit_width: usize, prev_range: &Option<Range<usize>>) -> (r: Range<usize>) requires 1 <= packed_bit_width < limit(), prev_ok(*prev_range), match self_ { BitsPositionParsed::Start(s) => s < limit(), _ => true } ensures (r.start as int, r.end as int) == denotes(self_, packed_bit_width as int, *prev_range) {\n" + g.annotate("", []) + "}"
    u.fn("BitsPositionParsed::to_bits_position + get_bits_range", topos)
    def numbering():
        g = pp.fn("parse_struct"); i = seq_at(g.body, "let bits_position = match (bit_positioning, mp.bits_position) {")
        o = seq_at(g.body, "{", i); e = X.close_of(g.body, o); g.body = ["let", "r__", "="] + g.body[i+3:e+1] + [";", "Ok", "(", "r__", ")"]
        g.subst("mp.bits_position", "position", "the match on (numbering, position) is lifted to a function of them and the structure's size"); rejects(g); minmax(g)
        g.subst("BitsPositionParsed::range_in_order", "BitsPositionParsed::range_in_order", "")
        return g, """fn place(bit_positioning: Option<BitNumbering>, position: BitsPositionParsed, struct_size_bytes: Option<usize>) -> (r: Result<BitsPositionParsed, Rejected>)
 requires struct_size_bytes.is_some() ==> struct_size_bytes->0 < limit()
 ensures r == (match placed_pos(bit_positioning, position, struct_size_bytes) { Some(p) => Ok::<BitsPositionParsed, Rejected>(p), None => Err::<BitsPositionParsed, Rejected>(Rejected) }), match (bit_positioning, position) {
   (Some(BitNumbering::Msb0), p) => r == Ok::<BitsPositionParsed, Rejected>(p),
   (None, BitsPositionParsed::Next) => r == Ok::<BitsPositionParsed, Rejected>(position), (None, _) => r.is_err(),
   (Some(BitNumbering::Lsb0), BitsPositionParsed::Range(a, b)) => match struct_size_bytes { None => r.is_err(), Some(z) => if a >= 8 * z || b >= 8 * z { r.is_err() } else { r.is_ok() && r->Ok_0 == (if a > b { BitsPositionParsed::Range((8 * z - 1 - a) as usize, (8 * z - 1 - b) as usize) } else { BitsPositionParsed::Range((8 * z - 1 - b) as usize, (8 * z - 1 - a) as usize) }) } },
   (Some(BitNumbering::Lsb0), _) => r.is_err() } {
""" + g.annotate("", []) + "}"
    u.fn("parse_struct: position under a bit numbering", numbering)
    def width():
        g = pp.fn("get_field_mid_positioning"); i = seq_at(g.body, "let bit_width = if let"); d = 0; j = i
        while not (g.body[j] == ";" and d == 0):
            d += g.body[j] in X.OPEN; d -= g.body[j] in X.CLOSE; j += 1
        b = ["let", "r__", "="] + g.body[i+3:j] + [";", "Ok", "(", "r__", ")"]; k = 0
        while k < len(b):
            if b[k:k+6] == ["field_attributes", ".", "iter", "(", ")", "."] and b[k+6] == "filter_map":
                e = X.close_of(b, k + 7); cl = b[k+8:e]
                if b[e+1:e+5] != [".", "next", "(", ")"]: raise Lost("attribute lookup")
                c = " ".join(cl); m = re.match(r"\| (\w+) \| if let PackFieldAttribute :: (\w+) \( (\w+) \) = \* (\w+) \{ Some \( (\w+) \) \} else \{ None \}$", c)
                if not m or m.group(1) != m.group(4) or m.group(3) != m.group(5): raise Lost("attribute lookup")
                b[k:e+5] = ["attr_" + m.group(2)]; g.rule("the first attribute of a kind (`iter().filter_map(|a| if let K(x) = *a {..}).next()`) is a parameter attr_K")
            k += 1
        k = 0
        while k < len(b):
            if b[k:k+4] == [".", "unsigned_abs", "(", ")"] and b[k-1] == ")":
                o = k - 1; d = 0
                while True:
                    if b[o] == ")": d += 1
                    if b[o] == "(":
                        d -= 1
                        if d == 0: break
                    o -= 1
                b[o:k+4] = ["unsigned_abs", "("] + b[o+1:k-1] + [")"]; g.rule("isize::unsigned_abs is unsigned_abs")
            k += 1
        g.body = b; rejects(g)
        return g, """fn width(attr_SizeBits: Option<usize>, attr_ElementSizeBits: Option<usize>, array_size: usize, bits_position: BitsPositionParsed, bit_width_builtin: Option<usize>) -> (r: Result<usize, Rejected>)
 requires array_size < 0x10_0000, attr_ElementSizeBits.is_some() ==> attr_ElementSizeBits->0 < limit(), bit_width_builtin.is_some() ==> bit_width_builtin->0 < limit(), match bits_position { BitsPositionParsed::Range(a, b) => a < limit() && b < limit(), _ => true }
 ensures match (attr_SizeBits, attr_ElementSizeBits, bits_position, bit_width_builtin) {
   (Some(n), _, _, _) => if array_size > 1 { r.is_err() } else { r == Ok::<usize, Rejected>(n) },
   (None, Some(n), _, _) => r.is_ok() && r->Ok_0 == n * array_size,
   (None, None, BitsPositionParsed::Range(a, b), _) => r.is_ok() && r->Ok_0 == 1 + (if a < b { b - a } else { a - b }),
   (None, None, _, Some(n)) => r.is_ok() && r->Ok_0 == n * array_size,
   (None, None, _, None) => r.is_err() } {
""" + g.annotate("proof { if attr_ElementSizeBits.is_some() { let n = attr_ElementSizeBits->0 as int; assert(n * array_size < 0x1000_0000_0000 * 0x10_0000) by (nonlinear_arith) requires 0 <= n < 0x1000_0000_0000, 0 <= array_size < 0x10_0000; } if bit_width_builtin.is_some() { let n = bit_width_builtin->0 as int; assert(n * array_size < 0x1000_0000_0000 * 0x10_0000) by (nonlinear_arith) requires 0 <= n < 0x1000_0000_0000, 0 <= array_size < 0x10_0000; } }", []) + "}"
    u.fn("get_field_mid_positioning: width", width)
    def reg():
        g = pp.fn("parse_reg_field"); b = g.body
        i = seq_at(b, "let bit_width ="); d = 0; j = i
        while b[j] != ";": j += 1
        k = len(b) - 1 - b[::-1].index("FieldRegular"); o = k + 1; e = X.close_of(b, o); inner = b[o+1:e]; keep = []; part = []; d = 0
        for x in inner + [","]:
            if x == "," and d == 0:
                if part and part[0] in ("bit_width", "bit_range", "bit_range_rust"): keep += part + [","]
                part = []; continue
            d += x in X.OPEN; d -= x in X.CLOSE; part.append(x)
        g.body = b[i:j+1] + ["FieldRegular", "{"] + keep + ["}"]; g.rule("parse_reg_field: the computation of the type and its wrappers is dropped; width and ranges kept")
        g.subst("bit_range.clone()", "clone_range(bit_range)", "Range::clone is clone_range")
        return g, "fn parse_reg_field(bit_range: &Range<usize>) -> (r: FieldRegular) requires bit_range.start <= bit_range.end < 4 * limit() ensures r.of(bit_range.start as int, bit_range.end as int) {\n" + g.annotate("", []) + "}"
    u.fn("parse_reg_field: width and ranges", reg)
    u.text(OVERLAP_SPEC)
    def field():
        g = pp.fn("parse_field"); b = g.body; k = 0
        g.subst("match &field.ty {", "match ty {", "the match on the field's type is on its kind (path, array and its length, other)"); b = g.body
        g.subst("syn::Type::Path(_)", "Ty::Path", ""); g.subst("syn::Type::Array(type_array)", "Ty::Array(array_len)", ""); g.subst("get_expr_int_val(&type_array.len)", "int_val(array_len)", "get_expr_int_val(&array.len) is the array length, a parameter"); b = g.body
        while k < len(b):
            if b[k:k+2] == ["parse_reg_field", "("]:
                e = X.close_of(b, k + 1); args = split_args(b[k+2:e])
                if len(args) != 4 or b[e+1] != "?": raise Lost("parse_reg_field called in another form")
                b[k:e+2] = ["parse_reg_field", "("] + args[2] + [")"]; g.rule("parse_reg_field(.., range, ..)? is called with its range only; rejections for other reasons (byte order, type syntax) are dropped")
            if b[k:k+2] == ["FieldKind", "::"] and b[k+3] == "{":
                e = X.close_of(b, k + 3); keep = [p for p in split_args(b[k+4:e]) if p and p[0] in ("field", "elements")]
                b[k+4:e] = [x for p in keep for x in p + [","]]; g.rule("FieldKind literals keep the ranges, not the names")
            k += 1
        rejects(g); g.subst("let mut elements = vec![];", "let mut elements: Vec<FieldRegular> = Vec::new();", "vec![] is Vec::new()")
        L = [{"kw": "for", "var": 1, "inv": "invariant elements@.len() == @i, element_size_bits > 0, element_size_bits * size == mp.bit_width, mp.bit_width < limit(), bit_range.start < limit(), forall|j: int| 0 <= j < @i ==> (#[trigger] elements@[j]).of(bit_range.start + j * element_size_bits, bit_range.start + (j + 1) * element_size_bits - 1),",
              "start": "proof { assert((@i + 1) * element_size_bits <= mp.bit_width && 0 <= @i * element_size_bits && (@i + 1) * element_size_bits == @i * element_size_bits + element_size_bits) by (nonlinear_arith) requires 0 <= @i < size, element_size_bits * size == mp.bit_width, element_size_bits > 0; }"}]
        return g, """fn parse_field(ty: &Ty, mp: &FieldMidPositioning, bit_range: &Range<usize>) -> (r: Result<FieldKind, Rejected>) requires good(*ty, *mp), bit_range.start <= bit_range.end < 2 * limit(), bit_range.start < limit()
 ensures r.is_ok() == fits(*ty, *mp), r.is_ok() ==> spans(r->Ok_0, *ty, *mp, bit_range.start as int, bit_range.end as int) {
""" + g.annotate("proof { if ty is Array && ty->Array_0.is_some() { let size = ty->Array_0->0; let bit_width = mp.bit_width; assert(bit_width == (bit_width as int / size as int) * size + bit_width as int % size as int) by (nonlinear_arith) requires size > 0; assert(bit_width > 0 && bit_width as int % size as int == 0 ==> bit_width as int / size as int > 0) by (nonlinear_arith) requires size > 0, bit_width == (bit_width as int / size as int) * size + bit_width as int % size as int, bit_width >= 0; } }", L) + "}"
    u.text(FIELD_SPEC)
    u.fn("parse_field: an array's elements follow each other in equal shares", field)
    def every_position():
        g = pp.fn("parse_struct"); b = g.body; i = seq_at(b, "let mut fields_parsed: Vec<FieldKind> = vec![];"); o = seq_at(b, "{", i); e = X.close_of(b, o)
        g.body = b[i:e+1] + lex("Ok(fields_parsed)")
        i = seq_at(g.body, "let bits_position = match (bit_positioning, mp.bits_position) {"); o = seq_at(g.body, "{", i); e = X.close_of(g.body, o)
        g.body[i+3:e+1] = lex("place(bit_positioning, mp.bits_position, struct_size_bytes)?"); g.rule("the match on (numbering, position) is the function place verified above")
        g.subst("bits_position.to_bits_position().get_bits_range(mp.bit_width, &prev_bit_range)", "bits_of_position(bits_position, mp.bit_width, &prev_bit_range)", "to_bits_position().get_bits_range() is the function verified above", 1)
        g.subst("for field in &fields {", "for k__ in 0..fields.len() {", "`for x in &v` is written as an index loop", 1)
        g.subst("get_field_mid_positioning(field)", "mid_of(fields, k__)", "a field's own attributes and type are parameters (width, position, kind)", 1)
        g.subst("let mut fields_parsed: Vec<FieldKind> = vec![];", "let mut fields_parsed: Vec<FieldKind> = Vec::new();", "vec![] is Vec::new()", 1); g.subst("let mut prev_bit_range = None;", "let mut prev_bit_range: Option<Range<usize>> = None;", "", 1); b = g.body; k = 0
        while k < len(b):
            if b[k:k+2] == ["parse_field", "("]:
                e = X.close_of(b, k + 1); args = split_args(b[k+2:e])
                if len(args) != 4: raise Lost("parse_field called in another form")
                b[k:e+1] = lex("parse_field(&fields[k__].0,") + args[1] + [","] + args[2] + [")"]; g.rule("parse_field(field, mp, range, ..) is called with the field's kind, mp and range")
            k += 1
        L = [{"kw": "for", "var": 1, "inv": "invariant fields_parsed@.len() == @i, declared(fields@, bit_positioning, struct_size_bytes), struct_size_bytes.is_some() ==> struct_size_bytes->0 < limit(), forall|j: int| 0 <= j < @i ==> #[trigger] accepted(fields@, bit_positioning, struct_size_bytes, j), (@i == 0) == prev_bit_range.is_none(), @i > 0 ==> prev_bit_range->0.end == at(fields@, bit_positioning, struct_size_bytes, @i - 1).1, forall|j: int| 0 <= j < @i ==> spans(#[trigger] fields_parsed@[j], fields@[j].0, fields@[j].1->0, at(fields@, bit_positioning, struct_size_bytes, j).0, at(fields@, bit_positioning, struct_size_bytes, j).1),",
              "start": "proof { let n__ = fields@.len() as int; assert(good_field(fields@, bit_positioning, struct_size_bytes, @i as int)); if @i > 0 { assert(good_field(fields@, bit_positioning, struct_size_bytes, @i - 1)); } assert(!accepted(fields@, bit_positioning, struct_size_bytes, @i as int) ==> exists|j: int| 0 <= j < fields@.len() && !#[trigger] accepted(fields@, bit_positioning, struct_size_bytes, j)); }"}]
        return g, """fn positions(fields: &Vec<(Ty, Option<FieldMidPositioning>)>, bit_positioning: Option<BitNumbering>, struct_size_bytes: Option<usize>) -> (r: Result<Vec<FieldKind>, Rejected>)
 requires declared(fields@, bit_positioning, struct_size_bytes), struct_size_bytes.is_some() ==> struct_size_bytes->0 < limit()
 ensures r.is_ok() == (forall|j: int| 0 <= j < fields@.len() ==> #[trigger] accepted(fields@, bit_positioning, struct_size_bytes, j)),
   r.is_ok() ==> r->Ok_0@.len() == fields@.len() && forall|j: int| 0 <= j < fields@.len() ==> spans(#[trigger] r->Ok_0@[j], fields@[j].0, fields@[j].1->0, at(fields@, bit_positioning, struct_size_bytes, j).0, at(fields@, bit_positioning, struct_size_bytes, j).1) {
""" + g.annotate("", L) + "}"
    u.fn("parse_struct: every field in declaration order, each after its predecessor", every_position)
    def overlap_parts():
        ps = pp.fn("parse_struct").body
        o = seq_at(ps, "let mut bits = vec![None;"); blk = block_around(ps, o)
        c = seq_at(blk, "let mut find_overlaps = |name: String, range: &Range<usize>| {"); ce = X.close_of(blk, seq_at(blk, "{", c))
        if blk[ce+1] != ";": raise Lost("overlap closure")
        return blk[seq_at(blk, "{", c)+1:ce], blk[:c] + blk[ce+2:]
    def one():
        clo, outer = overlap_parts(); g = X.Fn("find_overlaps", ["fn"], list(clo)); rejects(g); b = g.body; i = 0
        g.rule("the closure is lifted to a function of what it captures (bits)")
        while i < len(b):
            if b[i:i+4] == ["bits", ".", "get", "("]: b[i:i+4] = ["vec_get", "(", "bits", ","]; g.rule("Vec::get is vec_get")
            if b[i:i+2] == ["bits", "["]:
                e = X.close_of(b, i + 1); z = e
                while b[z] != ";": z += 1
                if b[e+1] != "=" or b[e+2:z] != lex("Some(name.clone())"): raise Lost("mark")
                b[i:z] = ["set_or_reject", "(", "bits", ","] + b[i+2:e] + [",", "Some", "(", "some_name", "(", ")", ")", ")", "?"]; g.rule("`bits[i] = x` is set_or_reject(bits, i, x)?: a panic of the macro rejects the declaration")
            i += 1
        L = [{"kw": "for", "var": 1, "inv": "invariant range.start <= range.end < 4 * limit(), range.start <= @i, bits@.len() == old(bits)@.len(), @i > range.start ==> @i - 1 < bits@.len(), forall|j: int| 0 <= j < bits@.len() ==> (#[trigger] bits@[j]).is_some() == (old(bits)@[j].is_some() || range.start <= j < @i), forall|j: int| range.start <= j < @i ==> (#[trigger] old(bits)@[j]).is_none(),"}]
        return g, """fn find_overlaps(bits: &mut Vec<Option<Name>>, range: &Range<usize>) -> (r: Result<(), Rejected>) requires range.start <= range.end < 4 * limit()
 ensures r.is_ok() == (range.end < old(bits)@.len() && forall|j: int| range.start <= j <= range.end ==> (#[trigger] old(bits)@[j]).is_none()),
   r.is_ok() ==> final(bits)@.len() == old(bits)@.len() && forall|j: int| 0 <= j < final(bits)@.len() ==> (#[trigger] final(bits)@[j]).is_some() == (old(bits)@[j].is_some() || range.start <= j <= range.end) {
""" + g.annotate("", L) + "}"
    u.fn("parse_struct: one field's bits are free and get marked", one)
    def every():
        if "parse_struct: one field's bits are free and get marked" in u.lost: raise Lost("overlap closure")
        clo, outer = overlap_parts(); g = X.Fn("overlaps", ["fn"], list(outer)); b = g.body; i = 0
        k = seq_at(b, "vec![None;"); e = X.close_of(b, k + 2); b[k:e+1] = ["no_names", "("] + b[k+5:e] + [")"]
        while i < len(b):
            if b[i:i+2] == ["find_overlaps", "("]:
                e = X.close_of(b, i + 1); args, part, d = [], [], 0
                for x in b[i+2:e] + [","]:
                    if x == "," and d == 0: args.append(part); part = []; continue
                    d += x in X.OPEN; d -= x in X.CLOSE; part.append(x)
                if len(args) != 2 or b[e+1] != "?": raise Lost("overlap check called in another form")
                b[i:e+1] = ["find_overlaps", "(", "&", "mut", "bits", ","] + args[1] + [")"]
            if b[i:i+5] == ["for", "field", "in", "&", "fields_parsed"]: b[i:i+6] = lex("for k__ in 0..fields_parsed.len() { let field = &fields_parsed[k__];"); g.rule("`for x in &v` is written as an index loop")
            if b[i:i+2] == ["FieldKind", "::"]:
                e = X.close_of(b, i + 3); inner = [x for x in " ".join(b[i+4:e]).split(" , ") if "ident" not in x and x.strip() not in ("..", "")]
                b[i+4:e] = lex(", ".join(inner) + ", .."); g.rule("patterns bind only the dropped-type-free parts of FieldKind")
            i += 1
        g.enumerate_loops(); g.body += lex("Ok(())")
        cur = "flat(fields_parsed@, @i as int)"
        nxt = "flat(fields_parsed@, k__ as int) + part(fields_parsed@[k__ as int])"
        L = [{"kw": "for", "var": 1, "inv": "invariant well(fields_parsed@), num_bytes < limit(), bits@.len() == 8 * num_bytes, free(flat(fields_parsed@, @i as int), 8 * num_bytes), marks(bits@, flat(fields_parsed@, @i as int)),",
              "start": "proof { assert(flat(fields_parsed@, @i + 1) =~= flat(fields_parsed@, @i as int) + part(fields_parsed@[@i as int])); lemma_flat(fields_parsed@, @i + 1, fields_parsed@.len() as int); lemma_free_prefix(flat(fields_parsed@, fields_parsed@.len() as int), flat(fields_parsed@, @i + 1).len() as int, 8 * num_bytes); assert(whole(fields_parsed@[@i as int])); }",
              "end": "proof { assert(part(fields_parsed@[@i as int]).take(part(fields_parsed@[@i as int]).len() as int) =~= part(fields_parsed@[@i as int])); }"},
             {"kw": "for", "var": 1, "inv": "invariant k__ < fields_parsed@.len(), well(fields_parsed@), fields_parsed@[k__ as int] is Array, elements@ == fields_parsed@[k__ as int]->Array_elements@, num_bytes < limit(), bits@.len() == 8 * num_bytes, free(flat(fields_parsed@, k__ as int) + part(fields_parsed@[k__ as int]).take(@i as int), 8 * num_bytes), marks(bits@, flat(fields_parsed@, k__ as int) + part(fields_parsed@[k__ as int]).take(@i as int)), free(flat(fields_parsed@, fields_parsed@.len() as int), 8 * num_bytes) ==> free(flat(fields_parsed@, k__ as int) + part(fields_parsed@[k__ as int]), 8 * num_bytes),",
              "start": "proof { let a = flat(fields_parsed@, k__ as int); let q = part(fields_parsed@[k__ as int]); assert(whole(fields_parsed@[k__ as int])); lemma_free_prefix(a + q, a.len() as int + @i as int + 1, 8 * num_bytes); assert((a + q).take(a.len() as int + @i as int + 1) =~= (a + q.take(@i as int)).push(q[@i as int])); assert(a + q.take(@i as int + 1) =~= (a + q.take(@i as int)).push(q[@i as int])); lemma_mark(bits@, a + q.take(@i as int), q[@i as int]); }"}]
        t = g.annotate("proof { assert(flat(fields_parsed@, 0) =~= Seq::empty()); }", L)
        # the single-field arm needs the same step
        t = t.replace("find_overlaps ( & mut bits , & field . bit_range )", "({ proof { let a = flat(fields_parsed@, k__ as int); let q = part(fields_parsed@[k__ as int]); if fields_parsed@[k__ as int] is Regular { assert(q.len() == 1); assert(a + q =~= a.push(q[0])); assert((a + q).take(a.len() as int + 1) =~= a + q); lemma_mark(bits@, a, q[0]); } } find_overlaps ( & mut bits , & field . bit_range ) })", 1)
        return g, "fn overlaps(fields_parsed: &Vec<FieldKind>, num_bytes: usize) -> (r: Result<(), Rejected>) requires well(fields_parsed@), num_bytes < limit() ensures r.is_ok() == free(flat(fields_parsed@, fields_parsed@.len() as int), 8 * num_bytes) {\n" + t + "}"
    u.fn("parse_struct: a declaration is accepted exactly when no two fields share a bit and all lie inside", every)
    def size():
        g = pp.fn("parse_struct"); b = g.body; i = seq_at(b, "let num_bits: usize = {"); o = seq_at(b, "{", i); e = X.close_of(b, o)
        j = seq_at(b, "let num_bytes =", e); z = j
        while b[z] != ";": z += 1
        g.body = b[i:e+1] + [";"] + b[j:z+1] + lex("(num_bits, num_bytes)"); floats(g)
        b = g.body; k = seq_at(b, "fields_parsed.iter().map(|f|"); q = k + 6; e = X.close_of(b, q + 1)
        if b[e+1:e+9] != lex(".max().unwrap()"): raise Lost("largest end")
        inner = b[q+5:e]
        b[k:e+9] = lex("{ let mut m__: Option<usize> = None; for k__ in 0..fields_parsed.len() { let f = &fields_parsed[k__]; let v__ = ") + inner + lex("; m__ = match m__ { None => Some(v__), Some(o__) => Some(max_usize(o__, v__)) }; } unwrap_usize(m__) }")
        g.rule("`v.iter().map(|f| E).max().unwrap()` is written as the loop keeping the largest E"); i = 0
        while i < len(b):
            if b[i:i+8] == lex("elements.last().unwrap()"): b[i:i+8] = lex("last_of(elements)"); g.rule("`v.last().unwrap()` is last_of(v)")
            if b[i:i+2] == ["FieldKind", "::"]:
                e = X.close_of(b, i + 3); inner = [x for x in " ".join(b[i+4:e]).split(" , ") if "ident" not in x and x.strip() not in ("..", "")]
                b[i+4:e] = lex(", ".join(inner) + ", .."); g.rule("patterns bind only the dropped-type-free parts of FieldKind")
            i += 1
        L = [{"kw": "for", "var": 1, "inv": "invariant well(fields_parsed@), (@i > 0) == m__.is_some(), forall|j: int| 0 <= j < @i ==> #[trigger] last_end(fields_parsed@[j]) <= m__->0, @i > 0 ==> exists|j: int| 0 <= j < @i && #[trigger] last_end(fields_parsed@[j]) == m__->0,", "start": "assert(whole(fields_parsed@[@i as int])); let ghost m0__ = m__;", "end": "proof { if @i > 0 { let j = choose|j: int| 0 <= j < @i && #[trigger] last_end(fields_parsed@[j]) == m0__->0; assert(last_end(fields_parsed@[j]) == m0__->0); } assert(last_end(fields_parsed@[@i as int]) == v__); }"}]
        return g, """fn sizes(fields_parsed: &Vec<FieldKind>, struct_size_bytes: Option<usize>) -> (r: (usize, usize)) requires well(fields_parsed@), fields_parsed@.len() > 0, struct_size_bytes.is_some() ==> struct_size_bytes->0 < 0x20_0000, forall|j: int| 0 <= j < fields_parsed@.len() ==> #[trigger] last_end(fields_parsed@[j]) < 0x100_0000
 ensures r.1 == bytes_for(r.0 as int), match struct_size_bytes { Some(z) => r.0 == 8 * z, None => (forall|j: int| 0 <= j < fields_parsed@.len() ==> #[trigger] last_end(fields_parsed@[j]) <= r.0) && exists|j: int| 0 <= j < fields_parsed@.len() && #[trigger] last_end(fields_parsed@[j]) == r.0 } {
""" + g.annotate("", L) + "}"
    u.fn("parse_struct: size in bits and bytes", size)
    return u
def block_around(b, i):
    """tokens of the innermost { } block containing index i"""
    d = 0
    for j in range(i, -1, -1):
        if b[j] in X.CLOSE and j != i: d += 1
        elif b[j] in X.OPEN:
            if d == 0: return b[j+1:X.close_of(b, j)]
            d -= 1
    raise Lost("block")
OVERLAP_SPEC = """
pub open spec fn bytes_for(n: int) -> int { (n + 7) / 8 }
#[verifier::external_body] fn ceil_div8(n: usize) -> (r: usize) requires n < 0x100_0000 ensures r == bytes_for(n as int) { unimplemented!() }
fn unwrap_usize(o: Option<usize>) -> (r: usize) requires o.is_some() ensures r == o->0 { match o { Some(x) => x, None => 0 } }
fn last_of(v: &Vec<FieldRegular>) -> (r: &FieldRegular) requires v@.len() > 0 ensures *r == v@[v@.len() - 1] { &v[v.len() - 1] }
pub open spec fn last_end(k: FieldKind) -> int { match k { FieldKind::Regular { field } => (*field).bit_range_rust.end as int, FieldKind::Array { elements } => elements@[elements@.len() - 1].bit_range_rust.end as int } }
pub open spec fn fine(f: FieldRegular) -> bool { f.bit_range.start <= f.bit_range.end < 4 * limit() }
pub open spec fn whole(k: FieldKind) -> bool { match k { FieldKind::Regular { field } => fine(*field), FieldKind::Array { elements } => elements@.len() > 0 && forall|i: int| 0 <= i < elements@.len() ==> fine(#[trigger] elements@[i]) } }
pub open spec fn well(fs: Seq<FieldKind>) -> bool { forall|i: int| 0 <= i < fs.len() ==> whole(#[trigger] fs[i]) }
pub open spec fn span(f: FieldRegular) -> (int, int) { (f.bit_range.start as int, f.bit_range.end as int) }
/// the bit ranges of a field: one, or one per array element
pub open spec fn part(k: FieldKind) -> Seq<(int, int)> { match k { FieldKind::Regular { field } => seq![span(*field)], FieldKind::Array { elements } => Seq::new(elements@.len(), |i: int| span(elements@[i])) } }
pub open spec fn flat(fs: Seq<FieldKind>, k: int) -> Seq<(int, int)> decreases k { if k <= 0 { Seq::empty() } else { flat(fs, k - 1) + part(fs[k - 1]) } }
/// no two ranges share a bit, none reaches past bit n - 1
pub open spec fn free(rs: Seq<(int, int)>, n: int) -> bool { (forall|j: int| 0 <= j < rs.len() ==> (#[trigger] rs[j]).1 < n) && forall|j: int, k: int| 0 <= j < k < rs.len() ==> (#[trigger] rs[j]).1 < (#[trigger] rs[k]).0 || rs[k].1 < rs[j].0 }
pub open spec fn owned(rs: Seq<(int, int)>, i: int) -> bool { exists|j: int| 0 <= j < rs.len() && (#[trigger] rs[j]).0 <= i <= rs[j].1 }
pub open spec fn marks(bits: Seq<Option<Name>>, rs: Seq<(int, int)>) -> bool { (forall|i: int| 0 <= i < bits.len() ==> (#[trigger] bits[i]).is_some() == owned(rs, i)) && forall|j: int| 0 <= j < rs.len() ==> 0 <= (#[trigger] rs[j]).0 <= rs[j].1 }
/// what the copying of bits relies on: ranges (first, one past last) of different fields are disjoint and inside the structure
proof fn lemma_disjoint(fs: Seq<FieldRegular>, n: int) requires free(Seq::new(fs.len(), |i: int| span(fs[i])), 8 * n), forall|i: int| 0 <= i < fs.len() ==> (#[trigger] fs[i]).of(fs[i].bit_range.start as int, fs[i].bit_range.end as int)
  ensures forall|i: int, j: int| 0 <= i < j < fs.len() ==> (#[trigger] fs[i]).bit_range_rust.end <= (#[trigger] fs[j]).bit_range_rust.start || fs[j].bit_range_rust.end <= fs[i].bit_range_rust.start, forall|i: int| 0 <= i < fs.len() ==> (#[trigger] fs[i]).bit_range_rust.end <= 8 * n
{ let rs = Seq::new(fs.len(), |i: int| span(fs[i])); assert forall|i: int, j: int| 0 <= i < j < fs.len() implies (#[trigger] fs[i]).bit_range_rust.end <= (#[trigger] fs[j]).bit_range_rust.start || fs[j].bit_range_rust.end <= fs[i].bit_range_rust.start by { assert(rs[i].1 < rs[j].0 || rs[j].1 < rs[i].0); } assert forall|i: int| 0 <= i < fs.len() implies (#[trigger] fs[i]).bit_range_rust.end <= 8 * n by { assert(rs[i].1 < 8 * n); } }
proof fn lemma_free_prefix(rs: Seq<(int, int)>, k: int, n: int) requires 0 <= k <= rs.len() ensures free(rs, n) ==> free(rs.take(k), n) { if free(rs, n) { assert forall|j: int| 0 <= j < k implies (#[trigger] rs.take(k)[j]).1 < n by { assert(rs[j].1 < n); } assert forall|i: int, j: int| 0 <= i < j < k implies (#[trigger] rs.take(k)[i]).1 < (#[trigger] rs.take(k)[j]).0 || rs.take(k)[j].1 < rs.take(k)[i].0 by { assert(rs[i].1 < rs[j].0 || rs[j].1 < rs[i].0); } } }
proof fn lemma_flat(fs: Seq<FieldKind>, k: int, n: int) requires 0 <= k <= n ensures flat(fs, k).len() <= flat(fs, n).len(), flat(fs, n).take(flat(fs, k).len() as int) =~= flat(fs, k) decreases n - k { if k < n { lemma_flat(fs, k, n - 1); assert(flat(fs, n) =~= flat(fs, n - 1) + part(fs[n - 1])); assert(flat(fs, n).take(flat(fs, k).len() as int) =~= flat(fs, n - 1).take(flat(fs, k).len() as int)); } }
/// one more range: free exactly when it lies inside and none of its bits is marked; then its bits are marked too
proof fn lemma_mark(bits: Seq<Option<Name>>, rs: Seq<(int, int)>, r: (int, int)) requires marks(bits, rs), free(rs, bits.len() as int), 0 <= r.0 <= r.1
  ensures free(rs.push(r), bits.len() as int) == (r.1 < bits.len() && forall|j: int| r.0 <= j <= r.1 ==> (#[trigger] bits[j]).is_none()),
    forall|now: Seq<Option<Name>>| #![trigger marks(now, rs.push(r))] now.len() == bits.len() && (forall|j: int| 0 <= j < now.len() ==> (#[trigger] now[j]).is_some() == (bits[j].is_some() || r.0 <= j <= r.1)) ==> marks(now, rs.push(r))
{ let q = rs.push(r); let n = bits.len() as int; let ok = r.1 < n && forall|j: int| r.0 <= j <= r.1 ==> (#[trigger] bits[j]).is_none();
  assert forall|j: int| 0 <= j < rs.len() implies #[trigger] q[j] == rs[j] by { } assert(q[rs.len() as int] == r);
  if ok { assert forall|j: int, k: int| 0 <= j < k < q.len() implies (#[trigger] q[j]).1 < (#[trigger] q[k]).0 || q[k].1 < q[j].0 by { if k == rs.len() { let a = rs[j]; if !(a.1 < r.0 || r.1 < a.0) { let i = if a.0 > r.0 { a.0 } else { r.0 }; assert(owned(rs, i)); assert(bits[i].is_none()); } } else { assert(rs[j].1 < rs[k].0 || rs[k].1 < rs[j].0); } } assert(free(q, n)); }
  if free(q, n) { assert(q[rs.len() as int].1 < n); assert forall|j: int| r.0 <= j <= r.1 implies (#[trigger] bits[j]).is_none() by { if owned(rs, j) { let k = choose|k: int| 0 <= k < rs.len() && (#[trigger] rs[k]).0 <= j <= rs[k].1; assert(q[k].1 < q[rs.len() as int].0 || q[rs.len() as int].1 < q[k].0); } } }
  assert forall|now: Seq<Option<Name>>| #![trigger marks(now, q)] now.len() == bits.len() && (forall|j: int| 0 <= j < now.len() ==> (#[trigger] now[j]).is_some() == (bits[j].is_some() || r.0 <= j <= r.1)) implies marks(now, q) by {
    assert forall|i: int| 0 <= i < now.len() implies (#[trigger] now[i]).is_some() == owned(q, i) by { if owned(rs, i) { let k = choose|k: int| 0 <= k < rs.len() && (#[trigger] rs[k]).0 <= i <= rs[k].1; assert(q[k].0 <= i <= q[k].1); } if r.0 <= i <= r.1 { assert(q[rs.len() as int].0 <= i <= q[rs.len() as int].1); } if owned(q, i) { let k = choose|k: int| 0 <= k < q.len() && (#[trigger] q[k]).0 <= i <= q[k].1; if k < rs.len() { assert(rs[k].0 <= i <= rs[k].1); } } }
    assert forall|j: int| 0 <= j < q.len() implies 0 <= (#[trigger] q[j]).0 <= q[j].1 by { if j < rs.len() { assert(0 <= rs[j].0 <= rs[j].1); } } } }
"""

# ------------------------------------------------------------------ C03, C07, C13, C16: packable types without parts
SIMPLE = """
use core::marker::PhantomData;
pub trait PackedStructInfo { spec fn bits() -> int; fn packed_bits() -> (r: usize) requires Self::bits() <= usize::MAX ensures r == Self::bits(); }
/// what Default::default() answers: a value of the type alone
pub uninterp spec fn default_of<T>() -> T;
#[verifier::external_body] fn default_value<T: Default>() -> (r: T) ensures r == default_of::<T>() { T::default() }
pub trait NumberOfBytes { type AsBytes: ByteArray; }
pub trait NumberOfBits { type Bytes: NumberOfBytes; spec fn count() -> int; fn number_of_bits() -> (r: usize) ensures r == Self::count(); }
pub trait ReservedBitValue { spec fn fill() -> u8; fn get_reserved_bit_value_byte() -> (r: u8) ensures r == Self::fill(); }
"""
DEFAULT_NOTE = "Default::default() is a function of the type alone (the derived Default of ReservedBits; its result is compared for every width by the Kani contracts of C07)"
TABLE_NOTE = "NumberOfBits/NumberOfBytes implementations (generated tables): their pairing is executed for every width by C13"
SIMPLE_OF = {"C07": ("Reserved", "BitOne", "BitZero"), "C16": ("[u8; N]",), "C13": ("packed_bits",), "C03": ("for bool", "for u8", "for i8"), "C02": ("for bool", "for u8", "for i8", "for ()", "[u8; N]")}
def simple(prop=None):
    u = bits(); u.name = "simple"; u.only = (lambda k: any(x in k for x in SIMPLE_OF[prop]) and "ByteArray>" not in k) if prop else None
    u.trusted += [ERROR_NOTE, DEFAULT_NOTE, TABLE_NOTE]
    u.text(errors() + PACKED + SIMPLE)
    b = src(RT + "types_basic.rs"); a = src(RT + "types_array.rs"); r = src(RT + "types_reserved.rs")
    def two(f, ty, specs, pat=None, label=None, arr="[u8; 1]"):
        h, body = f.impl(r"PackedStruct for " + (pat or ty) + "( where.*)?$"); label = label or ty
        u.text(h + " {\n" + specs)
        for m in ("pack", "unpack"):
            def go(m=m):
                g = f.fn(m, body); g.subst("Self::default()", "default_value::<Self>()", "Self::default() is default_value()")
                post = "proof { if r__.is_ok() { assert(r__->Ok_0.bytes() =~= self.packed()->Ok_0); } }" if m == "pack" else "proof { " + ("assert(r__->Ok_0@ =~= src@); assert(r__->Ok_0 =~= array_of::<N>(src@));" if label == "[u8; N]" else "") + " }"
                return g, g.sig() + " {\n let r__ = {" + g.annotate("", []) + "};\n" + post + " r__ }"
            if not u.fn(f"PackedStruct for {label}::{m}", go): u.text("#[verifier::external_body] " + f.fn(m, body).sig() + " { unimplemented!() }")
        u.text("}")
    two(b, "bool", "type ByteArray = [u8; 1]; open spec fn packed(&self) -> PackingResult<Seq<u8>> { Ok(seq![if *self { 1u8 } else { 0u8 }]) } open spec fn unpacked(s: Seq<u8>) -> PackingResult<Self> { if s[0] == 1 { Ok(true) } else if s[0] == 0 { Ok(false) } else { Err(PackingError::InvalidValue) } }")
    two(b, "u8", "type ByteArray = [u8; 1]; open spec fn packed(&self) -> PackingResult<Seq<u8>> { Ok(seq![*self]) } open spec fn unpacked(s: Seq<u8>) -> PackingResult<Self> { Ok(s[0]) }")
    two(b, "i8", "type ByteArray = [u8; 1]; open spec fn packed(&self) -> PackingResult<Seq<u8>> { Ok(seq![*self as u8]) } open spec fn unpacked(s: Seq<u8>) -> PackingResult<Self> { Ok(s[0] as i8) }")
    two(b, r"()", "type ByteArray = [u8; 0]; open spec fn packed(&self) -> PackingResult<Seq<u8>> { Ok(Seq::empty()) } open spec fn unpacked(s: Seq<u8>) -> PackingResult<Self> { Ok(()) }", pat=r"\( \)")
    u.text("pub open spec fn array_of<const N: usize>(s: Seq<u8>) -> [u8; N] { choose|a: [u8; N]| a@ == s }")
    two(a, "", "type ByteArray = [u8; N]; open spec fn packed(&self) -> PackingResult<Seq<u8>> { Ok(self@) } open spec fn unpacked(s: Seq<u8>) -> PackingResult<Self> { Ok(array_of::<N>(s)) }", pat=r"\[ u8 ; N \]", label="[u8; N]")
    # reserved
    for n, v in (("BitOne", "0xffu8"), ("BitZero", "0u8")):
        h, body = r.impl(r"ReservedBitValue for " + n)
        u.text(f"pub struct {n}; {h} {{ open spec fn fill() -> u8 {{ {v} }}")
        def go(): g = r.fn("get_reserved_bit_value_byte", body); return g, g.sig() + " {\n" + g.annotate("", []) + "}"
        if not u.fn(f"<{n} as ReservedBitValue>::get_reserved_bit_value_byte", go): u.text("#[verifier::external_body] " + r.fn("get_reserved_bit_value_byte", body).sig() + " { unimplemented!() }")
        u.text("}")
    h, sb = r.block("struct", "ReservedBits"); u.text(f"pub struct ReservedBits<V, B> {{ {text(sb)} }}")
    two(r, "", "type ByteArray = <<B as NumberOfBits>::Bytes as NumberOfBytes>::AsBytes; open spec fn packed(&self) -> PackingResult<Seq<u8>> { Ok(Seq::new(Self::ByteArray::size(), |i: int| V::fill())) } open spec fn unpacked(s: Seq<u8>) -> PackingResult<Self> { Ok(default_of::<Self>()) }", pat=r"ReservedBits < V , B >", label="ReservedBits<V, B>")
    for f, ty, pat, n in ((b, "bool", "bool", "1"), (b, "u8", "u8", "8"), (b, "i8", "i8", "8"), (b, "()", r"\( \)", "0"), (a, "[u8; N]", r"\[ u8 ; N \]", "N * 8"), (r, "ReservedBits<V, B>", r"ReservedBits < V , B >", "B::count()")):
        h, body = f.impl(r"PackedStructInfo for " + pat)
        u.text(h + f" {{ open spec fn bits() -> int {{ {n} }}")
        def go(f=f, body=body): g = f.fn("packed_bits", body); return g, g.sig() + " {\n" + g.annotate("", []) + "}"
        if not u.fn(f"<{ty} as PackedStructInfo>::packed_bits", go): u.text("#[verifier::external_body] " + f.fn("packed_bits", body).sig() + " { unimplemented!() }")
        u.text("}")
    u.text("""/// C02 for the types themselves
proof fn lemma_round_trips(a: bool, b: u8, c: i8, s: Seq<u8>) ensures bool::unpacked(a.packed()->Ok_0) == Ok::<bool, PackingError>(a), u8::unpacked(b.packed()->Ok_0) == Ok::<u8, PackingError>(b), i8::unpacked(c.packed()->Ok_0) == Ok::<i8, PackingError>(c) { assert((c as u8) as i8 == c) by (bit_vector); }
""")
    return u
