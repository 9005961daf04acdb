// Trusted base: what is assumed of std and os_str_bytes, and ghost views of std types.
// Everything here is an assumption; nothing here mentions palc.

verus! {
pub mod pre {
use vstd::prelude::*;

use vstd::utf8::*;
use std::ffi::{OsStr, OsString};
use std::borrow::Cow;
use vstd::string::StringSliceAdditionalSpecFns;

pub trait Bytes { spec fn b(&self) -> Seq<u8>; }

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExOsStr(OsStr);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExOsString(OsString);

impl Bytes for OsStr { uninterp spec fn b(&self) -> Seq<u8>; }
impl Bytes for OsString { uninterp spec fn b(&self) -> Seq<u8>; }
impl Bytes for str { open spec fn b(&self) -> Seq<u8> { encode_utf8(self@) } }
impl Bytes for Cow<'_, OsStr> {
    open spec fn b(&self) -> Seq<u8> { match self { Cow::Borrowed(x) => x.b(), Cow::Owned(y) => y.b() } }
}
pub open spec fn ob(o: Option<OsString>) -> Option<Seq<u8>> { match o { Some(x) => Some(x.b()), None => None } }
pub open spec fn obr(o: Option<&OsStr>) -> Option<Seq<u8>> { match o { Some(x) => Some(x.b()), None => None } }

// ---- ASCII literals used as byte strings ----
pub open spec fn minus() -> u8 { 45 }

// ---- OsStr, OsString, Cow ----
pub assume_specification[ <OsString as core::ops::Deref>::deref ](s: &OsString) -> (r: &OsStr) ensures r.b() == s.b();
pub assume_specification<'a>[ <OsString as PartialEq<&'a str>>::eq ](s: &OsString, o: &&str) -> (r: bool) ensures r == (s.b() == (*o).b());
pub broadcast axiom fn ax_eq_obeys()
    ensures #[trigger] <OsStr as vstd::std_specs::cmp::PartialEqSpec<str>>::obeys_eq_spec();
pub broadcast axiom fn ax_eq_spec(x: &OsStr, y: &str)
    ensures #[trigger] <OsStr as vstd::std_specs::cmp::PartialEqSpec<str>>::eq_spec(x, y) == (x.b() == y.b());
pub assume_specification[ <OsStr as PartialEq<str>>::eq ](s: &OsStr, o: &str) -> (r: bool) ensures r == (s.b() == o.b());
pub assume_specification[ OsStr::as_encoded_bytes ](s: &OsStr) -> (r: &[u8]) ensures r@ == s.b();
pub assume_specification[ OsStr::is_empty ](s: &OsStr) -> (r: bool) ensures r == (s.b().len() == 0);
pub assume_specification[ OsStr::len ](s: &OsStr) -> (r: usize) ensures r == s.b().len();
pub assume_specification[ OsStr::make_ascii_lowercase ](s: &mut OsStr) ensures final(s).b() == lower(old(s).b());
pub assume_specification[ <OsString as core::ops::DerefMut>::deref_mut ](s: &mut OsString) -> (r: &mut OsStr)
    ensures r.b() == old(s).b(), final(s).b() == final(r).b();
pub assume_specification[ OsString::with_capacity ](n: usize) -> (r: OsString) ensures r.b() == Seq::<u8>::empty();
pub assume_specification[ OsStr::to_os_string ](s: &OsStr) -> (r: OsString) ensures r.b() == s.b();
pub assume_specification[ <OsStr as std::borrow::ToOwned>::to_owned ](s: &OsStr) -> (r: OsString) ensures r.b() == s.b();
pub assume_specification<T: AsRef<OsStr>>[ OsString::push ](s: &mut OsString, x: T) ensures final(s).b() == old(s).b() + asref_b(x);
pub assume_specification<'a, T: ?Sized + AsRef<OsStr>>[ <OsString as From<&'a T>>::from ](s: &'_ T) -> (r: OsString) ensures r.b() == asref_b(s);
pub assume_specification[ <str as AsRef<OsStr>>::as_ref ](s: &str) -> (r: &OsStr) ensures r.b() == s.b();
pub assume_specification<'a>[ <&'a OsStr as Default>::default ]() -> (r: &'a OsStr) ensures r.b() == Seq::<u8>::empty();
pub assume_specification<'a, 'r, X: ?Sized + std::borrow::ToOwned>[ Cow::<'a, X>::to_mut ](c: &'r mut Cow<'a, X>) -> (r: &'r mut X::Owned)
    ensures *r == (match *old(c) { Cow::Borrowed(x) => owned_of::<X>(x), Cow::Owned(y) => y }), *final(c) == Cow::<'a, X>::Owned(*final(r));
pub uninterp spec fn owned_of<X: ?Sized + std::borrow::ToOwned>(x: &X) -> X::Owned;
pub broadcast axiom fn ax_owned(x: &OsStr) ensures #[trigger] owned_of::<OsStr>(x).b() == x.b();
pub uninterp spec fn borrow_b<X: ?Sized>(x: &X) -> Seq<u8>;
pub uninterp spec fn owned_b<X: ?Sized + std::borrow::ToOwned>(x: X::Owned) -> Seq<u8>;
pub broadcast axiom fn ax_borrow_b(x: &OsStr) ensures #[trigger] borrow_b::<OsStr>(x) == x.b();
pub broadcast axiom fn ax_owned_b(x: OsString) ensures #[trigger] owned_b::<OsStr>(x) == x.b();
pub assume_specification<'a, 'r, X: ?Sized + std::borrow::ToOwned>[ <Cow<'a, X> as core::ops::Deref>::deref ](c: &'r Cow<'a, X>) -> (r: &'r X)
    ensures borrow_b::<X>(r) == (match *c { Cow::Borrowed(x) => borrow_b::<X>(x), Cow::Owned(y) => owned_b::<X>(y) });
pub broadcast axiom fn ax_borrow_str(x: &str) ensures #[trigger] borrow_b::<str>(x) == encode_utf8(x@);
pub broadcast axiom fn ax_owned_str(x: String) ensures #[trigger] owned_b::<str>(x) == encode_utf8(x@);
/// The text of an `OsStr`, with replacement characters for what is not UTF-8.
pub uninterp spec fn lossy(b: Seq<u8>) -> Seq<char>;
pub assume_specification[ OsStr::to_string_lossy ](s: &OsStr) -> (r: Cow<'_, str>)
    ensures match r { Cow::Borrowed(x) => x@ == lossy(s.b()), Cow::Owned(y) => y@ == lossy(s.b()) };
pub assume_specification<X, Y>[ core::ops::ControlFlow::<X, Y>::is_break ](s: &core::ops::ControlFlow<X, Y>) -> (r: bool) ensures r == (s is Break);
pub uninterp spec fn asref_b<T>(s: T) -> Seq<u8>;
pub broadcast axiom fn ax_asref_osstr(s: &OsStr) ensures #[trigger] asref_b::<&OsStr>(s) == s.b();
pub broadcast axiom fn ax_asref_str(s: &str) ensures #[trigger] asref_b::<&str>(s) == s.b();
/// An `OsStr` that is UTF-8 converts to the string with those bytes; any other one does not convert.
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUtf8Error(std::str::Utf8Error);

pub open spec fn lower1(x: u8) -> u8 { if 65 <= x <= 90 { (x + 32) as u8 } else { x } }
pub open spec fn lower(s: Seq<u8>) -> Seq<u8> { s.map_values(|x: u8| lower1(x)) }
pub open spec fn is_digit(x: u8) -> bool { 48 <= x <= 57 }

// ---- os_str_bytes::OsStrBytesExt ----
pub open spec fn starts(s: Seq<u8>, p: Seq<u8>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
pub broadcast proof fn lemma_starts1(s: Seq<u8>, x: u8)
    ensures #[trigger] starts(s, seq![x]) == (s.len() > 0 && s[0] == x)
{ if s.len() > 0 && s[0] == x { assert(s.take(1) =~= seq![x]); } if starts(s, seq![x]) { assert(s.take(1)[0] == x); } }
/// Where `p` occurs first in `s`, if it does.
pub open spec fn find_at(s: Seq<u8>, p: Seq<u8>) -> Option<int>
    decreases s.len()
{
    if starts(s, p) { Some(0int) }
    else if s.len() == 0 { None }
    else { match find_at(s.skip(1), p) { Some(i) => Some(i + 1), None => None } }
}
pub open spec fn cut(s: Seq<u8>, p: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> {
    match find_at(s, p) { Some(i) => Some((s.take(i), s.skip(i + p.len()))), None => None }
}
/// The pieces of `s` between occurrences of `p`.
pub open spec fn pieces(s: Seq<u8>, p: Seq<u8>) -> Seq<Seq<u8>>
    decreases s.len()
{
    match find_at(s, p) {
        Some(i) => if 0 <= i && p.len() > 0 && i + p.len() <= s.len() { seq![s.take(i)] + pieces(s.skip(i + p.len()), p) } else { seq![s] },
        None => seq![s],
    }
}
#[verifier::external_body]
pub struct Split<'a>(&'a OsStr);
impl<'a> Split<'a> {
    pub uninterp spec fn rest(&self) -> Seq<Seq<u8>>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a OsStr>)
        ensures match r {
            Some(x) => old(self).rest().len() > 0 && x.b() == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
            None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
        }
    { unimplemented!() }
}
pub trait OsStrBytesExt: Bytes {
    fn starts_with(&self, p: &str) -> (r: bool)
        ensures r == starts(self.b(), p.b());
    fn strip_prefix(&self, p: &str) -> (r: Option<&OsStr>)
        ensures match r {
            Some(t) => starts(self.b(), p.b()) && t.b() == self.b().skip(p.b().len() as int),
            None => !starts(self.b(), p.b()),
        };
    fn split_once(&self, p: &str) -> (r: Option<(&OsStr, &OsStr)>)
        ensures match r { Some((x, y)) => cut(self.b(), p.b()) == Some((x.b(), y.b())), None => cut(self.b(), p.b()) is None };
    /// Panics when `r.start` is out of bounds or inside a character.
    fn index(&self, r: core::ops::RangeFrom<usize>) -> (s: &OsStr)
        requires r.start <= self.b().len(), char_cut(self.b(), r.start as int)
        ensures s.b() == self.b().skip(r.start as int);
    fn split(&self, c: char) -> (r: Split<'_>)
        ensures r.rest() == pieces(self.b(), encode_scalar(c as u32));
}
impl OsStrBytesExt for OsStr {
    #[verifier::external_body]
    fn starts_with(&self, p: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn strip_prefix(&self, p: &str) -> (r: Option<&OsStr>) { unimplemented!() }
    #[verifier::external_body]
    fn split_once(&self, p: &str) -> (r: Option<(&OsStr, &OsStr)>) { unimplemented!() }
    #[verifier::external_body]
    fn index(&self, r: core::ops::RangeFrom<usize>) -> (s: &OsStr) { unimplemented!() }
    #[verifier::external_body]
    fn split(&self, c: char) -> (r: Split<'_>) { unimplemented!() }
}
/// `i` is at the end of a valid UTF-8 prefix of `s`.
pub open spec fn char_cut(s: Seq<u8>, i: int) -> bool { 0 <= i <= s.len() && valid_utf8(s.take(i)) }

// ---- slices ----
pub fn bytes_eq(x: &[u8], y: &[u8]) -> (r: bool)
    ensures r == (x@ =~= y@)
{
    if x.len() != y.len() { assert(x@ != y@); return false; }
    let mut i: usize = 0;
    while i < x.len()
        invariant i <= x.len(), x.len() == y.len(), forall|k: int| 0 <= k < i ==> x@[k] == y@[k]
        decreases x.len() - i
    {
        if x[i] != y[i] { assert(x@ != y@); return false; }
        i = i + 1;
    }
    assert(x@ =~= y@);
    true
}

/// `<[T]>::binary_search_by_key(&k, |(key, _)| key.as_bytes())` of std: on a sorted slice it finds an equal key if there is one.
pub open spec fn bytes_lt(x: Seq<u8>, y: Seq<u8>) -> bool
    decreases x.len()
{
    if y.len() == 0 { false } else if x.len() == 0 { true }
    else if x[0] != y[0] { x[0] < y[0] } else { bytes_lt(x.skip(1), y.skip(1)) }
}
pub open spec fn keys<T>(s: Seq<(&'static str, T)>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| s[i].0.b()) }
pub open spec fn sorted(k: Seq<Seq<u8>>) -> bool { forall|i: int, j: int| 0 <= i < j < k.len() ==> bytes_lt(#[trigger] k[i], #[trigger] k[j]) }
#[verifier::external_body]
pub fn search_sorted<T>(s: &[(&'static str, T)], k: &[u8]) -> (r: Result<usize, usize>)
    ensures
        sorted(keys(s@)) ==> match r {
            Ok(i) => i < s@.len() && s@[i as int].0.b() == k@,
            Err(_) => forall|j: int| 0 <= j < s@.len() ==> #[trigger] s@[j].0.b() != k@,
        },
        r matches Ok(i) ==> i < s@.len(),
{ s.binary_search_by_key(&k, |(key, _)| key.as_bytes()) }

/// `str::split_once` with a character: cuts at its first occurrence.  (In UTF-8 a character's bytes occur only where the character does.)
pub uninterp spec fn pat_b<P>(p: P) -> Seq<u8>;
pub broadcast axiom fn ax_pat_char(c: char) ensures #[trigger] pat_b::<char>(c) == encode_scalar(c as u32);
pub assume_specification<'a, P: core::str::pattern::Pattern>[ str::split_once::<P> ](s: &'a str, p: P) -> (r: Option<(&'a str, &'a str)>)
    ensures match r { Some((x, y)) => cut(s.b(), pat_b(p)) == Some((x.b(), y.b())), None => cut(s.b(), pat_b(p)) is None };
pub assume_specification[ u8::is_ascii ](b: &u8) -> (r: bool) ensures r == (*b < 128);
pub proof fn lemma_ascii1(b: u8)
    requires b < 128
    ensures encode_scalar(b as char as u32) =~= seq![b]
{
    let c = seq![b as char];
    is_ascii_chars_encode_utf8(c);
    assert(encode_utf8(c) =~= seq![b]);
    assert(c.drop_first() =~= Seq::<char>::empty());
    assert(encode_utf8(c.drop_first()) =~= Seq::<u8>::empty());
    reveal_with_fuel(encode_utf8, 2);
}
/// A match lies inside the text.
pub proof fn lemma_find_at(s: Seq<u8>, p: Seq<u8>)
    ensures find_at(s, p) matches Some(i) ==> 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p
    decreases s.len()
{
    if starts(s, p) { assert(s.subrange(0, p.len() as int) =~= s.take(p.len() as int)); }
    else if s.len() > 0 {
        lemma_find_at(s.skip(1), p);
        if let Some(i) = find_at(s.skip(1), p) { assert(s.subrange(i + 1, i + 1 + p.len()) =~= s.skip(1).subrange(i, i + p.len())); }
    }
}

pub assume_specification[ u8::is_ascii_digit ](b: &u8) -> (r: bool) ensures r == is_digit(*b);

/// Comparison of a `&str` with a string pattern.
#[verifier::external_body]
pub fn vx_str_eq(x: &str, y: &str) -> (r: bool)
    ensures r == (x.b() == y.b())
{ x == y }
/// A call that must not happen.
#[verifier::external_body]
pub fn vx_unreachable() -> !
    requires false
{ unreachable!() }
#[verifier::external_body]
pub fn vx_assert(c: bool)
    requires c
{ assert!(c) }

/// The part-formatter of a command's help text.
pub trait HelpFmt {
    /// The text written at precision `n`.
    spec fn part(&self, n: int) -> Seq<char>;
}

/// The words of the command line that are still to come.
pub trait ArgSource {
    spec fn rest(&self) -> Seq<Seq<u8>>;
    fn next(&mut self) -> (r: Option<OsString>)
        ensures match r {
            Some(x) => old(self).rest().len() > 0 && x.b() == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
            None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
        };
}

// ---- UTF-8 ----
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUtf8Chunks<'a>(std::str::Utf8Chunks<'a>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUtf8Chunk<'a>(std::str::Utf8Chunk<'a>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExCharIndices<'a>(std::str::CharIndices<'a>);
pub uninterp spec fn chunks_b(c: &std::str::Utf8Chunks) -> Seq<u8>;
pub uninterp spec fn chunk_v(c: &std::str::Utf8Chunk) -> Seq<char>;
pub uninterp spec fn chunk_i(c: &std::str::Utf8Chunk) -> Seq<u8>;
/// What is left to iterate, and the offset of its first character.
pub uninterp spec fn ci_rest(c: &std::str::CharIndices) -> Seq<char>;
pub uninterp spec fn ci_off(c: &std::str::CharIndices) -> int;
pub assume_specification[ <[u8]>::utf8_chunks ](s: &[u8]) -> (r: std::str::Utf8Chunks<'_>) ensures chunks_b(&r) == s@;
/// The first chunk: the longest valid prefix, and the (non-empty) ill-formed bytes after it unless all is valid.
pub assume_specification<'a>[ <std::str::Utf8Chunks<'a> as Iterator>::next ](s: &mut std::str::Utf8Chunks<'a>) -> (r: Option<std::str::Utf8Chunk<'a>>)
    ensures
        chunks_b(old(s)).len() == 0 ==> r is None,
        chunks_b(old(s)).len() > 0 ==> r is Some,
        r matches Some(c) ==> {
            let v = encode_utf8(chunk_v(&c));
            &&& v.len() <= chunks_b(old(s)).len()
            &&& chunks_b(old(s)).take(v.len() as int) == v
            &&& chunk_i(&c).len() == 0 ==> v.len() == chunks_b(old(s)).len()
            &&& chunk_i(&c).len() > 0 ==> v.len() < chunks_b(old(s)).len() && !valid_first_scalar(chunks_b(old(s)).skip(v.len() as int))
        };
pub assume_specification<'a>[ std::str::Utf8Chunk::<'a>::valid ](s: &std::str::Utf8Chunk<'a>) -> (r: &'a str) ensures r@ == chunk_v(s);
pub assume_specification<'a>[ std::str::Utf8Chunk::<'a>::invalid ](s: &std::str::Utf8Chunk<'a>) -> (r: &'a [u8]) ensures r@ == chunk_i(s);
pub assume_specification[ str::char_indices ](s: &str) -> (r: std::str::CharIndices<'_>) ensures ci_rest(&r) == s@, ci_off(&r) == 0, s.b().len() <= usize::MAX;
pub assume_specification<'a>[ <std::str::CharIndices<'a> as Iterator>::next ](s: &mut std::str::CharIndices<'a>) -> (r: Option<(usize, char)>)
    ensures match r {
        Some((i, c)) => ci_rest(old(s)).len() > 0 && c == ci_rest(old(s))[0] && i == ci_off(old(s)) && ci_rest(final(s)) == ci_rest(old(s)).skip(1)
            && ci_off(final(s)) == ci_off(old(s)) + encode_scalar(c as u32).len(),
        None => ci_rest(old(s)).len() == 0 && ci_rest(final(s)) == ci_rest(old(s)) && ci_off(final(s)) == ci_off(old(s)),
    };
/// `char::encode_utf8`, its result taken as a shared reference.  Panics when the character does not fit.
#[verifier::external_body]
pub fn vx_encode_utf8<'a>(c: char, buf: &'a mut [u8]) -> (r: &'a str)
    requires old(buf)@.len() >= encode_scalar(c as u32).len()
    ensures r@ == seq![c], r.b() == encode_scalar(c as u32)
{ c.encode_utf8(buf) }
/// No object is larger than `isize::MAX` bytes.
pub broadcast axiom fn ax_str_len(s: &str) ensures #[trigger] s.spec_bytes().len() <= isize::MAX;
#[verifier::external_body]
pub broadcast proof fn ax_osstr_len(s: &OsStr) ensures #[trigger] s.b().len() <= isize::MAX {}

pub assume_specification<'a>[ <&'a str as TryFrom<&'a OsStr>>::try_from ](s: &'a OsStr) -> (r: Result<&'a str, <&'a str as TryFrom<&'a OsStr>>::Error>)
    ensures match r { Ok(t) => valid_utf8(s.b()) && t.b() == s.b(), Err(_) => !valid_utf8(s.b()) };

pub assume_specification<T> [std::option::Option::<T>::get_or_insert_default] (o: &mut std::option::Option<T>) -> (r: &mut T)
    where T: std::default::Default
    ensures
        *old(o) matches Some(x) ==> *r == x,
        *old(o) is None ==> call_ensures(T::default, (), *r),
        *final(o) == Some(*final(r));
pub assume_specification<T> [std::mem::drop] (_0: T) where T: std::marker::Destruct;
pub broadcast group axioms { ax_borrow_b, ax_owned_b, ax_borrow_str, ax_owned_str, ax_eq_obeys, ax_eq_spec, ax_pat_char, ax_asref_osstr, ax_asref_str, ax_owned, ax_str_len, ax_osstr_len }
} // mod pre
}
fn main(){}
