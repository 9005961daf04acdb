@raw
use vstd::utf8::*;
use vstd::string::StringSliceAdditionalSpecFns;
use std::ffi::{OsStr, OsString};
use std::borrow::Cow;
use std::ops::ControlFlow;
use std::marker::PhantomData;
use std::str::FromStr;
use crate::pre::*;
broadcast use crate::pre::axioms;
pub type Result<T, E = Error> = std::result::Result<T, E>;
pub type B = Seq<u8>;

@item error::ErrorKind

@raw
// ======== Errors ========
/// A boxed error object of the user's value type.
#[verifier::external_body]
pub struct DynStdError(Box<dyn std::error::Error + Send + Sync>);
/// Its identity.
pub uninterp spec fn src_id(e: DynStdError) -> int;
pub open spec fn osrc(e: Option<DynStdError>) -> Option<int> { match e { Some(x) => Some(src_id(x)), None => None } }
pub open spec fn ostr(o: Option<&'static str>) -> Option<B> { match o { Some(x) => Some(x.b()), None => None } }
pub open spec fn ostring(o: Option<String>) -> Option<Seq<char>> { match o { Some(x) => Some(x@), None => None } }

/// What an error says.
#[verifier::ext_equal]
pub ghost struct ErrV {
    pub kind: ErrorKind,
    pub arg: Option<B>,
    pub input: Option<B>,
    pub src: Option<int>,
    pub ctx: Seq<char>,
    pub help: Option<Seq<char>>,
}
pub open spec fn err0(kind: ErrorKind) -> ErrV {
    ErrV { kind, arg: None, input: None, src: None, ctx: Seq::empty(), help: None }
}

@item error::Inner
@item error::Error
@raw
impl Error {
    pub open spec fn v(&self) -> ErrV {
        ErrV { kind: self.0.kind, arg: ostr(self.0.arg_desc), input: ob(self.0.input), src: osrc(self.0.source), ctx: self.0.contextual_help@, help: ostring(self.0.help) }
    }
}
#[verifier::external]
impl std::fmt::Debug for Error { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<ErrorKind> for Error {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: ErrorKind) -> Self { arbitrary() }
}
@impl error::Error
@fn error::Error::new
    ensures r.v() =~= err0(kind)
@owner C11
@fn error::Error::with_source
    ensures r.v() =~= (ErrV { src: Some(src_id(source)), ..self.v() })
@owner C11
@fn error::Error::with_arg_desc
    ensures r.v() =~= (ErrV { arg: ostr(arg_desc), ..self.v() })
@owner C11
@fn error::Error::try_into_help
    ensures match r {
        Ok(h) => self.v().help == Some(h@),
        Err(e) => self.v().help is None && e.v() =~= self.v(),
    }
@owner C13
@impl error::<Error as From<ErrorKind>>
@fn error::<Error as From<ErrorKind>>::from
    ensures r.v() == err0(kind)
@owner C11
@impl error::ErrorKind
@fn error::ErrorKind::with_input
    ensures r.v() =~= (ErrV { input: Some(input.b()), ..err0(self) })
@owner C11
@fn error::ErrorKind::with_arg_idx
    ensures r.v() =~= (ErrV { arg: desc_of(info.v(), idx as int), ..err0(self) })
@owner C11

// ======== Attributes ========
@item shared::ArgAttrs
@impl shared::ArgAttrs
@fn shared::ArgAttrs::index
    ensures r.0 == i
@owner C04 C05
@fn shared::ArgAttrs::get_index
    ensures r as int == idx_of(self.0)
@owner C04 C05
@fn shared::ArgAttrs::union
    ensures r.0 == self.0 | other.0
@owner C04 C05
@fn shared::ArgAttrs::contains
    ensures r == bit(self.0, other.0)
@owner C01 C02 C03 C04 C05

@raw
pub open spec fn bit(a: u32, flag: u32) -> bool { a & flag == flag }
pub open spec fn idx_of(a: u32) -> int { (a as u8) as int }
/// One bit, outside the index byte.
pub open spec fn is_flag(x: u32) -> bool { x & 0xffu32 == 0 && x != 0 && x & ((x - 1) as u32) == 0 }
/// The flags are distinct single bits outside the index byte.
// @@BEGIN flags_are_distinct_bits
pub proof fn flags_are_distinct_bits()
    ensures
        is_flag(ArgAttrs::REQUIRE_VALUE.0), is_flag(ArgAttrs::REQUIRE_EQ.0), is_flag(ArgAttrs::ACCEPT_HYPHEN_ANY.0),
        is_flag(ArgAttrs::ACCEPT_HYPHEN_NUM.0), is_flag(ArgAttrs::GLOBAL.0), is_flag(ArgAttrs::MAKE_LOWERCASE.0),
        is_flag(ArgAttrs::VAR_ARG.0), is_flag(ArgAttrs::GREEDY.0), is_flag(ArgAttrs::LAST.0),
        ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::REQUIRE_EQ.0 + ArgAttrs::ACCEPT_HYPHEN_ANY.0 + ArgAttrs::ACCEPT_HYPHEN_NUM.0
            + ArgAttrs::GLOBAL.0 + ArgAttrs::MAKE_LOWERCASE.0 + ArgAttrs::VAR_ARG.0 + ArgAttrs::GREEDY.0 + ArgAttrs::LAST.0
        == (ArgAttrs::REQUIRE_VALUE.0 | ArgAttrs::REQUIRE_EQ.0 | ArgAttrs::ACCEPT_HYPHEN_ANY.0 | ArgAttrs::ACCEPT_HYPHEN_NUM.0
            | ArgAttrs::GLOBAL.0 | ArgAttrs::MAKE_LOWERCASE.0 | ArgAttrs::VAR_ARG.0 | ArgAttrs::GREEDY.0 | ArgAttrs::LAST.0),
{
    assert(is_flag(ArgAttrs::REQUIRE_VALUE.0)) by (compute);
    assert(is_flag(ArgAttrs::REQUIRE_EQ.0)) by (compute);
    assert(is_flag(ArgAttrs::ACCEPT_HYPHEN_ANY.0)) by (compute);
    assert(is_flag(ArgAttrs::ACCEPT_HYPHEN_NUM.0)) by (compute);
    assert(is_flag(ArgAttrs::GLOBAL.0)) by (compute);
    assert(is_flag(ArgAttrs::MAKE_LOWERCASE.0)) by (compute);
    assert(is_flag(ArgAttrs::VAR_ARG.0)) by (compute);
    assert(is_flag(ArgAttrs::GREEDY.0)) by (compute);
    assert(is_flag(ArgAttrs::LAST.0)) by (compute);
    assert(ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::REQUIRE_EQ.0 + ArgAttrs::ACCEPT_HYPHEN_ANY.0 + ArgAttrs::ACCEPT_HYPHEN_NUM.0
            + ArgAttrs::GLOBAL.0 + ArgAttrs::MAKE_LOWERCASE.0 + ArgAttrs::VAR_ARG.0 + ArgAttrs::GREEDY.0 + ArgAttrs::LAST.0
        == (ArgAttrs::REQUIRE_VALUE.0 | ArgAttrs::REQUIRE_EQ.0 | ArgAttrs::ACCEPT_HYPHEN_ANY.0 | ArgAttrs::ACCEPT_HYPHEN_NUM.0
            | ArgAttrs::GLOBAL.0 | ArgAttrs::MAKE_LOWERCASE.0 | ArgAttrs::VAR_ARG.0 | ArgAttrs::GREEDY.0 | ArgAttrs::LAST.0)) by (compute);
}
// @@END

// ======== Tables ========
/// What a `RawArgsInfo` says.
#[verifier::ext_equal]
pub ghost struct InfoV {
    pub names: Seq<(B, u32)>,
    pub pos: Seq<u32>,
    pub descs: Seq<B>,
    pub subs: Option<Seq<(B, usize)>>,
}
/// The NUL-terminated pieces of a list.
pub open spec fn terminated(s: B) -> Seq<B>
    decreases s.len()
{
    match cut1(s, 0) { Some((x, y)) => if y.len() < s.len() { seq![x] + terminated(y) } else { seq![] }, None => seq![] }
}
pub open spec fn desc_of(i: InfoV, idx: int) -> Option<B> { if 0 <= idx < i.descs.len() { Some(i.descs[idx]) } else { None } }
pub open spec fn lookup<T>(names: Seq<(B, T)>, n: B) -> Option<T> {
    if exists|i: int| 0 <= i < names.len() && (#[trigger] names[i]).0 == n {
        Some(names[choose|i: int| 0 <= i < names.len() && (#[trigger] names[i]).0 == n].1)
    } else { None }
}
pub open spec fn distinct<T>(names: Seq<(B, T)>) -> bool {
    forall|i: int, j: int| 0 <= i < names.len() && 0 <= j < names.len() && (#[trigger] names[i]).0 == (#[trigger] names[j]).0 ==> i == j
}
pub proof fn lemma_lookup_in<T>(names: Seq<(B, T)>, n: B)
    ensures lookup(names, n) matches Some(x) ==> exists|i: int| 0 <= i < names.len() && (#[trigger] names[i]).1 == x
{}
pub proof fn lemma_lookup<T>(names: Seq<(B, T)>, i: int)
    requires distinct(names), 0 <= i < names.len()
    ensures lookup(names, names[i].0) == Some(names[i].1)
{
    let n = names[i].0;
    let j = choose|j: int| 0 <= j < names.len() && (#[trigger] names[j]).0 == n;
    assert(names[i].0 == n);
}
pub proof fn lemma_bytes_lt_irrefl(x: B)
    ensures !bytes_lt(x, x)
    decreases x.len()
{ if x.len() > 0 { lemma_bytes_lt_irrefl(x.skip(1)); } }

@item refl::RawSubcommandInfo
@raw
impl RawSubcommandInfo {
    pub open spec fn v(&self) -> Seq<(B, usize)> { Seq::new(self.map@.len(), |i: int| (self.map@[i].0.b(), self.map@[i].1)) }
    pub open spec fn ok(&self) -> bool { sorted(keys(self.map@)) }
    pub proof fn lemma_distinct(&self)
        requires self.ok()
        ensures distinct(self.v())
    {
        assert forall|i: int, j: int| 0 <= i < self.v().len() && 0 <= j < self.v().len() && (#[trigger] self.v()[i]).0 == (#[trigger] self.v()[j]).0 implies i == j by {
            let k = keys(self.map@);
            assert(k[i] == self.v()[i].0 && k[j] == self.v()[j].0);
            if i < j { assert(bytes_lt(k[i], k[j])); lemma_bytes_lt_irrefl(k[i]); }
            if j < i { assert(bytes_lt(k[j], k[i])); lemma_bytes_lt_irrefl(k[i]); }
        }
    }
}
@impl refl::RawSubcommandInfo
@fn refl::RawSubcommandInfo::new
    ensures r.names == names, r.map == map
@owner C06
@fn refl::RawSubcommandInfo::search
    requires self.ok()
    ensures match r {
        Some((n, i)) => n.b() == cmd.b() && lookup(self.v(), cmd.b()) == Some(i),
        None => lookup(self.v(), cmd.b()) is None,
    }
@owner C06 C05
@at start
        proof { self.lemma_distinct(); assert forall|i: int| 0 <= i < self.map@.len() implies lookup(self.v(), #[trigger] self.map@[i].0.b()) == Some(self.map@[i].1) by { lemma_lookup(self.v(), i); } }

@item refl::RawArgsInfo
@raw
impl RawArgsInfo {
    pub open spec fn v(&self) -> InfoV {
        InfoV {
            names: Seq::new(self.named_attrs@.len(), |i: int| (self.named_attrs@[i].0.b(), self.named_attrs@[i].1.0)),
            pos: self.positional_attrs@.map_values(|a: ArgAttrs| a.0),
            descs: terminated(self.descriptions.b()),
            subs: match self.subcmd_info { Some(s) => Some(s.v()), None => None },
        }
    }
    pub open spec fn ok(&self) -> bool {
        &&& sorted(keys(self.named_attrs@))
        &&& self.subcmd_info matches Some(s) ==> s.ok()
    }
    pub proof fn lemma_distinct(&self)
        requires self.ok()
        ensures distinct(self.v().names)
    {
        let v = self.v().names;
        assert forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && (#[trigger] v[i]).0 == (#[trigger] v[j]).0 implies i == j by {
            let k = keys(self.named_attrs@);
            assert(k[i] == v[i].0 && k[j] == v[j].0);
            if i < j { assert(bytes_lt(k[i], k[j])); lemma_bytes_lt_irrefl(k[i]); }
            if j < i { assert(bytes_lt(k[j], k[i])); lemma_bytes_lt_irrefl(k[i]); }
        }
    }
}
@impl refl::RawArgsInfo
@fn refl::RawArgsInfo::new
    ensures r.descriptions == descriptions, r.named_attrs == named_attrs, r.positional_attrs == positional_attrs, r.subcmd_info == subcmd_info
@owner C05 C06 C11
@attr #[verifier::loop_isolation(false)]
@if help
@inv 1
            invariant len == flattened@.len(), i <= len
            decreases len - i
@endif
@drop refl::RawArgsInfo::EMPTY_REF
@drop refl::RawSubcommandInfo::EMPTY
@fn refl::RawArgsInfo::positional_len
    ensures r == self.v().pos.len()
@owner C04
@fn refl::RawArgsInfo::get_named
    requires self.ok()
    ensures match r { Some(a) => lookup(self.v().names, name.b()) == Some(a.0), None => lookup(self.v().names, name.b()) is None }
@owner C05
@at start
        proof { self.lemma_distinct(); assert forall|i: int| 0 <= i < self.named_attrs@.len() implies lookup(self.v().names, #[trigger] self.named_attrs@[i].0.b()) == Some(self.named_attrs@[i].1.0) by { lemma_lookup(self.v().names, i); } }
@fn refl::RawArgsInfo::get_description
    ensures ostr(r) == desc_of(self.v(), idx as int)
@owner C11
@at start
        let ghost idx0 = idx;
@inv 1
            invariant
                idx <= idx0,
                forall|k: int| 0 <= k ==> desc_of(self.v(), (idx0 - idx) + k) == #[trigger] desc_at(desc.b(), k),
            decreases desc.b().len()
@at end
        proof { assert(desc_at(desc.b(), idx as int) is None); assert(desc_of(self.v(), (idx0 - idx) + idx as int) is None); }
@attr #[verifier::loop_isolation(false)]
@at start
        broadcast use lemma_desc_step;
        assert forall|k: int| 0 <= k implies desc_of(self.v(), k) == #[trigger] desc_at(self.descriptions.b(), k) by {}
@at loopstart 1
            broadcast use lemma_desc_step;
            assert(desc_of(self.v(), idx0 - idx) == desc_at(desc.b(), 0));

@raw
pub open spec fn desc_at(s: B, k: int) -> Option<B> { let t = terminated(s); if 0 <= k < t.len() { Some(t[k]) } else { None } }
/// The first description, and the others.
pub broadcast proof fn lemma_desc_step(s: B)
    ensures match #[trigger] cut1(s, 0) {
        Some((x, y)) => y.len() < s.len() && desc_at(s, 0) == Some(x) && forall|k: int| 0 <= k ==> #[trigger] desc_at(y, k) == desc_at(s, k + 1),
        None => forall|k: int| #[trigger] desc_at(s, k) is None,
    }
{
    lemma_find_at(s, seq![0]);
    if let Some((x, y)) = cut1(s, 0) {
        assert forall|k: int| 0 <= k implies #[trigger] desc_at(y, k) == desc_at(s, k + 1) by {
            assert(terminated(s) =~= seq![x] + terminated(y));
        }
    }
}
pub open spec fn cut1(s: B, x: u8) -> Option<(B, B)> { cut(s, seq![x]) }
@fn util::split_once
    requires b < 128
    ensures match r { Some((x, y)) => cut1(s.b(), b) == Some((x.b(), y.b())), None => cut1(s.b(), b) is None }
@owner C10 C11
@at start
        proof { lemma_ascii1(b); }


// ======== Values ========
@raw
/// A parsed value of any type.
#[verifier::external_body]
pub struct Val(u8);
pub uninterp spec fn val<T>(x: T) -> Val;
/// Why a text is not a value: the error of the value's type, and what is said about it.
pub ghost struct BadV { pub src: Option<int>, pub ctx: Seq<char> }
pub open spec fn bad_value(v: B, bad: BadV) -> ErrV { ErrV { input: Some(v), src: bad.src, ctx: bad.ctx, ..err0(ErrorKind::InvalidValue) } }
pub open spec fn erase<T>(r: core::result::Result<T, BadV>) -> core::result::Result<Val, BadV> {
    match r { Ok(x) => Ok(val(x)), Err(e) => Err(e) }
}
/// The values of a sequence.
pub open spec fn vals<T>(s: Seq<T>) -> Seq<Val> { s.map_values(|x: T| val(x)) }

pub broadcast proof fn lemma_vals_push<T>(s: Seq<T>, x: T)
    ensures #[trigger] vals(s.push(x)) == vals(s).push(val(x))
{ assert(vals(s.push(x)) =~= vals(s).push(val(x))); }

@drop values::ValueParser::supertraits
@trait values::ValueParser
    spec fn parses(v: B) -> core::result::Result<Self::Output, BadV>;
@fn values::ValueParser::parse
    ensures match r {
        Ok(x) => Self::parses(v.b()) == core::result::Result::<Self::Output, BadV>::Ok(x),
        Err(e) => Self::parses(v.b()) matches Err(bad) && e.v() == bad_value(v.b(), bad),
    }

@drop values::ValueEnum::POSSIBLE_INPUTS_NUL
@drop values::ValueEnum::NO_UPPER_CASE
@trait values::ValueEnum
    /// The value with a name.
    spec fn of(v: B) -> Option<Self>;
@fn values::ValueEnum::parse_value
    ensures r == Self::of(s.b())
@fn values::ValueEnum::display_value
    ensures Self::of(r.b()) == Some(*self)

// ======== Places ========
@raw
pub ghost enum PKind { Flag, Set, OptSet, Many, Delim(char) }
/// What a place has been given.
#[verifier::ext_equal]
pub ghost struct PlaceSt {
    pub kind: PKind,
    pub parse: spec_fn(B) -> core::result::Result<Val, BadV>,
    /// `None`: nothing.  An optional-value option given without a value has no values.
    pub vals: Option<Seq<Val>>,
}
pub open spec fn parse_fn<P: ValueParser>() -> spec_fn(B) -> core::result::Result<Val, BadV> { |v: B| erase(P::parses(v)) }
pub open spec fn word(v: Option<B>) -> B { match v { Some(x) => x, None => seq![] } }
pub open spec fn push1(st: PlaceSt, v: B) -> core::result::Result<PlaceSt, ErrV> {
    match (st.parse)(v) {
        Ok(x) => Ok(PlaceSt { vals: Some((match st.vals { Some(s) => s, None => seq![] }).push(x)), ..st }),
        Err(bad) => Err(bad_value(v, bad)),
    }
}
pub open spec fn push_all(st: PlaceSt, vs: Seq<B>) -> core::result::Result<PlaceSt, ErrV>
    decreases vs.len()
{
    if vs.len() == 0 { Ok(st) } else { match push1(st, vs[0]) { Ok(st2) => push_all(st2, vs.skip(1)), Err(e) => Err(e) } }
}
/// One occurrence, with or without a value.
pub open spec fn step(st: PlaceSt, v: Option<B>) -> core::result::Result<PlaceSt, ErrV> {
    match st.kind {
        PKind::Flag =>
            if v is Some { Err(ErrV { input: v, ..err0(ErrorKind::UnexpectedInlineValue) }) }
            else if st.vals is Some { Err(err0(ErrorKind::DuplicatedNamedArgument)) }
            else { Ok(PlaceSt { vals: Some(seq![val(true)]), ..st }) },
        PKind::Set =>
            if st.vals is Some { Err(err0(ErrorKind::DuplicatedNamedArgument)) } else { push1(st, word(v)) },
        PKind::OptSet =>
            if st.vals is Some { Err(err0(ErrorKind::DuplicatedNamedArgument)) }
            else if v is None { Ok(PlaceSt { vals: Some(seq![]), ..st }) }
            else { push1(st, word(v)) },
        PKind::Many => push1(st, word(v)),
        PKind::Delim(c) => push_all(st, pieces(word(v), encode_scalar(c as u32))),
    }
}
pub broadcast proof fn lemma_pieces_nonempty(s: B, p: B)
    ensures #[trigger] pieces(s, p).len() > 0
{}
/// A list not given and an empty one take more values alike.
pub broadcast proof fn lemma_none_or_empty(st: PlaceSt, vs: Seq<B>)
    requires st.vals is None, vs.len() > 0
    ensures #[trigger] push_all(st, vs) == push_all(PlaceSt { vals: Some(Seq::<Val>::empty()), ..st }, vs)
{ }
pub broadcast proof fn lemma_vals_empty<T>(s: Seq<T>)
    requires s.len() == 0
    ensures #[trigger] vals(s) == Seq::<Val>::empty()
{ assert(vals(s) =~= Seq::<Val>::empty()); }

@trait runtime::Parsable
    spec fn st(&self) -> PlaceSt;
---
    /// The values a default stands for.
    spec fn default_vals(o: Self::Output) -> Seq<Val>;
@fn runtime::Parsable::parse_from
    ensures match step(old(self).st(), obr(value)) {
        Ok(st) => r is Ok && final(self).st() =~~= st,
        Err(e) => r matches Err(x) && x.v() =~~= e,
    }
@fn runtime::Parsable::is_set
    ensures r == (self.st().vals is Some)
@fn runtime::Parsable::set_default
    requires old(self).st().vals is None, f.requires(())
    ensures exists|o: Self::Output| #[trigger] f.ensures((), o) && final(self).st() =~~= (PlaceSt { vals: Some(Self::default_vals(o)), ..old(self).st() })
@fn runtime::Parsable::set_default_parse
    requires old(self).st().vals is None, step(old(self).st(), Some(default.b())) is Ok
    ensures step(old(self).st(), Some(default.b())) == core::result::Result::<PlaceSt, ErrV>::Ok(final(self).st())
@owner C09

@item runtime::FlagPlace
@item runtime::SetValuePlace
@item runtime::SetOptionalValuePlace
@item runtime::VecPlace
@item runtime::VecDelimitedPlace
@impl runtime::<FlagPlace as Parsable>
    open spec fn st(&self) -> PlaceSt {
        PlaceSt { kind: PKind::Flag, parse: |v: B| Err(BadV { src: None, ctx: seq![] }), vals: match self.0 { Some(x) => Some(seq![val(x)]), None => None } }
    }
---
    open spec fn default_vals(o: Self::Output) -> Seq<Val> { seq![val(o)] }
@fn runtime::<FlagPlace as Parsable>::parse_from
@owner C02 C03 C07
@fn runtime::<FlagPlace as Parsable>::set_default
@owner C09
@fn runtime::<FlagPlace as Parsable>::is_set
@owner C08 C09
@impl runtime::<SetValuePlace as Parsable>
    open spec fn st(&self) -> PlaceSt {
        PlaceSt { kind: PKind::Set, parse: parse_fn::<P>(), vals: match self.0 { Some(x) => Some(seq![val(x)]), None => None } }
    }
---
    open spec fn default_vals(o: Self::Output) -> Seq<Val> { seq![val(o)] }
@fn runtime::<SetValuePlace as Parsable>::parse_from
@owner C02 C07
@fn runtime::<SetValuePlace as Parsable>::set_default
@owner C09
@fn runtime::<SetValuePlace as Parsable>::is_set
@owner C08 C09
@impl runtime::<SetOptionalValuePlace as Parsable>
    open spec fn st(&self) -> PlaceSt {
        PlaceSt { kind: PKind::OptSet, parse: parse_fn::<P>(), vals: match self.0 { Some(Some(x)) => Some(seq![val(x)]), Some(None) => Some(seq![]), None => None } }
    }
---
    open spec fn default_vals(o: Self::Output) -> Seq<Val> { match o { Some(x) => seq![val(x)], None => seq![] } }
@fn runtime::<SetOptionalValuePlace as Parsable>::parse_from
@owner C02 C07
@fn runtime::<SetOptionalValuePlace as Parsable>::set_default
@owner C09
@fn runtime::<SetOptionalValuePlace as Parsable>::is_set
@owner C08 C09
@impl runtime::<VecPlace as Parsable>
    open spec fn st(&self) -> PlaceSt {
        PlaceSt { kind: PKind::Many, parse: parse_fn::<P>(), vals: match self.0 { Some(x) => Some(vals(x@)), None => None } }
    }
---
    open spec fn default_vals(o: Self::Output) -> Seq<Val> { vals(o@) }
@fn runtime::<VecPlace as Parsable>::parse_from
@owner C04 C07
@fn runtime::<VecPlace as Parsable>::set_default
@owner C09
@fn runtime::<VecPlace as Parsable>::is_set
@owner C08 C09
@impl runtime::<VecDelimitedPlace as Parsable>
    open spec fn st(&self) -> PlaceSt {
        PlaceSt { kind: PKind::Delim(self.1), parse: parse_fn::<P>(), vals: match self.0 { Some(x) => Some(vals(x@)), None => None } }
    }
---
    open spec fn default_vals(o: Self::Output) -> Seq<Val> { vals(o@) }
@fn runtime::<VecDelimitedPlace as Parsable>::parse_from
@owner C07
@attr #[verifier::loop_isolation(false)]
@inv 1
            invariant push_all(PlaceSt { vals: Some(vals(v@)), ..st0 }, __it1.rest()) == goal
            decreases __it1.rest().len()
@at start
        broadcast use lemma_vals_push, lemma_pieces_nonempty, lemma_none_or_empty, lemma_vals_empty;
        let ghost st0 = self.st();
        let ghost goal = step(st0, obr(value));
@fn runtime::<VecDelimitedPlace as Parsable>::set_default
@owner C09
@fn runtime::<VecDelimitedPlace as Parsable>::is_set
@owner C08 C09
@raw
pub proof fn lemma_push_all_kind(st: PlaceSt, vs: Seq<B>)
    ensures push_all(st, vs) matches Err(e) ==> e.kind == ErrorKind::InvalidValue
    decreases vs.len()
{ if vs.len() > 0 { if let Ok(st2) = push1(st, vs[0]) { lemma_push_all_kind(st2, vs.skip(1)); } } }
/// A place never asks for help.
pub broadcast proof fn lemma_step_kind(st: PlaceSt, v: Option<B>)
    ensures #[trigger] step(st, v) matches Err(e) ==> e.kind != ErrorKind::Help && e.help is None
{ if let PKind::Delim(c) = st.kind { lemma_push_all_kind(st, pieces(word(v), encode_scalar(c as u32))); } lemma_push_all_help(st, pieces(word(v), match st.kind { PKind::Delim(c) => encode_scalar(c as u32), _ => seq![] })); }
pub proof fn lemma_push_all_help(st: PlaceSt, vs: Seq<B>)
    ensures push_all(st, vs) matches Err(e) ==> e.help is None
    decreases vs.len()
{ if vs.len() > 0 { if let Ok(st2) = push1(st, vs[0]) { lemma_push_all_help(st2, vs.skip(1)); } } }

// ======== Frames ========
@raw
/// One level of the chain of entered argument groups: fields, or the name of an entered (sub)command.
#[verifier::ext_equal]
pub ghost struct Entry {
    pub cmd: bool,
    pub name: Seq<char>,
    pub info: InfoV,
    pub fields: Seq<PlaceSt>,
}
pub open spec fn no_info() -> InfoV { InfoV { names: seq![], pos: seq![], descs: seq![], subs: None } }
pub open spec fn cmd_entry(name: Seq<char>) -> Entry { Entry { cmd: true, name, info: no_info(), fields: seq![] } }
/// Innermost first; outside the innermost command only global options are seen.
pub open spec fn find(c: Seq<Entry>, n: B, global: bool) -> Option<(int, u32)>
    decreases c.len()
{
    if c.len() == 0 { None }
    else if c.last().cmd { find(c.drop_last(), n, true) }
    else { match lookup(c.last().info.names, n) {
        Some(a) => if !global || bit(a, ArgAttrs::GLOBAL.0) { Some((c.len() - 1, a)) } else { find(c.drop_last(), n, global) },
        None => find(c.drop_last(), n, global),
    } }
}
pub open spec fn upd(c: Seq<Entry>, k: int, i: int, s: PlaceSt) -> Seq<Entry> {
    c.update(k, Entry { fields: c[k].fields.update(i, s), ..c[k] })
}
/// What the derive promises about the tables: every name and position leads to a field, names are strings, and there are at most 255 positions.
pub open spec fn wf_entry(e: Entry) -> bool {
    &&& forall|i: int| 0 <= i < e.info.names.len() ==> idx_of((#[trigger] e.info.names[i]).1) < e.fields.len() && valid_utf8(e.info.names[i].0)
    &&& forall|i: int| 0 <= i < e.info.pos.len() ==> idx_of(#[trigger] e.info.pos[i]) < e.fields.len()
    &&& e.info.pos.len() <= 255
}
pub open spec fn wf(c: Seq<Entry>) -> bool { forall|k: int| 0 <= k < c.len() ==> wf_entry(#[trigger] c[k]) }
/// The path of command names.
pub open spec fn prefix(c: Seq<Entry>) -> Seq<char>
    decreases c.len()
{
    if c.len() == 0 { seq![] } else if c.last().cmd { prefix(c.drop_last()) + seq![' '] + c.last().name } else { prefix(c.drop_last()) }
}
pub proof fn lemma_find(c: Seq<Entry>, n: B, g: bool)
    ensures find(c, n, g) matches Some((k, a)) ==> 0 <= k < c.len() && !c[k].cmd && lookup(c[k].info.names, n) == Some(a)
        && (wf(c) ==> 0 <= idx_of(a) < c[k].fields.len() && valid_utf8(n))
    decreases c.len()
{
    if c.len() > 0 { lemma_find(c.drop_last(), n, true); lemma_find(c.drop_last(), n, g); lemma_wf_drop(c); }
}
pub proof fn lemma_wf_drop(c: Seq<Entry>)
    requires c.len() > 0
    ensures wf(c) ==> wf(c.drop_last())
{ if wf(c) { assert forall|k: int| 0 <= k < c.drop_last().len() implies wf_entry(#[trigger] c.drop_last()[k]) by { assert(c[k] == c.drop_last()[k]); } } }

pub proof fn lemma_wf_push(c: Seq<Entry>, e: Entry)
    requires wf(c), wf_entry(e)
    ensures wf(c.push(e))
{ assert forall|k: int| 0 <= k < c.len() + 1 implies wf_entry(#[trigger] c.push(e)[k]) by { if k < c.len() { assert(wf_entry(c[k])); } } }

/// The frames further out, when the inner ones are gone.
#[verifier::ext_equal]
pub ghost enum Fut { End, In(Seq<Entry>, Box<Fut>, Box<Fut>, Fin) }
/// The same for the places: what the references of a frame will leave behind.
#[verifier::ext_equal]
pub ghost struct Fin { pub ends: Seq<PlaceSt>, pub later: Seq<PlaceSt>, pub later_ends: Seq<PlaceSt> }
pub open spec fn no_fin() -> Fin { Fin { ends: seq![], later: seq![], later_ends: seq![] } }
@trait runtime::Frame
    spec fn chain(&self) -> Seq<Entry>;
    /// The tables are sorted.
    spec fn tables_ok(&self) -> bool;
    /// What the frames further out will be when this one is gone: no call swaps them for others.
    #[verifier::prophetic]
    spec fn fut(&self) -> Fut;
@fn runtime::Frame::search_named
    requires wf(old(self).chain()), old(self).tables_ok()
    ensures match find(old(self).chain(), enc_name.b(), global) {
        None => r is None && final(self).chain() =~~= old(self).chain(),
        Some((k, a)) => r matches Some(p) && p.2.0 == a && p.1.v() == old(self).chain()[k].info
            && p.0.st() == old(self).chain()[k].fields[idx_of(a)]
            && final(self).chain() =~~= upd(old(self).chain(), k, idx_of(a), final(p.0).st()),
    }, final(self).tables_ok(), final(self).fut() =~~= old(self).fut()
@if help
@fn runtime::Frame::collect_command_prefix
    ensures final(out)@ =~= old(out)@ + prefix(self.chain())
@endif

@raw
/// What parsing the `idx`-th subcommand below chain `c` with the words `rest` may give: the chain after it and the value, or an error.
pub type SubRes = core::result::Result<(Seq<Entry>, Val), ErrV>;
pub type SubRel = spec_fn(usize, Seq<Entry>, Seq<B>, SubRes) -> bool;
@trait runtime::SubcommandPlace
    spec fn sub(&self) -> SubRel;
    /// The value it holds.
    spec fn got(&self) -> Option<Val>;
    /// The number of subcommands.
    spec fn count(&self) -> int;
@fn runtime::SubcommandPlace::__parse
    requires wf(old(frame).chain()), old(frame).tables_ok(), old(self).got() is None, idx < old(self).count()
    ensures match r {
        Ok(()) => final(self).got() matches Some(v) && old(self).sub()(idx, old(frame).chain(), old(parser).rest(), Ok((final(frame).chain(), v))),
        Err(x) => old(self).sub()(idx, old(frame).chain(), old(parser).rest(), Err(x.v())),
    }, r is Ok ==> final(frame).fut() =~~= old(frame).fut() && final(parser).rest().len() == 0
@trait runtime::RunParser
    /// The words still to come.
    spec fn rest(&self) -> Seq<B>;
@item runtime::ArgsFrame
@item runtime::CommandFrame
@raw
pub open spec fn sts(f: Seq<&mut dyn Parsable>) -> Seq<PlaceSt> { f.map_values(|p: &mut dyn Parsable| p.st()) }
#[verifier::prophetic]
pub open spec fn ends(f: Seq<&mut dyn Parsable>) -> Seq<PlaceSt> { f.map_values(|p: &mut dyn Parsable| final(p).st()) }
impl<'a, 'b> ArgsFrame<'a, 'b> {
    pub open spec fn sub(&self) -> Option<SubRel> { match self.subcmd { Some(p) => Some(p.sub()), None => None } }
    /// What the subcommand place will hold in the end.
    #[verifier::prophetic]
    pub open spec fn got_end(&self) -> Option<Val> { match self.subcmd { Some(p) => final(p).got(), None => None } }
    /// The tables are sorted, and lead to subcommands of the place.
    pub open spec fn ok(&self) -> bool {
        &&& self.tables_ok()
        &&& self.subcmd matches Some(p) ==> p.got() is None && (self.info.v().subs matches Some(t) ==> forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).1 < p.count())
    }
    #[verifier::prophetic]
    pub open spec fn fin(&self) -> Fin { Fin { ends: ends(self.fields@), later: sts(final(self.fields)@), later_ends: ends(final(self.fields)@) } }
    pub open spec fn entry(&self) -> Entry { Entry { cmd: false, name: seq![], info: self.info.v(), fields: sts(self.fields@) } }
}
@impl runtime::<ArgsFrame as Frame>
    open spec fn chain(&self) -> Seq<Entry> { self.parent.chain().push(self.entry()) }
    open spec fn tables_ok(&self) -> bool { self.info.ok() && self.parent.tables_ok() }
    #[verifier::prophetic]
    open spec fn fut(&self) -> Fut { Fut::In(final(self.parent).chain(), Box::new(final(self.parent).fut()), Box::new(self.parent.fut()), self.fin()) }
@fn runtime::<ArgsFrame as Frame>::search_named
    ensures final(self).next_positional == old(self).next_positional
@owner C05
@at start
        proof {
            let c = self.chain();
            assert(c.drop_last() =~= self.parent.chain());
            lemma_wf_drop(c);
            lemma_find(c, enc_name.b(), global);
            lemma_find(c.drop_last(), enc_name.b(), global);
        }
@if help
@fn runtime::<ArgsFrame as Frame>::collect_command_prefix
@owner C13
@at start
        assert(self.chain().drop_last() =~= self.parent.chain());
@endif
@impl runtime::<CommandFrame as Frame>
    open spec fn chain(&self) -> Seq<Entry> { self.parent.chain().push(cmd_entry(cmd_name(self))) }
    open spec fn tables_ok(&self) -> bool { self.parent.tables_ok() }
    #[verifier::prophetic]
    open spec fn fut(&self) -> Fut { Fut::In(final(self.parent).chain(), Box::new(final(self.parent).fut()), Box::new(self.parent.fut()), no_fin()) }
@fn runtime::<CommandFrame as Frame>::search_named
@owner C05
@at start
        proof {
            let c = self.chain();
            assert(c.drop_last() =~= self.parent.chain());
            lemma_wf_drop(c);
            lemma_find(c, enc_name.b(), _global);
            lemma_find(c.drop_last(), enc_name.b(), true);
        }
@if help
@fn runtime::<CommandFrame as Frame>::collect_command_prefix
@owner C13
@at start
        assert(self.chain().drop_last() =~= self.parent.chain());
@endif
@impl runtime::<() as Frame>
    open spec fn chain(&self) -> Seq<Entry> { seq![] }
    open spec fn tables_ok(&self) -> bool { true }
    #[verifier::prophetic]
    open spec fn fut(&self) -> Fut { Fut::End }
@fn runtime::<() as Frame>::search_named
@owner C05
@if help
@fn runtime::<() as Frame>::collect_command_prefix
@owner C13
@endif
@raw
@if help
pub open spec fn cmd_name(f: &CommandFrame) -> Seq<char> { f.name@ }
@endif
@if !help
pub open spec fn cmd_name(f: &CommandFrame) -> Seq<char> { seq![] }
@endif

// ======== One word ========
@raw
/// How a value is attached to an option.
pub ghost enum Inl { None, Eq(B), Amb(B) }
pub open spec fn takes_value(a: u32) -> bool { bit(a, ArgAttrs::REQUIRE_VALUE.0) }
/// May `w` be the detached value of an option with attributes `a`?
pub open spec fn detached_ok(a: u32, w: B) -> bool {
    ||| w.len() == 0 || w[0] != 45u8
    ||| w.len() == 1
    ||| bit(a, ArgAttrs::ACCEPT_HYPHEN_ANY.0)
    ||| bit(a, ArgAttrs::ACCEPT_HYPHEN_NUM.0) && forall|i: int| 0 <= i < w.len() - 1 ==> is_digit(#[trigger] w.skip(1)[i])
}
/// The value an occurrence gets, and the words left.
pub open spec fn value_spec(a: u32, i: Inl, rest: Seq<B>) -> core::result::Result<(Option<B>, Seq<B>), ErrV> {
    match i {
        Inl::Eq(v) => Ok((Some(v), rest)),
        Inl::None =>
            if !takes_value(a) { Ok((None, rest)) }
            else if bit(a, ArgAttrs::REQUIRE_EQ.0) { Err(err0(ErrorKind::MissingEq)) }
            else if rest.len() > 0 && detached_ok(a, rest[0]) { Ok((Some(rest[0]), rest.skip(1))) }
            else { Err(err0(ErrorKind::MissingValue)) },
        Inl::Amb(t) =>
            if bit(a, ArgAttrs::REQUIRE_EQ.0) { Err(err0(ErrorKind::MissingEq)) }
            else if takes_value(a) { Ok((Some(t), rest)) }
            else { Ok((None, rest)) },
    }
}
pub open spec fn cased(a: u32, v: Option<B>) -> Option<B> {
    match v { Some(x) => Some(if bit(a, ArgAttrs::MAKE_LOWERCASE.0) { lower(x) } else { x }), None => None }
}
pub open spec fn dash(is_short: bool, n: B) -> B { if is_short { seq![45u8] + n } else { n } }
pub open spec fn unknown_named(is_short: bool, n: B) -> ErrV { ErrV { input: Some(dash(is_short, n)), ..err0(ErrorKind::UnknownNamedArgument) } }
pub open spec fn is_help_name(n: B) -> bool { help_on() && (n == seq![104u8] || n == seq![45u8, 45u8, 104u8, 101u8, 108u8, 112u8]) }
@if help
pub open spec fn help_on() -> bool { true }
@endif
@if !help
pub open spec fn help_on() -> bool { false }
@endif
/// The help text of a command entered by `path`.
pub uninterp spec fn help_text(info: InfoV, path: Seq<char>) -> Seq<char>;
pub open spec fn help_of(c: Seq<Entry>) -> ErrV { ErrV { help: Some(help_text(c.last().info, prefix(c))), ..err0(ErrorKind::Help) } }
/// One option occurrence: the chain after it, the words left, and whether the word is used up.
pub open spec fn named_spec(c: Seq<Entry>, is_short: bool, n: B, i: Inl, rest: Seq<B>) -> core::result::Result<(Seq<Entry>, Seq<B>, bool), ErrV> {
    match find(c, n, false) {
        None => Err(if is_help_name(n) { help_of(c) } else { unknown_named(is_short, n) }),
        Some((k, a)) => {
            let blame = desc_of(c[k].info, idx_of(a));
            match value_spec(a, i, rest) {
                Err(e) => Err(ErrV { arg: blame, ..e }),
                Ok((v, rest2)) => match step(c[k].fields[idx_of(a)], cased(a, v)) {
                    Err(e) => Err(ErrV { arg: blame, ..e }),
                    Ok(st) => Ok((upd(c, k, idx_of(a), st), rest2, takes_value(a) || i is Eq)),
                },
            }
        }
    }
}
pub open spec fn inl(i: RawInlineValue) -> Inl { match i { RawInlineValue::None => Inl::None, RawInlineValue::Eq(x) => Inl::Eq(x.b()), RawInlineValue::Ambiguous(x) => Inl::Amb(x.b()) } }
pub proof fn lemma_upd_wf(c: Seq<Entry>, k: int, i: int, s: PlaceSt)
    requires wf(c), 0 <= k < c.len(), 0 <= i < c[k].fields.len()
    ensures wf(upd(c, k, i, s)), upd(c, k, i, s).len() == c.len(), upd(c, k, i, s).last().info == c.last().info
{
    let d = upd(c, k, i, s);
    assert forall|j: int| 0 <= j < d.len() implies wf_entry(#[trigger] d[j]) by { assert(wf_entry(c[j])); }
}
/// Parsing does not touch the tables.
pub proof fn lemma_named(c: Seq<Entry>, is_short: bool, n: B, i: Inl, rest: Seq<B>)
    requires wf(c)
    ensures named_spec(c, is_short, n, i, rest) matches Ok((c2, r2, _)) ==> wf(c2) && c2.len() == c.len() && c2.len() > 0 && c2.last().info == c.last().info && r2.len() <= rest.len()
{
    lemma_find(c, n, false);
    if let Some((k, a)) = find(c, n, false) {
        if let Ok((v, _)) = value_spec(a, i, rest) {
            if let Ok(st) = step(c[k].fields[idx_of(a)], cased(a, v)) { lemma_upd_wf(c, k, idx_of(a), st); }
        }
    }
}

@item runtime::RawParser
@item runtime::RawInlineValue
@fn error::Error::maybe_render_help
@if help
    ensures r.v() =~= (if self.v().kind == ErrorKind::Help { ErrV { help: Some(help_text(frame.entry().info, prefix(frame.chain()))), ..self.v() } } else { self.v() })
@endif
@if !help
    ensures r.v() =~= self.v()
@endif
@owner C13
@raw
impl RunParser for RawParser<'_> {
    open spec fn rest(&self) -> Seq<B> { self.iter.rest() }
}
@if help
@fn help::render_help_into
    ensures final(out)@ =~= old(out)@ + help_text(frame.entry().info, prefix(frame.chain()))
@trusted
@owner C13 C16
@endif
@fn runtime::visit_named
    requires wf(old(frame).chain()), old(frame).tables_ok()
    ensures match named_spec(old(frame).chain(), is_short, enc_name.b(), inl(inline_value), old(p).rest()) {
        Err(e) => r matches Err(x) && x.v() =~~= e,
        Ok((c, rest, brk)) => {
            &&& r matches Ok(b) && (b is Break) == brk
            &&& final(frame).chain() =~~= c
            &&& final(p).rest() == rest
            &&& final(frame).tables_ok() && final(frame).next_positional == old(frame).next_positional
        }
    }, r is Ok ==> final(frame).fut() =~~= old(frame).fut()
@owner C02 C03 C05 C07 C10 C11 C13
@attr #[verifier::loop_isolation(false)]
@inv 1
                            invariant __i1 <= __sl1@.len(), __sl1@ == raw@.skip(1), __ok1 == forall|k: int| 0 <= k < __i1 ==> is_digit(#[trigger] __sl1@[k])
                            decreases __sl1@.len() - __i1
@at start
        broadcast use lemma_step_kind;
        proof { lemma_find(frame.chain(), enc_name.b(), false); }
@raw
/// Where parsing a command stands: the chain, the words to come, the next position.
#[verifier::ext_equal]
pub ghost struct Cur { pub c: Seq<Entry>, pub rest: Seq<B>, pub next: int }
pub open spec fn cur(frame: ArgsFrame, rest: Seq<B>) -> Cur { Cur { c: frame.chain(), rest, next: frame.next_positional as int } }
/// A value for each word.
pub open spec fn steps(st: PlaceSt, ws: Seq<B>) -> core::result::Result<PlaceSt, ErrV>
    decreases ws.len()
{
    if ws.len() == 0 { Ok(st) } else { match step(st, Some(ws[0])) { Ok(st2) => steps(st2, ws.skip(1)), Err(e) => Err(e) } }
}
/// One word of positional data.  `dashed`: after `--`.
pub open spec fn positional_spec(s: Cur, dashed: bool, w: B) -> core::result::Result<Cur, ErrV> {
    let info = s.c.last().info;
    if 0 <= s.next < info.pos.len() && (dashed || !bit(info.pos[s.next], ArgAttrs::LAST.0)) {
        let a = info.pos[s.next];
        let i = idx_of(a);
        let next = if bit(a, ArgAttrs::VAR_ARG.0) { s.next } else { s.next + 1 };
        let greedy = bit(a, ArgAttrs::GREEDY.0);
        match steps(s.c.last().fields[i], if greedy { seq![w] + s.rest } else { seq![w] }) {
            Err(e) => Err(ErrV { arg: desc_of(info, i), ..e }),
            Ok(st) => Ok(Cur { c: upd(s.c, s.c.len() - 1, i, st), rest: if greedy { seq![] } else { s.rest }, next }),
        }
    } else {
        Err(ErrV { input: Some(w), ..err0(if info.subs is Some { ErrorKind::UnknownSubcommand } else { ErrorKind::ExtraPositionalArgument }) })
    }
}
pub broadcast proof fn lemma_steps1(st: PlaceSt, w: B, rest: Seq<B>)
    ensures
        #[trigger] steps(st, seq![w] + rest) == (match step(st, Some(w)) { Ok(st2) => steps(st2, rest), Err(e) => Err(e) }),
{ assert((seq![w] + rest).skip(1) =~= rest); }
pub broadcast proof fn lemma_steps0(st: PlaceSt, w: B)
    ensures #[trigger] steps(st, seq![w]) == step(st, Some(w))
{ assert(seq![w].skip(1) =~= seq![]); reveal_with_fuel(steps, 2); }
pub proof fn lemma_positional(s: Cur, dashed: bool, w: B)
    requires wf(s.c), s.c.len() > 0
    ensures positional_spec(s, dashed, w) matches Ok(t) ==> wf(t.c) && t.c.len() == s.c.len() && t.c.last().info == s.c.last().info && t.rest.len() <= s.rest.len()
{
    let info = s.c.last().info;
    assert(wf_entry(s.c[s.c.len() - 1]));
    if 0 <= s.next < info.pos.len() {
        let i = idx_of(info.pos[s.next]);
        let greedy = bit(info.pos[s.next], ArgAttrs::GREEDY.0);
        if let Ok(st) = steps(s.c.last().fields[i], if greedy { seq![w] + s.rest } else { seq![w] }) { lemma_upd_wf(s.c, s.c.len() - 1, i, st); }
    }
}
@fn runtime::visit_positional
    requires wf(old(frame).chain()), old(frame).tables_ok()
    ensures match positional_spec(cur(*old(frame), old(p).rest()), is_last, arg.b()) {
        Err(e) => r matches Err(x) && x.v() =~~= e,
        Ok(s) => r is Ok && cur(*final(frame), final(p).rest()) =~~= s && final(frame).tables_ok(),
    }, r is Ok ==> final(frame).fut() =~~= old(frame).fut()
@owner C01 C04 C06 C11
@attr #[verifier::loop_isolation(false)]
@at start
        broadcast use lemma_steps1, lemma_steps0;
        assert(wf_entry(frame.chain().last()));
        let ghost fields0 = frame.chain().last().fields;
        let ghost words = seq![arg.b()] + p.rest();
@inv 1
            invariant steps(place.st(), p.iter.rest()) == steps(fields0[idx_of(attrs.0)], words)
            decreases p.iter.rest().len()

// ======== Commands ========
@raw
/// The first scalar of a UTF-8 text.
pub proof fn lemma_first_scalar(ch: char, cs: Seq<char>, tail: B)
    ensures ({
        let b = encode_utf8(seq![ch] + cs) + tail;
        let n = encode_scalar(ch as u32).len() as int;
        &&& valid_first_scalar(b) && length_of_first_scalar(b) == n && n > 0 && n <= b.len()
        &&& b.take(n) == encode_scalar(ch as u32) && b.skip(n) == encode_utf8(cs) + tail
    })
{
    broadcast use group_utf8_lib;
    let s = seq![ch] + cs;
    assert(s.drop_first() =~= cs);
    encode_utf8_first_scalar(s);
    assert(encode_utf8(s) =~= encode_scalar(ch as u32) + encode_utf8(cs));
    let b = encode_utf8(s) + tail;
    let n = encode_scalar(ch as u32).len() as int;
    assert(b.take(n) =~= encode_scalar(ch as u32));
    assert(b.skip(n) =~= encode_utf8(cs) + tail);
}
pub proof fn lemma_utf8_push(x: B, ch: char)
    requires valid_utf8(x)
    ensures valid_utf8(x + encode_scalar(ch as u32)), encode_utf8(seq![ch]) == encode_scalar(ch as u32)
{
    broadcast use group_utf8_lib;
    let s = seq![ch];
    assert(s.drop_first() =~= seq![]);
    encode_utf8_first_scalar(s);
    reveal_with_fuel(encode_utf8, 2);
    assert(encode_utf8(s) =~= encode_scalar(ch as u32));
    encode_utf8_valid_utf8(s);
    valid_utf8_concat(x, encode_utf8(s));
}
/// Text that does not start with a character names nothing.
pub proof fn lemma_no_name(c: Seq<Entry>, n: B)
    requires wf(c), n.len() > 0, !valid_first_scalar(n)
    ensures find(c, n, false) is None, !is_help_name(n)
{
    lemma_find(c, n, false);
}

pub open spec fn hy() -> B { seq![45u8] }
pub open spec fn hyhy() -> B { seq![45u8, 45u8] }
pub open spec fn eqs() -> B { seq![61u8] }
pub proof fn lemma_lits()
    ensures "-".b() == hy(), "--".b() == hyhy(), "=".b() == eqs(), hy().len() == 1, hyhy().len() == 2, eqs().len() == 1
{
    reveal_strlit("-"); is_ascii_chars_encode_utf8("-"@); assert("-"@ =~= seq!['-']); assert("-".b() =~= hy());
    reveal_strlit("--"); is_ascii_chars_encode_utf8("--"@); assert("--"@ =~= seq!['-', '-']); assert("--".b() =~= hyhy());
    reveal_strlit("="); is_ascii_chars_encode_utf8("="@); assert("="@ =~= seq!['=']); assert("=".b() =~= eqs());
}
/// The text after a short option: nothing, `=value`, or more.
pub open spec fn eq_or_rest(after: B) -> Inl {
    if starts(after, eqs()) { Inl::Eq(after.skip(1)) } else if after.len() == 0 { Inl::None } else { Inl::Amb(after) }
}
/// A bundle of short options.
pub open spec fn bundle_spec(c: Seq<Entry>, b: B, rest: Seq<B>) -> core::result::Result<(Seq<Entry>, Seq<B>), ErrV>
    decreases b.len()
{
    let n = length_of_first_scalar(b);
    if b.len() == 0 { Ok((c, rest)) }
    else if !valid_first_scalar(b) || n <= 0 || n > b.len() { Err(unknown_named(true, b)) }
    else { match named_spec(c, true, b.take(n as int), eq_or_rest(b.skip(n as int)), rest) {
        Err(e) => Err(e),
        Ok((c2, rest2, used)) => if used { Ok((c2, rest2)) } else { bundle_spec(c2, b.skip(n as int), rest2) },
    } }
}
pub proof fn lemma_bundle(c: Seq<Entry>, b: B, rest: Seq<B>)
    requires wf(c), c.len() > 0
    ensures bundle_spec(c, b, rest) matches Ok((c2, rest2)) ==> wf(c2) && c2.len() == c.len() && c2.last().info == c.last().info && rest2.len() <= rest.len()
    decreases b.len()
{
    let n = length_of_first_scalar(b);
    if b.len() > 0 && valid_first_scalar(b) && 0 < n <= b.len() {
        lemma_named(c, true, b.take(n as int), eq_or_rest(b.skip(n as int)), rest);
        if let Ok((c2, rest2, used)) = named_spec(c, true, b.take(n as int), eq_or_rest(b.skip(n as int)), rest) {
            lemma_bundle(c2, b.skip(n as int), rest2);
        }
    }
}
/// The words after `--`.
pub open spec fn after_spec(s: Cur) -> core::result::Result<Cur, ErrV>
    decreases s.rest.len()
{
    if s.rest.len() == 0 { Ok(s) }
    else { match positional_spec(Cur { rest: s.rest.skip(1), ..s }, true, s.rest[0]) {
        Err(e) => Err(e),
        Ok(t) => if t.rest.len() < s.rest.len() { after_spec(t) } else { Ok(t) },
    } }
}
pub proof fn lemma_after(s: Cur)
    requires wf(s.c), s.c.len() > 0
    ensures after_spec(s) matches Ok(t) ==> wf(t.c) && t.c.len() == s.c.len() && t.c.last().info == s.c.last().info && t.rest.len() == 0
    decreases s.rest.len()
{
    if s.rest.len() > 0 {
        let s1 = Cur { rest: s.rest.skip(1), ..s };
        lemma_positional(s1, true, s.rest[0]);
        if let Ok(t) = positional_spec(s1, true, s.rest[0]) { lemma_after(t); }
    }
}
/// The position of the argument declared `last`, if there is one.
pub open spec fn last_pos(i: InfoV, next: int) -> int {
    if i.pos.len() > 0 && bit(i.pos.last(), ArgAttrs::LAST.0) { i.pos.len() - 1 } else { next }
}
/// What the words of a command lead to.
pub ghost enum Out { Done(Cur), Fail(ErrV), Sub { name: B, idx: usize, s: Cur } }
/// The subcommand gives `v`, and leaves `c` behind.
pub open spec fn sub_ok(sub: Option<SubRel>, idx: usize, e: Seq<Entry>, rest: Seq<B>, c: Seq<Entry>, v: Option<Val>) -> bool {
    exists|d: Seq<Entry>| #[trigger] (sub->0)(idx, e, rest, Ok((d, v->0))) && c == d.drop_last() && v is Some
}
pub proof fn lemma_sub_ok(sub: Option<SubRel>, idx: usize, e: Seq<Entry>, rest: Seq<B>, d: Seq<Entry>, v: Option<Val>)
    requires (sub->0)(idx, e, rest, Ok((d, v->0))), v is Some
    ensures sub_ok(sub, idx, e, rest, d.drop_last(), v)
{}
/// What parsing the words of a command may give.
pub open spec fn run_rel(s: Cur, sub: Option<SubRel>, r: core::result::Result<(Seq<Entry>, Option<Val>), ErrV>) -> bool {
    match run_spec(s, sub is Some) {
        Out::Done(t) => r == core::result::Result::<(Seq<Entry>, Option<Val>), ErrV>::Ok((t.c, None)),
        Out::Fail(e) => r == core::result::Result::<(Seq<Entry>, Option<Val>), ErrV>::Err(e),
        Out::Sub { name, idx, s: t } => match r {
            Ok((c, v)) => sub_ok(sub, idx, enter(t, name), t.rest, c, v),
            Err(e) => (sub->0)(idx, enter(t, name), t.rest, Err(e)),
        },
    }
}
/// One word that is not `--`, with the words after it.
pub open spec fn word_spec(s: Cur, sub: bool, w: B) -> Out {
    if starts(w, hyhy()) {
        match (match cut(w, eqs()) {
            Some((n, v)) => named_spec(s.c, false, n, Inl::Eq(v), s.rest),
            None => named_spec(s.c, false, w, Inl::None, s.rest),
        }) { Ok((c, rest, _)) => Out::Done(Cur { c, rest, ..s }), Err(e) => Out::Fail(e) }
    } else if starts(w, hy()) && w.skip(1).len() > 0 {
        match bundle_spec(s.c, w.skip(1), s.rest) { Ok((c, rest)) => Out::Done(Cur { c, rest, ..s }), Err(e) => Out::Fail(e) }
    } else {
        match sub_of(s.c.last().info, sub, w) {
            Some(idx) => Out::Sub { name: w, idx, s },
            None => match positional_spec(s, false, w) { Ok(t) => Out::Done(t), Err(e) => Out::Fail(e) },
        }
    }
}
pub open spec fn sub_of(i: InfoV, sub: bool, w: B) -> Option<usize> {
    if sub { match i.subs { Some(names) => lookup(names, w), None => None } } else { None }
}
/// The words of a command, up to a subcommand.
pub open spec fn run_spec(s: Cur, sub: bool) -> Out
    decreases s.rest.len()
{
    if s.rest.len() == 0 { Out::Done(s) }
    else {
        let w = s.rest[0];
        let t = Cur { rest: s.rest.skip(1), ..s };
        if w == hyhy() {
            match after_spec(Cur { next: last_pos(s.c.last().info, s.next), ..t }) { Ok(u) => Out::Done(u), Err(e) => Out::Fail(e) }
        } else {
            match word_spec(t, sub, w) {
                Out::Done(u) => if u.rest.len() < s.rest.len() { run_spec(u, sub) } else { Out::Done(u) },
                o => o,
            }
        }
    }
}
pub proof fn lemma_word(s: Cur, sub: bool, w: B)
    requires wf(s.c), s.c.len() > 0
    ensures match word_spec(s, sub, w) {
        Out::Done(t) => wf(t.c) && t.c.len() == s.c.len() && t.c.last().info == s.c.last().info && t.rest.len() <= s.rest.len(),
        Out::Sub { s: t, .. } => t == s,
        _ => true,
    }
{
    lemma_positional(s, false, w);
    lemma_bundle(s.c, w.skip(1), s.rest);
    if let Some((n, v)) = cut(w, eqs()) { lemma_named(s.c, false, n, Inl::Eq(v), s.rest); }
    lemma_named(s.c, false, w, Inl::None, s.rest);
}
/// Parsing uses every word, and does not touch the tables.
pub proof fn lemma_run(s: Cur, sub: bool)
    requires wf(s.c), s.c.len() > 0
    ensures match run_spec(s, sub) {
        Out::Done(t) => wf(t.c) && t.c.len() == s.c.len() && t.c.last().info == s.c.last().info && t.rest.len() == 0,
        Out::Sub { s: t, .. } => wf(t.c) && t.c.len() == s.c.len() && t.c.last().info == s.c.last().info,
        _ => true,
    }
    decreases s.rest.len()
{
    if s.rest.len() > 0 {
        let w = s.rest[0];
        let t = Cur { rest: s.rest.skip(1), ..s };
        lemma_after(Cur { next: last_pos(s.c.last().info, s.next), ..t });
        lemma_word(t, sub, w);
        if w != hyhy() { if let Out::Done(u) = word_spec(t, sub, w) { lemma_run(u, sub); } }
    }
}
pub open spec fn cons<T>(x: T, s: Seq<T>) -> Seq<T> { seq![x] + s }
pub broadcast proof fn lemma_head_tail<T>(s: Seq<T>)
    requires s.len() > 0
    ensures cons(s[0], #[trigger] s.skip(1)) == s
{ assert(seq![s[0]] + s.skip(1) =~= s); }
pub broadcast proof fn lemma_run_nil(s: Cur, sub: bool)
    requires s.rest.len() == 0
    ensures #[trigger] run_spec(s, sub) == Out::Done(s)
{}
pub broadcast proof fn lemma_after_nil(s: Cur)
    requires s.rest.len() == 0
    ensures #[trigger] after_spec(s) == core::result::Result::<Cur, ErrV>::Ok(s)
{}
pub broadcast proof fn lemma_bundle_nil(c: Seq<Entry>, b: B, rest: Seq<B>)
    requires b.len() == 0
    ensures #[trigger] bundle_spec(c, b, rest) == core::result::Result::<(Seq<Entry>, Seq<B>), ErrV>::Ok((c, rest))
{}
/// One word of a command.
pub proof fn lemma_run_step(t: Cur, sub: bool, w: B)
    requires wf(t.c), t.c.len() > 0
    ensures
        run_spec(Cur { rest: cons(w, t.rest), ..t }, sub) == (
            if w == hyhy() { match after_spec(Cur { next: last_pos(t.c.last().info, t.next), ..t }) { Ok(u) => Out::Done(u), Err(e) => Out::Fail(e) } }
            else { match word_spec(t, sub, w) { Out::Done(u) => run_spec(u, sub), o => o } }),
        word_spec(t, sub, w) matches Out::Done(u) ==> wf(u.c) && u.c.len() == t.c.len() && u.c.last().info == t.c.last().info && u.rest.len() <= t.rest.len(),
        t.c.last().info.pos.len() <= 255,
        wf(t.c.push(cmd_entry(shown(w)))),
{
    let s = Cur { rest: cons(w, t.rest), ..t };
    assert(s.rest.skip(1) =~= t.rest);
    lemma_word(t, sub, w);
    assert(wf_entry(t.c[t.c.len() - 1]));
    let d = t.c.push(cmd_entry(shown(w)));
    assert forall|k: int| 0 <= k < d.len() implies wf_entry(#[trigger] d[k]) by { if k < t.c.len() { assert(wf_entry(t.c[k])); } }
}
/// One word after `--`.
pub proof fn lemma_after_step(t: Cur, w: B)
    requires wf(t.c), t.c.len() > 0
    ensures
        after_spec(Cur { rest: cons(w, t.rest), ..t }) == (match positional_spec(t, true, w) { Ok(u) => after_spec(u), Err(e) => Err(e) }),
        positional_spec(t, true, w) matches Ok(u) ==> wf(u.c) && u.rest.len() <= t.rest.len(),
{
    let s = Cur { rest: cons(w, t.rest), ..t };
    assert(s.rest.skip(1) =~= t.rest);
    lemma_positional(t, true, w);
}
/// The text of a bundle stands at a character.
pub open spec fn at_char(b: B, off: int, v: Seq<char>, cs: Seq<char>) -> bool {
    &&& 0 <= off <= b.len() && valid_utf8(b.take(off))
    &&& off + encode_utf8(cs).len() == encode_utf8(v).len()
    &&& encode_utf8(v).len() <= b.len()
    &&& b.skip(off) == encode_utf8(cs) + b.skip(encode_utf8(v).len() as int)
}
pub proof fn lemma_bundle_start(b: B, v: Seq<char>)
    requires encode_utf8(v).len() <= b.len(), b.take(encode_utf8(v).len() as int) == encode_utf8(v)
    ensures at_char(b, 0, v, v), char_cut(b, encode_utf8(v).len() as int), b.skip(0) == b
{
    broadcast use group_utf8_lib;
    assert(b.take(0) =~= seq![]);
    assert(b.skip(0) =~= b);
    assert(b.skip(0) =~= encode_utf8(v) + b.skip(encode_utf8(v).len() as int));
    encode_utf8_valid_utf8(v);
    encode_utf8_valid_utf8(seq![]);
    assert(encode_utf8(seq![]) =~= seq![]);
}
pub proof fn lemma_bundle_step(b: B, off: int, v: Seq<char>, ch: char, cs: Seq<char>, c: Seq<Entry>, rest: Seq<B>)
    requires at_char(b, off, v, cons(ch, cs)), wf(c), c.len() > 0
    ensures ({
        let n = encode_scalar(ch as u32).len() as int;
        let r = named_spec(c, true, encode_scalar(ch as u32), eq_or_rest(b.skip(off + n)), rest);
        &&& 0 < n <= 4
        &&& at_char(b, off + n, v, cs)
        &&& char_cut(b, off + n) && 0 <= off && off + n <= b.len()
        &&& bundle_spec(c, b.skip(off), rest) == (match r {
                Err(e) => Err(e),
                Ok((c2, rest2, used)) => if used { Ok((c2, rest2)) } else { bundle_spec(c2, b.skip(off + n), rest2) },
            })
        &&& r matches Ok((c2, rest2, _)) ==> wf(c2) && c2.len() == c.len() && c2.last().info == c.last().info && rest2.len() <= rest.len()
    })
{
    let n = encode_scalar(ch as u32).len() as int;
    let tail = b.skip(encode_utf8(v).len() as int);
    lemma_first_scalar(ch, cs, tail);
    lemma_utf8_push(b.take(off), ch);
    assert(b.skip(off + n) =~= b.skip(off).skip(n));
    assert(b.take(off + n) =~= b.take(off) + b.skip(off).take(n));
    lemma_named(c, true, encode_scalar(ch as u32), eq_or_rest(b.skip(off + n)), rest);
}
/// What is left of a bundle after its valid characters.
pub proof fn lemma_bundle_end(b: B, off: int, v: Seq<char>, cs: Seq<char>, c: Seq<Entry>, rest: Seq<B>)
    requires at_char(b, off, v, cs), cs.len() == 0, wf(c), c.len() > 0
    ensures
        off == encode_utf8(v).len(),
        b.skip(off).len() > 0 && !valid_first_scalar(b.skip(off)) ==> ({
            &&& bundle_spec(c, b.skip(off), rest) == core::result::Result::<(Seq<Entry>, Seq<B>), ErrV>::Err(unknown_named(true, b.skip(off)))
            &&& named_spec(c, true, b.skip(off), Inl::None, rest) == core::result::Result::<(Seq<Entry>, Seq<B>, bool), ErrV>::Err(unknown_named(true, b.skip(off)))
        }),
{
    assert(encode_utf8(cs) =~= seq![]) by { reveal_with_fuel(encode_utf8, 1); }
    if b.skip(off).len() > 0 && !valid_first_scalar(b.skip(off)) { lemma_no_name(c, b.skip(off)); }
}
/// The unsizing coercion: the same object, seen through its trait.
#[verifier::external_body]
pub fn vx_dyn_Frame<'a, F: Frame + ?Sized>(f: &'a mut F) -> (r: &'a mut (dyn Frame + 'a))
    ensures r.chain() == old(f).chain(), r.tables_ok() == old(f).tables_ok(), r.fut() == old(f).fut(), final(f).chain() == final(r).chain(), final(f).tables_ok() == final(r).tables_ok(), final(f).fut() == final(r).fut()
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_dyn_RunParser<'a, F: RunParser + ?Sized>(f: &'a mut F) -> (r: &'a mut (dyn RunParser + 'a))
    ensures r.rest() == old(f).rest(), final(f).rest() == final(r).rest()
{ unimplemented!() }
/// The name a command frame shows.
pub open spec fn shown(name: B) -> Seq<char> { if help_on() { decode_utf8(name) } else { seq![] } }
pub proof fn lemma_str_decode(x: &str)
    ensures decode_utf8(x.b()) == x@
{ encode_utf8_decode_utf8(x@); }
pub open spec fn enter(s: Cur, name: B) -> Seq<Entry> { s.c.push(cmd_entry(shown(name))) }
@fn runtime::run_parser
    requires wf(old(frame).chain()), old(frame).ok()
    ensures match r {
        Ok(()) => run_rel(cur(*old(frame), old(p).rest()), old(frame).sub(), Ok((final(frame).chain(), old(frame).got_end()))),
        Err(x) => run_rel(cur(*old(frame), old(p).rest()), old(frame).sub(), Err(x.v())),
    }, r is Ok ==> final(frame).fut() =~~= old(frame).fut() && final(p).rest().len() == 0
@owner C01 C02 C03 C04 C05 C06 C12 C13
@attr #[verifier::loop_isolation(false)]
@attr #[verifier::spinoff_prover]
@attr #[verifier::rlimit(60)]
@at head
        hide(run_spec); hide(sub_ok); hide(after_spec); hide(bundle_spec); hide(named_spec); hide(positional_spec); hide(wf); hide(at_char); hide(cons); hide(starts); hide(cut); hide(hy); hide(hyhy); hide(eqs); hide(encode_utf8); hide(cmd_entry); hide(char_cut); hide(idx_of);
@skiplit -
@skiplit --
@skiplit =
@at start
        proof { lemma_lits(); }
        broadcast use lemma_head_tail, lemma_run_nil, lemma_after_nil, lemma_bundle_nil;
        let ghost sub0 = frame.subcmd;
        let ghost info0 = frame.info.v();
        let ghost (s0, rel0) = (cur(*frame, p.rest()), frame.sub());
        let ghost goal = run_spec(cur(*frame, p.rest()), frame.subcmd is Some);
@inv 1
        invariant
            goal == run_spec(cur(*old(frame), old(p).rest()), old(frame).subcmd is Some), sub0 == old(frame).subcmd,
            wf(frame.chain()), frame.tables_ok(), frame.fut() == old(frame).fut(), subcmd == sub0, frame.chain().last().info == info0,
            run_spec(cur(*frame, p.rest()), sub0 is Some) == goal,
        decreases p.iter.rest().len()
@at loopstart 1
        let ghost len0 = p.rest().len() + 1;
        proof { lemma_run_step(cur(*frame, p.rest()), sub0 is Some, arg.b()); }
@inv 2
        invariant
            goal == run_spec(cur(*old(frame), old(p).rest()), old(frame).subcmd is Some), sub0 == old(frame).subcmd,
            wf(frame.chain()), frame.tables_ok(), frame.fut() == old(frame).fut(),
            (match after_spec(cur(*frame, p.rest())) { Ok(u) => Out::Done(u), Err(e) => Out::Fail(e) }) == goal,
        decreases p.iter.rest().len()
@at loopstart 2
        proof { lemma_after_step(cur(*frame, p.rest()), arg.b()); }
@inv 3
        invariant
            goal == run_spec(cur(*old(frame), old(p).rest()), old(frame).subcmd is Some), sub0 == old(frame).subcmd,
            wf(frame.chain()), frame.tables_ok(), frame.fut() == old(frame).fut(), subcmd == sub0, p.rest().len() < len0, frame.chain().last().info == info0,
            at_char(bundle.b(), ci_off(&__it1), chunk_v(&chunk), ci_rest(&__it1)),
            (match bundle_spec(frame.chain(), bundle.b().skip(ci_off(&__it1)), p.rest()) { Ok((c, rest)) => run_spec(Cur { c, rest, next: frame.next_positional as int }, sub0 is Some), Err(e) => Out::Fail(e) }) == goal,
        decreases ci_rest(&__it1).len()
@at loopstart 3
        proof { lemma_bundle_step(bundle.b(), idx as int, chunk_v(&chunk), ch, ci_rest(&__it1), frame.chain(), p.rest()); }
@at before loop:3
        proof { lemma_bundle_start(bundle.b(), chunk_v(&chunk)); }
@at after loop:3
        proof { lemma_bundle_end(bundle.b(), ci_off(&__it1), chunk_v(&chunk), ci_rest(&__it1), frame.chain(), p.rest()); }
@at after __parse
        proof {
            assert(frame.chain().drop_last() =~= frame.parent.chain());
            assert(has_resolved(place)); assert(has_resolved(subcmd)); assert(subcmd == Some(*place)); assert(has_resolved(subcmd->0)); assert(has_resolved(*place)); assert((*place).got() == final(*place).got()); assert(final(sub0->0).got() == final(*place).got());
            assert(goal matches Out::Sub { name: n, idx: i, s: t } && i == idx && enter(t, n) == c1 && t.rest == r1);
            if let Ok(()) = __vx_ret {
                let x = (*place).got();
                assert((sub0->0).sub()(idx, c1, r1, Ok((frame.chain(), x->0))));
                assert((match sub0 { Some(q) => final(q).got(), None => None }) == x);
                lemma_sub_ok(rel0, idx, c1, r1, frame.chain(), x);
            } else { assert((sub0->0).sub()(idx, c1, r1, Err(__vx_ret->Err_0.v()))); }
        }
@at before __parse
        proof { lemma_str_decode(name); lemma_lookup_in(info0.subs->0, name.b()); }
        let ghost (c1, r1) = (frame.chain(), p.rest());
@// Calls of `RunParser::run` go through `vx_run`: the trait's method cannot carry a contract, because Verus
@// rejects the cycle RunParser -> ArgsFrame -> SubcommandPlace -> RunParser.
@call run vx_run
@call run_unit run_unit
@raw
/// `RunParser::run` through the trait object; the contract is the one proved for `RawParser` below.
#[verifier::external_body]
pub fn vx_run(p: &mut (dyn RunParser + '_), frame: &mut ArgsFrame<'_, '_>) -> (r: Result<()>)
    requires wf(old(frame).chain()), old(frame).ok()
    ensures match r {
        Ok(()) => run_rel(cur(*old(frame), old(p).rest()), old(frame).sub(), Ok((final(frame).chain(), old(frame).got_end()))),
        Err(x) => run_rel(cur(*old(frame), old(p).rest()), old(frame).sub(), Err(x.v())),
    }, r is Ok ==> final(frame).fut() =~~= old(frame).fut() && final(p).rest().len() == 0
{ unimplemented!() }
@impl runtime::<RawParser as RunParser> : free
@fn runtime::<RawParser as RunParser>::run
    requires wf(old(frame).chain()), old(frame).ok()
    ensures match r {
        Ok(()) => run_rel(cur(*old(frame), old(this).rest()), old(frame).sub(), Ok((final(frame).chain(), old(frame).got_end()))),
        Err(x) => run_rel(cur(*old(frame), old(this).rest()), old(frame).sub(), Err(x.v())),
    }, r is Ok ==> final(frame).fut() =~~= old(frame).fut() && final(this).rest().len() == 0
@owner C01 C06
@raw
pub open spec fn unit_entry(i: InfoV) -> Entry { Entry { cmd: false, name: seq![], info: i, fields: seq![] } }
@impl runtime::dyn RunParser : free
@fn runtime::dyn RunParser::run_unit
    requires wf(old(parent).chain()), old(parent).tables_ok(), info.ok(), wf_entry(unit_entry(info.v()))
    ensures match r {
        Ok(()) => exists|d: Seq<Entry>| #[trigger] run_rel(Cur { c: old(parent).chain().push(unit_entry(info.v())), next: 0, rest: old(this).rest() }, None, Ok((d, None))) && final(parent).chain() == d.drop_last(),
        Err(x) => run_rel(Cur { c: old(parent).chain().push(unit_entry(info.v())), next: 0, rest: old(this).rest() }, None, Err(x.v())),
    }, r is Ok ==> final(parent).fut() =~~= old(parent).fut() && final(this).rest().len() == 0
@owner C06
@at after vx_run
        proof {
            let d = __frame1.chain();
            assert(d.drop_last() =~= __frame1.parent.chain());
            if __vx_tail is Ok { assert(run_rel(Cur { c: f0.chain(), next: 0, rest: old(this).rest() }, None, Ok((d, None)))); }
            assert(has_resolved(__frame1.parent));
        }
@at before vx_run
        proof {
            assert(sts(__frame1.fields@) =~= seq![]);
            lemma_wf_push(old(parent).chain(), unit_entry(info.v()));
        }
        let ghost f0 = __frame1;

// ======== Argument groups and subcommands ========
@raw
/// The address of a constant.
#[verifier::external_body]
pub fn vx_static<T>(x: T) -> (r: &'static T)
    ensures *r == x
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_static_slice<T, const N: usize>(x: [T; N]) -> (r: &'static [T])
    ensures r@ == x@
{ unimplemented!() }
@constfn __INFO
@constfn __HAS_SUBCOMMAND
@trait runtime::Args
    /// What parsing below chain `c` with the words `rest` may give: the chain after it and the value, or an error.
    spec fn rel(c: Seq<Entry>, rest: Seq<B>, r: core::result::Result<(Seq<Entry>, Self), ErrV>) -> bool;
    spec fn info() -> InfoV;
@fn runtime::Args::__INFO
    ensures r.v() =~= Self::info(), r.ok()
@fn runtime::Args::__parse
    requires wf(old(frame).chain()), old(frame).tables_ok(), *old(out) is None
    ensures match r {
        Ok(()) => *final(out) matches Some(x) && Self::rel(old(frame).chain(), old(parser).rest(), Ok((final(frame).chain(), x))),
        Err(x) => Self::rel(old(frame).chain(), old(parser).rest(), Err(x.v())),
    }, r is Ok ==> final(frame).fut() =~~= old(frame).fut() && final(parser).rest().len() == 0
@trait runtime::Subcommand
    spec fn rel(idx: usize, c: Seq<Entry>, rest: Seq<B>, r: core::result::Result<(Seq<Entry>, Self), ErrV>) -> bool;
    spec fn subs() -> Seq<(B, usize)>;
    spec fn count() -> int;
    proof fn subs_ok()
        ensures forall|i: int| 0 <= i < Self::subs().len() ==> (#[trigger] Self::subs()[i]).1 < Self::count();
@fn runtime::Subcommand::__INFO
    ensures r.v() =~= Self::subs(), r.ok()
@fn runtime::Subcommand::__parse
    requires wf(old(frame).chain()), old(frame).tables_ok(), *old(out) is None, idx < Self::count()
    ensures match r {
        Ok(()) => *final(out) matches Some(x) && Self::rel(idx, old(frame).chain(), old(parser).rest(), Ok((final(frame).chain(), x))),
        Err(x) => Self::rel(idx, old(frame).chain(), old(parser).rest(), Err(x.v())),
    }, r is Ok ==> final(frame).fut() =~~= old(frame).fut() && final(parser).rest().len() == 0
@raw
/// The subcommands of `S`, as their place sees them.
pub open spec fn sub_rel<S: Subcommand>() -> SubRel {
    |idx: usize, c: Seq<Entry>, rest: Seq<B>, r: SubRes| match r {
        Ok((d, v)) => exists|x: S| v == #[trigger] val(x) && S::rel(idx, c, rest, Ok((d, x))),
        Err(e) => S::rel(idx, c, rest, Err(e)),
    }
}
@impl runtime::<Option as SubcommandPlace>
    open spec fn sub(&self) -> SubRel { sub_rel::<S>() }
    open spec fn got(&self) -> Option<Val> { match self { Some(x) => Some(val(*x)), None => None } }
    open spec fn count(&self) -> int { S::count() }
@fn runtime::<Option as SubcommandPlace>::__parse
@owner C06
@at after __parse
        proof {
            assert(old(self).sub() == sub_rel::<S>());
            if let Ok(()) = __vx_tail {
                let x = (*self)->0;
                assert(S::rel(idx, old(frame).chain(), old(parser).rest(), Ok((frame.chain(), x))));
                assert(sub_rel::<S>()(idx, old(frame).chain(), old(parser).rest(), Ok((frame.chain(), val(x)))));
            } else {
                let e = __vx_tail->Err_0.v();
                assert(sub_rel::<S>()(idx, old(frame).chain(), old(parser).rest(), Err(e)));
            }
        }

@item runtime::StructParserFlavor
@trait runtime::ParserFlavor
    /// What running the parser on the words `rest` may give, for a program called `name`.
    spec fn top(name: B, rest: Seq<B>, r: core::result::Result<T, ErrV>) -> bool;
@fn runtime::ParserFlavor::run_parser
    ensures match r {
        Ok(x) => Self::top(program_name.b(), old(p).rest(), Ok(x)) && final(p).rest().len() == 0,
        Err(e) => Self::top(program_name.b(), old(p).rest(), Err(e.v())),
    }
@raw
pub open spec fn any<T>(x: T) -> bool { true }
/// The frames a program starts with.
pub open spec fn top_chain(name: B) -> Seq<Entry> { seq![cmd_entry(if help_on() { lossy(name) } else { seq![] })] }
@impl runtime::<StructParserFlavor as ParserFlavor<A>>
    open spec fn top(name: B, rest: Seq<B>, r: core::result::Result<A, ErrV>) -> bool {
        match r { Ok(x) => exists|d: Seq<Entry>| #[trigger] any(d) && A::rel(top_chain(name), rest, Ok((d, x))), Err(e) => A::rel(top_chain(name), rest, Err(e)) }
    }
@fn runtime::<StructParserFlavor as ParserFlavor<A>>::run_parser
@owner C01 C06 C11
@at after let:frame
@if help
        proof { lemma_str_decode(frame.name); encode_utf8_decode_utf8(lossy(program_name.b())); }
@endif
        proof { assert(frame.chain() =~= top_chain(program_name.b())); }
@at after __parse
        proof { assert(any(frame.chain())); }

// ======== Errors of the end of parsing ========
@fn runtime::error_missing_arg
    ensures r matches Err(x) && x.v() =~~= (ErrV { arg: desc_of(info.v(), idx as int), ..err0(ErrorKind::MissingRequiredArgument) })
@owner C08 C11
@fn runtime::error_missing_subcmd
    ensures r matches Err(x) && x.v() =~~= err0(ErrorKind::MissingRequiredSubcommand)
@owner C06 C11
@fn runtime::error_exclusive
    ensures r matches Err(x) && x.v() =~~= (ErrV { arg: desc_of(info.v(), idx as int), ..err0(ErrorKind::ConstraintExclusive) })
@owner C08 C11
@fn runtime::error_dependency
    ensures r matches Err(x) && x.v() =~~= (ErrV { arg: desc_of(info.v(), idx2 as int), ..err0(ErrorKind::ConstraintRequired) })
@owner C08 C11
@fn runtime::error_conflict
    ensures r matches Err(x) && x.v() =~~= (ErrV { arg: desc_of(info.v(), idx1 as int), ..err0(ErrorKind::ConstraintConflict) })
@owner C08 C11
