@raw
// ======== Code written by the derive macros ========
/// The value parser that inference picks for `T`.
pub struct VxParser<T>(PhantomData<T>);
pub uninterp spec fn parses_as<T>(v: B) -> core::result::Result<T, BadV>;
impl<T> ValueParser for VxParser<T> {
    type Output = T;
    type AssertInferOk = T;
    open spec fn parses(v: B) -> core::result::Result<T, BadV> { parses_as::<T>(v) }
    #[verifier::external_body]
    fn parse(v: &OsStr) -> (r: Result<T>) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_parser<T>() -> (r: VxParser<T>) { unimplemented!() }
/// The help text of a definition; its content is not described here.
#[verifier::external_body]
pub fn vx_help_fmt() -> (r: &'static dyn HelpFmt) { unimplemented!() }
/// The unsizing coercions: the same object.
#[verifier::external_body]
pub fn vx_dyn_Parsable<'a, F: Parsable>(f: &'a mut F) -> (r: &'a mut (dyn Parsable + 'a))
    ensures r.st() == old(f).st(), final(f).st() == final(r).st()
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_dyn_SubcommandPlace<'a, F: SubcommandPlace>(f: &'a mut F) -> (r: &'a mut (dyn SubcommandPlace + 'a))
    ensures r.sub() == old(f).sub(), r.got() == old(f).got(), r.count() == old(f).count(), final(f).got() == final(r).got()
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_slice_mut<'a, T, const N: usize>(f: &'a mut [T; N]) -> (r: &'a mut [T])
    ensures r@ == old(f)@, final(f)@ == final(r)@
{ unimplemented!() }
/// `set_default` with a closure that gives `o`.
pub fn vx_set_default<P: ParsableSized>(p: &mut P, o: P::Output)
    requires old(p).st().vals is None
    ensures final(p).st() =~~= (PlaceSt { vals: Some(P::default_vals(o)), ..old(p).st() })
{
    p.set_default(move || -> (r: P::Output) ensures r == o { o });
}
#[verifier::external_body]
pub fn unreachable_nounwind() -> !
    requires false
{ unimplemented!() }
pub open spec fn adjacent(k: Seq<B>) -> bool
    decreases k.len()
{
    if k.len() <= 1 { true } else { bytes_lt(k[0], k[1]) && adjacent(k.skip(1)) }
}
pub proof fn lemma_lt_trans(x: B, y: B, z: B)
    requires bytes_lt(x, y), bytes_lt(y, z)
    ensures bytes_lt(x, z)
    decreases x.len()
{
    if x.len() > 0 && x[0] == y[0] && y[0] == z[0] { lemma_lt_trans(x.skip(1), y.skip(1), z.skip(1)); }
}
pub proof fn lemma_adjacent(k: Seq<B>)
    requires adjacent(k)
    ensures sorted(k)
    decreases k.len()
{
    if k.len() > 1 {
        let t = k.skip(1);
        lemma_adjacent(t);
        assert forall|i: int, j: int| 0 <= i < j < k.len() implies bytes_lt(#[trigger] k[i], #[trigger] k[j]) by {
            assert(k[j] == t[j - 1]);
            if i > 0 { assert(k[i] == t[i - 1]); }
            else if j > 1 { assert(bytes_lt(t[0], t[j - 1])); lemma_lt_trans(k[0], t[0], t[j - 1]); }
        }
    }
}
pub proof fn lemma_terminated_empty()
    ensures terminated(Seq::<u8>::empty()) == Seq::<B>::empty()
{ reveal_with_fuel(find_at, 1); }
pub proof fn lemma_find0(x: B, y: B)
    requires forall|i: int| 0 <= i < x.len() ==> #[trigger] x[i] != 0
    ensures find_at(x + seq![0u8] + y, seq![0u8]) == Some(x.len() as int)
    decreases x.len()
{
    let s = x + seq![0u8] + y;
    lemma_starts1(s, 0u8);
    if x.len() > 0 {
        assert(s[0] == x[0]);
        assert(s.skip(1) =~= x.skip(1) + seq![0u8] + y);
        assert forall|i: int| 0 <= i < x.skip(1).len() implies #[trigger] x.skip(1)[i] != 0 by { assert(x[i + 1] != 0); }
        lemma_find0(x.skip(1), y);
    }
}
pub open spec fn no_nul(x: B) -> bool
    decreases x.len()
{ if x.len() == 0 { true } else { x[0] != 0 && no_nul(x.skip(1)) } }
pub proof fn lemma_no_nul(x: B)
    requires no_nul(x)
    ensures forall|i: int| 0 <= i < x.len() ==> #[trigger] x[i] != 0
    decreases x.len()
{ if x.len() > 0 { lemma_no_nul(x.skip(1)); assert forall|i: int| 0 <= i < x.len() implies #[trigger] x[i] != 0 by { if i > 0 { assert(x.skip(1)[i - 1] != 0); } } } }
pub proof fn lemma_terminated(x: B, y: B)
    requires no_nul(x)
    ensures terminated(x + seq![0u8] + y) == seq![x] + terminated(y)
{
    lemma_no_nul(x);
    lemma_find0(x, y);
    let s = x + seq![0u8] + y;
    assert(s.take(x.len() as int) =~= x);
    assert(s.skip(x.len() as int + 1) =~= y);
}
pub proof fn lemma_idx(i: int, f: u32)
    requires 0 <= i < 256, f & 0xffu32 == 0, f < 0x8000_0000u32
    ensures idx_of((i + f) as u32) == i
{
    let j = i as u32;
    assert((add(j, f) as u8) == (j as u8)) by (bit_vector) requires j < 256u32, f & 0xffu32 == 0, f < 0x8000_0000u32;
    assert(j as u8 == j);
}
