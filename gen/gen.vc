@mod vals

@raw
// ======== Color ========
@item gen::Color
@drop gen::<Color as ValueEnum>::POSSIBLE_INPUTS_NUL
@drop gen::<Color as ValueEnum>::NO_UPPER_CASE
@impl gen::<Color as ValueEnum>
    open spec fn of(v: B) -> Option<Self> { if v == seq![97u8, 117u8, 116u8, 111u8] { Some(Color::Auto) } else if v == seq![100u8, 97u8, 114u8, 107u8, 45u8, 114u8, 101u8, 100u8] { Some(Color::DarkRed) } else if v == seq![120u8, 32u8, 121u8] { Some(Color::X) } else { None } }
@fn gen::<Color as ValueEnum>::parse_value
@owner C10
@fn gen::<Color as ValueEnum>::display_value
@owner C10 C16

@raw
// ======== Lvl ========
@item gen::Lvl
@drop gen::<Lvl as ValueEnum>::POSSIBLE_INPUTS_NUL
@drop gen::<Lvl as ValueEnum>::NO_UPPER_CASE
@impl gen::<Lvl as ValueEnum>
    open spec fn of(v: B) -> Option<Self> { if v == seq![76u8, 79u8, 87u8] { Some(Lvl::Low) } else if v == seq![77u8, 73u8, 68u8, 95u8, 72u8, 73u8, 71u8, 72u8] { Some(Lvl::MidHigh) } else if v == seq![108u8, 111u8, 119u8] { Some(Lvl::Odd) } else { None } }
@fn gen::<Lvl as ValueEnum>::parse_value
@owner C10
@fn gen::<Lvl as ValueEnum>::display_value
@owner C10 C16

@mod m1
@raw
use super::vals::*;

@raw
// ======== G1 ========

@item gen::G1
@raw
pub open spec fn info_G1() -> InfoV { InfoV {
    names: seq![(seq![45u8, 45u8, 101u8, 120u8], (4 + ArgAttrs::REQUIRE_VALUE.0) as u32), (seq![45u8, 45u8, 102u8, 108u8, 97u8, 103u8], (0) as u32), (seq![45u8, 45u8, 108u8, 105u8, 115u8, 116u8], (3 + ArgAttrs::REQUIRE_VALUE.0) as u32), (seq![45u8, 45u8, 110u8, 117u8, 109u8], (1 + ArgAttrs::REQUIRE_VALUE.0) as u32), (seq![102u8], (0) as u32), (seq![111u8], (2 + ArgAttrs::REQUIRE_VALUE.0) as u32)],
    pos: seq![(5 + ArgAttrs::REQUIRE_VALUE.0) as u32],
    descs: seq![seq![45u8, 102u8, 44u8, 32u8, 45u8, 45u8, 102u8, 108u8, 97u8, 103u8], seq![45u8, 45u8, 110u8, 117u8, 109u8, 32u8, 60u8, 78u8, 85u8, 77u8, 62u8], seq![45u8, 111u8, 32u8, 60u8, 79u8, 80u8, 84u8, 62u8], seq![45u8, 45u8, 108u8, 105u8, 115u8, 116u8, 32u8, 60u8, 76u8, 73u8, 83u8, 84u8, 62u8], seq![45u8, 45u8, 101u8, 120u8, 32u8, 60u8, 69u8, 88u8, 62u8], seq![60u8, 80u8, 79u8, 83u8, 62u8]],
    subs: None } }
pub open spec fn entry_G1() -> Entry { Entry { cmd: false, name: Seq::<char>::empty(), info: info_G1(), fields: seq![FlagPlace(None).st(), PlaceSt { kind: PKind::Set, parse: parse_fn::<VxParser<u8>>(), vals: None }, PlaceSt { kind: PKind::Set, parse: parse_fn::<VxParser<u8>>(), vals: None }, PlaceSt { kind: PKind::Delim(','), parse: parse_fn::<VxParser<u8>>(), vals: None }, PlaceSt { kind: PKind::Set, parse: parse_fn::<VxParser<u8>>(), vals: None }, PlaceSt { kind: PKind::Set, parse: parse_fn::<VxParser<String>>(), vals: None }] } }
/// The end of parsing finds constraint broken, and says so.
pub open spec fn broken_G1(f: Seq<PlaceSt>, got: Option<Val>, e: ErrV) -> bool {
    ||| false
    ||| f[2].vals is Some && !(f[0].vals is Some) && e == (ErrV { arg: Some(seq![45u8, 102u8, 44u8, 32u8, 45u8, 45u8, 102u8, 108u8, 97u8, 103u8]), ..err0(ErrorKind::ConstraintRequired) })
    ||| f[2].vals is Some && f[3].vals is Some && e == (ErrV { arg: Some(seq![45u8, 111u8, 32u8, 60u8, 79u8, 80u8, 84u8, 62u8]), ..err0(ErrorKind::ConstraintConflict) })
    ||| f[4].vals is Some && (f[0].vals is Some || f[1].vals is Some || f[2].vals is Some || f[3].vals is Some || f[5].vals is Some) && e == (ErrV { arg: Some(seq![45u8, 45u8, 101u8, 120u8, 32u8, 60u8, 69u8, 88u8, 62u8]), ..err0(ErrorKind::ConstraintExclusive) })
    ||| !(f[5].vals is Some) && e == (ErrV { arg: Some(seq![60u8, 80u8, 79u8, 83u8, 62u8]), ..err0(ErrorKind::MissingRequiredArgument) })
}
pub open spec fn kept_G1(f: Seq<PlaceSt>, got: Option<Val>) -> bool {
    &&& true
    &&& !(f[2].vals is Some && !(f[0].vals is Some))
    &&& !(f[2].vals is Some && f[3].vals is Some)
    &&& !(f[4].vals is Some && (f[0].vals is Some || f[1].vals is Some || f[2].vals is Some || f[3].vals is Some || f[5].vals is Some))
    &&& !(!(f[5].vals is Some))
}
pub open spec fn value_G1(f: Seq<PlaceSt>, got: Option<Val>, x_flag: bool, x_num: u8, x_opt: Option<u8>, x_list: Vec<u8>, x_ex: u8, x_pos: Option<String>) -> bool {
    &&& true
    &&& match f[0].vals { None => x_flag == false, Some(s) => s == seq![val(x_flag)] }
    &&& match f[1].vals { None => step(f[1], Some(seq![55u8]))->Ok_0.vals == Some(seq![val(x_num)]), Some(s) => s == seq![val(x_num)] }
    &&& match f[2].vals { None => x_opt is None, Some(s) => x_opt matches Some(y) && s == seq![val(y)] }
    &&& match f[3].vals { None => x_list@ == Seq::<u8>::empty(), Some(s) => s == vals(x_list@) }
    &&& match f[4].vals { None => seq![val(x_ex)] == seq![val::<u8>(4)], Some(s) => s == seq![val(x_ex)] }
    &&& match f[5].vals { None => x_pos is None, Some(s) => x_pos matches Some(y) && s == seq![val(y)] }
}
pub type End_G1 = core::result::Result<(Seq<Entry>, Option<Val>), ErrV>;
pub open spec fn start_G1(c: Seq<Entry>, rest: Seq<B>) -> Cur { Cur { c: c.push(entry_G1()), next: 0, rest } }
pub open spec fn sub_G1() -> Option<SubRel> { None }
// @owner C05
pub proof fn facts_G1()
    ensures wf_entry(entry_G1())
{
    assert((((0) as u32) & 0xffu32) == 0 && ((0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(0, (0) as u32); assert((0) as u32 == (0 + ((0) as u32)) as u32) by (compute);
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(1, (0 + ArgAttrs::REQUIRE_VALUE.0) as u32); assert((1 + ArgAttrs::REQUIRE_VALUE.0) as u32 == (1 + ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32)) as u32) by (compute);
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(2, (0 + ArgAttrs::REQUIRE_VALUE.0) as u32); assert((2 + ArgAttrs::REQUIRE_VALUE.0) as u32 == (2 + ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32)) as u32) by (compute);
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(3, (0 + ArgAttrs::REQUIRE_VALUE.0) as u32); assert((3 + ArgAttrs::REQUIRE_VALUE.0) as u32 == (3 + ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32)) as u32) by (compute);
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(4, (0 + ArgAttrs::REQUIRE_VALUE.0) as u32); assert((4 + ArgAttrs::REQUIRE_VALUE.0) as u32 == (4 + ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32)) as u32) by (compute);
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(5, (0 + ArgAttrs::REQUIRE_VALUE.0) as u32); assert((5 + ArgAttrs::REQUIRE_VALUE.0) as u32 == (5 + ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32)) as u32) by (compute);
    assert(valid_utf8(seq![45u8, 45u8, 101u8, 120u8])) by (compute);
    assert(valid_utf8(seq![45u8, 45u8, 102u8, 108u8, 97u8, 103u8])) by (compute);
    assert(valid_utf8(seq![45u8, 45u8, 108u8, 105u8, 115u8, 116u8])) by (compute);
    assert(valid_utf8(seq![45u8, 45u8, 110u8, 117u8, 109u8])) by (compute);
    assert(valid_utf8(seq![102u8])) by (compute);
    assert(valid_utf8(seq![111u8])) by (compute);
}
// @owner C05 C11
pub proof fn table_G1()
    ensures sorted(seq![seq![45u8, 45u8, 101u8, 120u8], seq![45u8, 45u8, 102u8, 108u8, 97u8, 103u8], seq![45u8, 45u8, 108u8, 105u8, 115u8, 116u8], seq![45u8, 45u8, 110u8, 117u8, 109u8], seq![102u8], seq![111u8]]), terminated(seq![45u8, 102u8, 44u8, 32u8, 45u8, 45u8, 102u8, 108u8, 97u8, 103u8, 0u8, 45u8, 45u8, 110u8, 117u8, 109u8, 32u8, 60u8, 78u8, 85u8, 77u8, 62u8, 0u8, 45u8, 111u8, 32u8, 60u8, 79u8, 80u8, 84u8, 62u8, 0u8, 45u8, 45u8, 108u8, 105u8, 115u8, 116u8, 32u8, 60u8, 76u8, 73u8, 83u8, 84u8, 62u8, 0u8, 45u8, 45u8, 101u8, 120u8, 32u8, 60u8, 69u8, 88u8, 62u8, 0u8, 60u8, 80u8, 79u8, 83u8, 62u8, 0u8]) == info_G1().descs
{
    assert(adjacent(seq![seq![45u8, 45u8, 101u8, 120u8], seq![45u8, 45u8, 102u8, 108u8, 97u8, 103u8], seq![45u8, 45u8, 108u8, 105u8, 115u8, 116u8], seq![45u8, 45u8, 110u8, 117u8, 109u8], seq![102u8], seq![111u8]])) by (compute);
    lemma_adjacent(seq![seq![45u8, 45u8, 101u8, 120u8], seq![45u8, 45u8, 102u8, 108u8, 97u8, 103u8], seq![45u8, 45u8, 108u8, 105u8, 115u8, 116u8], seq![45u8, 45u8, 110u8, 117u8, 109u8], seq![102u8], seq![111u8]]);
    assert(terminated(seq![45u8, 102u8, 44u8, 32u8, 45u8, 45u8, 102u8, 108u8, 97u8, 103u8, 0u8, 45u8, 45u8, 110u8, 117u8, 109u8, 32u8, 60u8, 78u8, 85u8, 77u8, 62u8, 0u8, 45u8, 111u8, 32u8, 60u8, 79u8, 80u8, 84u8, 62u8, 0u8, 45u8, 45u8, 108u8, 105u8, 115u8, 116u8, 32u8, 60u8, 76u8, 73u8, 83u8, 84u8, 62u8, 0u8, 45u8, 45u8, 101u8, 120u8, 32u8, 60u8, 69u8, 88u8, 62u8, 0u8, 60u8, 80u8, 79u8, 83u8, 62u8, 0u8]) == info_G1().descs) by (compute);
}
/// Assumed: the default text of the definition is a value of its type (documented; it would panic).
#[verifier::external_body]
pub proof fn default_G1_num()
    ensures step(PlaceSt { kind: PKind::Set, parse: parse_fn::<VxParser<u8>>(), vals: None }, Some(seq![55u8])) is Ok
{}

@impl gen::<G1 as Args>
    open spec fn rel(c: Seq<Entry>, rest: Seq<B>, r: core::result::Result<(Seq<Entry>, Self), ErrV>) -> bool {
        exists|q: End_G1| #[trigger] run_rel(start_G1(c, rest), sub_G1(), q) && (match q {
        Err(e) => r matches Err(e2) && e2 == e,
        Ok((d, got)) => match r {
            Err(e) => broken_G1(d.last().fields, got, e),
            Ok((c2, x)) => c2 == d.drop_last() && kept_G1(d.last().fields, got) && (value_G1(d.last().fields, got, x.flag, x.num, x.opt, x.list, x.ex, x.pos)),
        } })
    }
    open spec fn info() -> InfoV { info_G1() }
@fn gen::<G1 as Args>::__INFO
@owner C05 C11
@attr #[verifier::spinoff_prover]
@at start
        proof { vx_flags(); table_G1(); }
@at after vx_static
        proof { assert(keys(__vx_tail.named_attrs@) =~= seq![seq![45u8, 45u8, 101u8, 120u8], seq![45u8, 45u8, 102u8, 108u8, 97u8, 103u8], seq![45u8, 45u8, 108u8, 105u8, 115u8, 116u8], seq![45u8, 45u8, 110u8, 117u8, 109u8], seq![102u8], seq![111u8]]); assert(__vx_tail.v().names =~= info_G1().names); }
@fn gen::<G1 as Args>::__parse
@owner C08 C09 C12
@attr #[verifier::spinoff_prover]
@at start
        let ghost (h_c1, h_r1) = (__frame.chain(), __parser.rest());
        let ghost mut h_fld = Seq::<PlaceSt>::empty();
        let ghost mut h_d = Seq::<Entry>::empty();
        let ghost mut h_sgot = None::<Val>;
@at before vx_run
        let ghost (h_f0, h_f1) = (__frame1, __frame1.fields@);
        proof {
            facts_G1(); lemma_wf_push(h_c1, entry_G1());
            assert(sts(h_f1) =~= entry_G1().fields);
            assert(h_f0.entry() =~~= entry_G1()); assert(h_f0.chain() =~~= h_c1.push(entry_G1()));
            assert(cur(h_f0, h_r1) =~~= start_G1(h_c1, h_r1));
        }
@at after vx_run
        let ghost h_g1 = __frame1.fields@;
        proof {
            h_d = __frame1.chain(); h_fld = sts(h_g1);
            if __vx_tail is Ok {
            assert(h_d.drop_last() =~= __frame1.parent.chain());
            assert(has_resolved(__frame1.parent)); assert(has_resolved(__frame1.fields));
            let h_f2 = final(h_f0.fields)@;
            assert(h_f0.fut() == __frame1.fut()); assert(h_f0.fut()->In_3 == h_f0.fin()); assert(__frame1.fut()->In_3 == __frame1.fin());
            assert(ends(h_f1) == ends(h_g1)); assert(ends(h_f1).len() == 6); assert(ends(h_g1).len() == h_g1.len()); assert(ends(h_f2) == ends(h_g1)); assert(ends(h_f2).len() == h_f2.len());
            assert(has_resolved(h_f2[0])); assert(ends(h_f1)[0] == final(h_f1[0]).st());
            assert(has_resolved(h_f2[1])); assert(ends(h_f1)[1] == final(h_f1[1]).st());
            assert(has_resolved(h_f2[2])); assert(ends(h_f1)[2] == final(h_f1[2]).st());
            assert(has_resolved(h_f2[3])); assert(ends(h_f1)[3] == final(h_f1[3]).st());
            assert(has_resolved(h_f2[4])); assert(ends(h_f1)[4] == final(h_f1[4]).st());
            assert(has_resolved(h_f2[5])); assert(ends(h_f1)[5] == final(h_f1[5]).st());
            assert(ends(h_f2) =~= sts(h_f2)); assert(sts(h_f2) == h_fld);
            assert(flag.st() == h_fld[0]);
            assert(num.st() == h_fld[1]);
            assert(opt.st() == h_fld[2]);
            assert(list.st() == h_fld[3]);
            assert(ex.st() == h_fld[4]);
            assert(pos.st() == h_fld[5]);
            h_sgot = None;
            default_G1_num();
            assert(run_rel(start_G1(h_c1, h_r1), sub_G1(), Ok((h_d, h_sgot))));
        } }
@at end
        proof {
            assert(kept_G1(h_fld, h_sgot)); assert(h_d.drop_last() == __frame.chain());
            let x = (*__out)->0;
            assert(value_G1(h_fld, h_sgot, x.flag, x.num, x.opt, x.list, x.ex, x.pos));
        }

@mod m2
@raw
use super::vals::*;

@raw
// ======== E5 ========

@item gen::E5
@fn gen::__VARIANT_INFOS_E5
    ensures r@.len() == 1, r@[0].v() =~= no_info(), r@[0].ok()
@owner C05 C06 C11
@attr #[verifier::spinoff_prover]
@at start
        proof { vx_flags(); lemma_terminated_empty(); }

@impl gen::<E5 as Subcommand>
    open spec fn rel(idx: usize, c: Seq<Entry>, rest: Seq<B>, r: core::result::Result<(Seq<Entry>, Self), ErrV>) -> bool {
        match idx {
            0usize => match r {
                Err(e) => run_rel(Cur { c: c.push(unit_entry(no_info())), next: 0, rest }, None, Err(e)),
                Ok((c2, x)) => x is Un && exists|d: Seq<Entry>| #[trigger] run_rel(Cur { c: c.push(unit_entry(no_info())), next: 0, rest }, None, Ok((d, None))) && c2 == d.drop_last(),
            },
            _ => false,
        }
    }
    open spec fn subs() -> Seq<(B, usize)> { seq![(seq![117u8, 110u8], 0usize)] }
    open spec fn count() -> int { 1 }
    proof fn subs_ok() {}
@fn gen::<E5 as Subcommand>::__INFO
@owner C05 C06
@attr #[verifier::spinoff_prover]
@at start
        proof { assert(adjacent(seq![seq![117u8, 110u8]])) by (compute); lemma_adjacent(seq![seq![117u8, 110u8]]); }
@fn gen::<E5 as Subcommand>::__parse
@owner C06 C08 C09 C12
@attr #[verifier::spinoff_prover]
@at start
        let ghost (h_c1, h_r1) = (__frame.chain(), __parser.rest());
        let ghost mut h_fld = Seq::<PlaceSt>::empty();
        let ghost mut h_d = Seq::<Entry>::empty();
        let ghost mut h_sgot = None::<Val>;

@raw
// ======== G4 ========

@item gen::G4
@raw
pub open spec fn info_G4() -> InfoV { InfoV {
    names: seq![(seq![45u8, 45u8, 120u8], (0 + ArgAttrs::REQUIRE_VALUE.0) as u32)],
    pos: Seq::<u32>::empty(),
    descs: seq![seq![45u8, 45u8, 120u8, 32u8, 60u8, 88u8, 62u8]],
    subs: Some(<E5 as Subcommand>::subs()) } }
pub open spec fn entry_G4() -> Entry { Entry { cmd: false, name: Seq::<char>::empty(), info: info_G4(), fields: seq![PlaceSt { kind: PKind::Set, parse: parse_fn::<VxParser<u8>>(), vals: None }] } }
/// The end of parsing finds constraint broken, and says so.
pub open spec fn broken_G4(f: Seq<PlaceSt>, got: Option<Val>, e: ErrV) -> bool {
    ||| false
}
pub open spec fn kept_G4(f: Seq<PlaceSt>, got: Option<Val>) -> bool {
    &&& true
}
pub open spec fn value_G4(f: Seq<PlaceSt>, got: Option<Val>, x_x: Option<u8>, x_d: Option<E5>) -> bool {
    &&& true
    &&& match f[0].vals { None => x_x is None, Some(s) => x_x matches Some(y) && s == seq![val(y)] }
    &&& got == (match x_d { Some(y) => Some(val(y)), None => None })
}
pub type End_G4 = core::result::Result<(Seq<Entry>, Option<Val>), ErrV>;
pub open spec fn start_G4(c: Seq<Entry>, rest: Seq<B>) -> Cur { Cur { c: c.push(entry_G4()), next: 0, rest } }
pub open spec fn sub_G4() -> Option<SubRel> { Some(sub_rel::<E5>()) }
// @owner C05
pub proof fn facts_G4()
    ensures wf_entry(entry_G4()), forall|i: int| 0 <= i < info_G4().subs->0.len() ==> (#[trigger] info_G4().subs->0[i]).1 < <E5 as Subcommand>::count()
{
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(0, (0 + ArgAttrs::REQUIRE_VALUE.0) as u32); assert((0 + ArgAttrs::REQUIRE_VALUE.0) as u32 == (0 + ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32)) as u32) by (compute);
    assert(valid_utf8(seq![45u8, 45u8, 120u8])) by (compute);
    <E5 as Subcommand>::subs_ok();
}
// @owner C05 C11
pub proof fn table_G4()
    ensures sorted(seq![seq![45u8, 45u8, 120u8]]), terminated(seq![45u8, 45u8, 120u8, 32u8, 60u8, 88u8, 62u8, 0u8]) == info_G4().descs
{
    assert(adjacent(seq![seq![45u8, 45u8, 120u8]])) by (compute);
    lemma_adjacent(seq![seq![45u8, 45u8, 120u8]]);
    assert(terminated(seq![45u8, 45u8, 120u8, 32u8, 60u8, 88u8, 62u8, 0u8]) == info_G4().descs) by (compute);
}

@impl gen::<G4 as Args>
    open spec fn rel(c: Seq<Entry>, rest: Seq<B>, r: core::result::Result<(Seq<Entry>, Self), ErrV>) -> bool {
        exists|q: End_G4| #[trigger] run_rel(start_G4(c, rest), sub_G4(), q) && (match q {
        Err(e) => r matches Err(e2) && e2 == e,
        Ok((d, got)) => match r {
            Err(e) => broken_G4(d.last().fields, got, e),
            Ok((c2, x)) => c2 == d.drop_last() && kept_G4(d.last().fields, got) && (value_G4(d.last().fields, got, x.x, x.d)),
        } })
    }
    open spec fn info() -> InfoV { info_G4() }
@fn gen::<G4 as Args>::__INFO
@owner C05 C11
@attr #[verifier::spinoff_prover]
@at start
        proof { vx_flags(); table_G4(); }
@at after vx_static
        proof { assert(keys(__vx_tail.named_attrs@) =~= seq![seq![45u8, 45u8, 120u8]]); assert(__vx_tail.v().names =~= info_G4().names); }
@fn gen::<G4 as Args>::__parse
@owner C08 C09 C12
@attr #[verifier::spinoff_prover]
@at start
        let ghost (h_c1, h_r1) = (__frame.chain(), __parser.rest());
        let ghost mut h_fld = Seq::<PlaceSt>::empty();
        let ghost mut h_d = Seq::<Entry>::empty();
        let ghost mut h_sgot = None::<Val>;
@at before vx_run
        let ghost (h_f0, h_f1) = (__frame1, __frame1.fields@);
        proof {
            facts_G4(); lemma_wf_push(h_c1, entry_G4());
            assert(sts(h_f1) =~= entry_G4().fields);
            assert(h_f0.entry() =~~= entry_G4()); assert(h_f0.chain() =~~= h_c1.push(entry_G4()));
            assert(cur(h_f0, h_r1) =~~= start_G4(h_c1, h_r1));
        }
@at after vx_run
        let ghost h_g1 = __frame1.fields@;
        proof {
            h_d = __frame1.chain(); h_fld = sts(h_g1);
            if __vx_tail is Ok {
            assert(h_d.drop_last() =~= __frame1.parent.chain());
            assert(has_resolved(__frame1.parent)); assert(has_resolved(__frame1.fields));
            let h_f2 = final(h_f0.fields)@;
            assert(h_f0.fut() == __frame1.fut()); assert(h_f0.fut()->In_3 == h_f0.fin()); assert(__frame1.fut()->In_3 == __frame1.fin());
            assert(ends(h_f1) == ends(h_g1)); assert(ends(h_f1).len() == 1); assert(ends(h_g1).len() == h_g1.len()); assert(ends(h_f2) == ends(h_g1)); assert(ends(h_f2).len() == h_f2.len());
            assert(has_resolved(h_f2[0])); assert(ends(h_f1)[0] == final(h_f1[0]).st());
            assert(ends(h_f2) =~= sts(h_f2)); assert(sts(h_f2) == h_fld);
            assert(x.st() == h_fld[0]);
            h_sgot = d.got(); assert(final(h_f0.subcmd->0).got() == h_sgot);
            assert(run_rel(start_G4(h_c1, h_r1), sub_G4(), Ok((h_d, h_sgot))));
        } }
@at end
        proof {
            assert(kept_G4(h_fld, h_sgot)); assert(h_d.drop_last() == __frame.chain());
            let x = (*__out)->0;
            assert(value_G4(h_fld, h_sgot, x.x, x.d));
        }

@raw
// ======== E3 ========

@item gen::E3
@raw
pub open spec fn info_E3_Three() -> InfoV { InfoV {
    names: seq![(seq![45u8, 45u8, 121u8], (0 + ArgAttrs::REQUIRE_VALUE.0) as u32)],
    pos: seq![(1 + ArgAttrs::REQUIRE_VALUE.0) as u32],
    descs: seq![seq![45u8, 45u8, 121u8, 32u8, 60u8, 89u8, 62u8], seq![60u8, 90u8, 62u8]],
    subs: None } }
pub open spec fn entry_E3_Three() -> Entry { Entry { cmd: false, name: Seq::<char>::empty(), info: info_E3_Three(), fields: seq![PlaceSt { kind: PKind::Many, parse: parse_fn::<VxParser<u8>>(), vals: None }, PlaceSt { kind: PKind::Set, parse: parse_fn::<VxParser<String>>(), vals: None }] } }
/// The end of parsing finds constraint broken, and says so.
pub open spec fn broken_E3_Three(f: Seq<PlaceSt>, got: Option<Val>, e: ErrV) -> bool {
    ||| false
    ||| f[1].vals is Some && (f[0].vals is Some) && e == (ErrV { arg: Some(seq![60u8, 90u8, 62u8]), ..err0(ErrorKind::ConstraintExclusive) })
    ||| !(f[1].vals is Some) && e == (ErrV { arg: Some(seq![60u8, 90u8, 62u8]), ..err0(ErrorKind::MissingRequiredArgument) })
}
pub open spec fn kept_E3_Three(f: Seq<PlaceSt>, got: Option<Val>) -> bool {
    &&& true
    &&& !(f[1].vals is Some && (f[0].vals is Some))
    &&& !(!(f[1].vals is Some))
}
pub open spec fn value_E3_Three(f: Seq<PlaceSt>, got: Option<Val>, x_y: Vec<u8>, x_z: String) -> bool {
    &&& true
    &&& match f[0].vals { None => x_y@ == Seq::<u8>::empty(), Some(s) => s == vals(x_y@) }
    &&& match f[1].vals { None => false, Some(s) => s == seq![val(x_z)] }
}
pub type End_E3_Three = core::result::Result<(Seq<Entry>, Option<Val>), ErrV>;
pub open spec fn start_E3_Three(c: Seq<Entry>, rest: Seq<B>) -> Cur { Cur { c: c.push(entry_E3_Three()), next: 0, rest } }
pub open spec fn sub_E3_Three() -> Option<SubRel> { None }
// @owner C05
pub proof fn facts_E3_Three()
    ensures wf_entry(entry_E3_Three())
{
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(0, (0 + ArgAttrs::REQUIRE_VALUE.0) as u32); assert((0 + ArgAttrs::REQUIRE_VALUE.0) as u32 == (0 + ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32)) as u32) by (compute);
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(1, (0 + ArgAttrs::REQUIRE_VALUE.0) as u32); assert((1 + ArgAttrs::REQUIRE_VALUE.0) as u32 == (1 + ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32)) as u32) by (compute);
    assert(valid_utf8(seq![45u8, 45u8, 121u8])) by (compute);
}
// @owner C05 C11
pub proof fn table_E3_Three()
    ensures sorted(seq![seq![45u8, 45u8, 121u8]]), terminated(seq![45u8, 45u8, 121u8, 32u8, 60u8, 89u8, 62u8, 0u8, 60u8, 90u8, 62u8, 0u8]) == info_E3_Three().descs
{
    assert(adjacent(seq![seq![45u8, 45u8, 121u8]])) by (compute);
    lemma_adjacent(seq![seq![45u8, 45u8, 121u8]]);
    assert(terminated(seq![45u8, 45u8, 121u8, 32u8, 60u8, 89u8, 62u8, 0u8, 60u8, 90u8, 62u8, 0u8]) == info_E3_Three().descs) by (compute);
}

@fn gen::__VARIANT_INFOS_E3
    ensures r@.len() == 3, r@[0].v() =~= no_info(), r@[0].ok(), r@[1].v() =~= <G4 as Args>::info(), r@[1].ok(), r@[2].v() =~= info_E3_Three(), r@[2].ok()
@owner C05 C06 C11
@attr #[verifier::spinoff_prover]
@at start
        proof { vx_flags(); lemma_terminated_empty(); }
        proof { vx_flags(); table_E3_Three(); }

@impl gen::<E3 as Subcommand>
    open spec fn rel(idx: usize, c: Seq<Entry>, rest: Seq<B>, r: core::result::Result<(Seq<Entry>, Self), ErrV>) -> bool {
        match idx {
            0usize => match r {
                Err(e) => run_rel(Cur { c: c.push(unit_entry(no_info())), next: 0, rest }, None, Err(e)),
                Ok((c2, x)) => x is One && exists|d: Seq<Entry>| #[trigger] run_rel(Cur { c: c.push(unit_entry(no_info())), next: 0, rest }, None, Ok((d, None))) && c2 == d.drop_last(),
            },
            1usize => match r {
                Err(e) => <G4 as Args>::rel(c, rest, Err(e)),
                Ok((c2, x)) => x matches E3::TwoWords(y) && <G4 as Args>::rel(c, rest, Ok((c2, y))),
            },
            2usize => exists|q: End_E3_Three| #[trigger] run_rel(start_E3_Three(c, rest), sub_E3_Three(), q) && (match q {
            Err(e) => r matches Err(e2) && e2 == e,
            Ok((d, got)) => match r {
                Err(e) => broken_E3_Three(d.last().fields, got, e),
                Ok((c2, x)) => c2 == d.drop_last() && kept_E3_Three(d.last().fields, got) && (x matches E3::Three { y: x_y, z: x_z } && value_E3_Three(d.last().fields, got, x_y, x_z)),
            } }),
            _ => false,
        }
    }
    open spec fn subs() -> Seq<(B, usize)> { seq![(seq![111u8, 110u8, 101u8], 0usize), (seq![116u8, 104u8, 114u8, 101u8, 101u8], 2usize), (seq![116u8, 119u8, 111u8, 45u8, 119u8, 111u8, 114u8, 100u8, 115u8], 1usize)] }
    open spec fn count() -> int { 3 }
    proof fn subs_ok() {}
@fn gen::<E3 as Subcommand>::__INFO
@owner C05 C06
@attr #[verifier::spinoff_prover]
@at start
        proof { assert(adjacent(seq![seq![111u8, 110u8, 101u8], seq![116u8, 104u8, 114u8, 101u8, 101u8], seq![116u8, 119u8, 111u8, 45u8, 119u8, 111u8, 114u8, 100u8, 115u8]])) by (compute); lemma_adjacent(seq![seq![111u8, 110u8, 101u8], seq![116u8, 104u8, 114u8, 101u8, 101u8], seq![116u8, 119u8, 111u8, 45u8, 119u8, 111u8, 114u8, 100u8, 115u8]]); }
@fn gen::<E3 as Subcommand>::__parse
@owner C06 C08 C09 C12
@attr #[verifier::spinoff_prover]
@at start
        let ghost (h_c1, h_r1) = (__frame.chain(), __parser.rest());
        let ghost mut h_fld = Seq::<PlaceSt>::empty();
        let ghost mut h_d = Seq::<Entry>::empty();
        let ghost mut h_sgot = None::<Val>;
@at before vx_run 1
        let ghost (h_f0, h_f1) = (__frame1, __frame1.fields@);
        proof {
            facts_E3_Three(); lemma_wf_push(h_c1, entry_E3_Three());
            assert(sts(h_f1) =~= entry_E3_Three().fields);
            assert(h_f0.entry() =~~= entry_E3_Three()); assert(h_f0.chain() =~~= h_c1.push(entry_E3_Three()));
            assert(cur(h_f0, h_r1) =~~= start_E3_Three(h_c1, h_r1));
        }
@at after vx_run 1
        let ghost h_g1 = __frame1.fields@;
        proof {
            h_d = __frame1.chain(); h_fld = sts(h_g1);
            if __vx_tail is Ok {
            assert(h_d.drop_last() =~= __frame1.parent.chain());
            assert(has_resolved(__frame1.parent)); assert(has_resolved(__frame1.fields));
            let h_f2 = final(h_f0.fields)@;
            assert(h_f0.fut() == __frame1.fut()); assert(h_f0.fut()->In_3 == h_f0.fin()); assert(__frame1.fut()->In_3 == __frame1.fin());
            assert(ends(h_f1) == ends(h_g1)); assert(ends(h_f1).len() == 2); assert(ends(h_g1).len() == h_g1.len()); assert(ends(h_f2) == ends(h_g1)); assert(ends(h_f2).len() == h_f2.len());
            assert(has_resolved(h_f2[0])); assert(ends(h_f1)[0] == final(h_f1[0]).st());
            assert(has_resolved(h_f2[1])); assert(ends(h_f1)[1] == final(h_f1[1]).st());
            assert(ends(h_f2) =~= sts(h_f2)); assert(sts(h_f2) == h_fld);
            assert(y.st() == h_fld[0]);
            assert(z.st() == h_fld[1]);
            h_sgot = None;
            assert(run_rel(start_E3_Three(h_c1, h_r1), sub_E3_Three(), Ok((h_d, h_sgot))));
        } }
@at before Ok 3
        proof {
            assert(kept_E3_Three(h_fld, h_sgot)); assert(h_d.drop_last() == __frame.chain());
            assert(*__out matches Some(E3::Three { y: y_y, z: y_z }) && value_E3_Three(h_fld, h_sgot, y_y, y_z));
        }

@raw
// ======== G2 ========

@item gen::G2
@raw
pub open spec fn info_G2() -> InfoV { InfoV {
    names: seq![(seq![45u8, 45u8, 118u8], (0 + ArgAttrs::GLOBAL.0) as u32)],
    pos: Seq::<u32>::empty(),
    descs: seq![seq![45u8, 45u8, 118u8]],
    subs: Some(<E3 as Subcommand>::subs()) } }
pub open spec fn entry_G2() -> Entry { Entry { cmd: false, name: Seq::<char>::empty(), info: info_G2(), fields: seq![FlagPlace(None).st()] } }
/// The end of parsing finds constraint broken, and says so.
pub open spec fn broken_G2(f: Seq<PlaceSt>, got: Option<Val>, e: ErrV) -> bool {
    ||| false
    ||| got is None && e == (err0(ErrorKind::MissingRequiredSubcommand))
}
pub open spec fn kept_G2(f: Seq<PlaceSt>, got: Option<Val>) -> bool {
    &&& true
    &&& !(got is None)
}
pub open spec fn value_G2(f: Seq<PlaceSt>, got: Option<Val>, x_v: bool, x_c: E3) -> bool {
    &&& true
    &&& match f[0].vals { None => x_v == false, Some(s) => s == seq![val(x_v)] }
    &&& got == Some(val(x_c))
}
pub type End_G2 = core::result::Result<(Seq<Entry>, Option<Val>), ErrV>;
pub open spec fn start_G2(c: Seq<Entry>, rest: Seq<B>) -> Cur { Cur { c: c.push(entry_G2()), next: 0, rest } }
pub open spec fn sub_G2() -> Option<SubRel> { Some(sub_rel::<E3>()) }
// @owner C05
pub proof fn facts_G2()
    ensures wf_entry(entry_G2()), forall|i: int| 0 <= i < info_G2().subs->0.len() ==> (#[trigger] info_G2().subs->0[i]).1 < <E3 as Subcommand>::count()
{
    assert((((0 + ArgAttrs::GLOBAL.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::GLOBAL.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(0, (0 + ArgAttrs::GLOBAL.0) as u32); assert((0 + ArgAttrs::GLOBAL.0) as u32 == (0 + ((0 + ArgAttrs::GLOBAL.0) as u32)) as u32) by (compute);
    assert(valid_utf8(seq![45u8, 45u8, 118u8])) by (compute);
    <E3 as Subcommand>::subs_ok();
}
// @owner C05 C11
pub proof fn table_G2()
    ensures sorted(seq![seq![45u8, 45u8, 118u8]]), terminated(seq![45u8, 45u8, 118u8, 0u8]) == info_G2().descs
{
    assert(adjacent(seq![seq![45u8, 45u8, 118u8]])) by (compute);
    lemma_adjacent(seq![seq![45u8, 45u8, 118u8]]);
    assert(terminated(seq![45u8, 45u8, 118u8, 0u8]) == info_G2().descs) by (compute);
}

@impl gen::<G2 as Args>
    open spec fn rel(c: Seq<Entry>, rest: Seq<B>, r: core::result::Result<(Seq<Entry>, Self), ErrV>) -> bool {
        exists|q: End_G2| #[trigger] run_rel(start_G2(c, rest), sub_G2(), q) && (match q {
        Err(e) => r matches Err(e2) && e2 == e,
        Ok((d, got)) => match r {
            Err(e) => broken_G2(d.last().fields, got, e),
            Ok((c2, x)) => c2 == d.drop_last() && kept_G2(d.last().fields, got) && (value_G2(d.last().fields, got, x.v, x.c)),
        } })
    }
    open spec fn info() -> InfoV { info_G2() }
@fn gen::<G2 as Args>::__INFO
@owner C05 C11
@attr #[verifier::spinoff_prover]
@at start
        proof { vx_flags(); table_G2(); }
@at after vx_static
        proof { assert(keys(__vx_tail.named_attrs@) =~= seq![seq![45u8, 45u8, 118u8]]); assert(__vx_tail.v().names =~= info_G2().names); }
@fn gen::<G2 as Args>::__parse
@owner C08 C09 C12
@attr #[verifier::spinoff_prover]
@at start
        let ghost (h_c1, h_r1) = (__frame.chain(), __parser.rest());
        let ghost mut h_fld = Seq::<PlaceSt>::empty();
        let ghost mut h_d = Seq::<Entry>::empty();
        let ghost mut h_sgot = None::<Val>;
@at before vx_run
        let ghost (h_f0, h_f1) = (__frame1, __frame1.fields@);
        proof {
            facts_G2(); lemma_wf_push(h_c1, entry_G2());
            assert(sts(h_f1) =~= entry_G2().fields);
            assert(h_f0.entry() =~~= entry_G2()); assert(h_f0.chain() =~~= h_c1.push(entry_G2()));
            assert(cur(h_f0, h_r1) =~~= start_G2(h_c1, h_r1));
        }
@at after vx_run
        let ghost h_g1 = __frame1.fields@;
        proof {
            h_d = __frame1.chain(); h_fld = sts(h_g1);
            if __vx_tail is Ok {
            assert(h_d.drop_last() =~= __frame1.parent.chain());
            assert(has_resolved(__frame1.parent)); assert(has_resolved(__frame1.fields));
            let h_f2 = final(h_f0.fields)@;
            assert(h_f0.fut() == __frame1.fut()); assert(h_f0.fut()->In_3 == h_f0.fin()); assert(__frame1.fut()->In_3 == __frame1.fin());
            assert(ends(h_f1) == ends(h_g1)); assert(ends(h_f1).len() == 1); assert(ends(h_g1).len() == h_g1.len()); assert(ends(h_f2) == ends(h_g1)); assert(ends(h_f2).len() == h_f2.len());
            assert(has_resolved(h_f2[0])); assert(ends(h_f1)[0] == final(h_f1[0]).st());
            assert(ends(h_f2) =~= sts(h_f2)); assert(sts(h_f2) == h_fld);
            assert(v.st() == h_fld[0]);
            h_sgot = c.got(); assert(final(h_f0.subcmd->0).got() == h_sgot);
            assert(run_rel(start_G2(h_c1, h_r1), sub_G2(), Ok((h_d, h_sgot))));
        } }
@at end
        proof {
            assert(kept_G2(h_fld, h_sgot)); assert(h_d.drop_last() == __frame.chain());
            let x = (*__out)->0;
            assert(value_G2(h_fld, h_sgot, x.v, x.c));
        }

@mod m3
@raw
use super::vals::*;

@raw
// ======== G6 ========

@item gen::G6
@raw
pub open spec fn info_G6() -> InfoV { InfoV {
    names: seq![(seq![45u8, 45u8, 99u8, 111u8, 108u8, 111u8, 114u8], (0 + ArgAttrs::REQUIRE_EQ.0) as u32), (seq![45u8, 45u8, 105u8, 110u8, 99u8, 108u8, 117u8, 100u8, 101u8], (1 + ArgAttrs::REQUIRE_VALUE.0) as u32), (seq![73u8], (1 + ArgAttrs::REQUIRE_VALUE.0) as u32), (seq![99u8], (0 + ArgAttrs::REQUIRE_EQ.0) as u32), (seq![108u8], (2 + ArgAttrs::REQUIRE_EQ.0) as u32)],
    pos: seq![(3 + ArgAttrs::REQUIRE_VALUE.0) as u32, (4 + ArgAttrs::REQUIRE_VALUE.0) as u32],
    descs: seq![seq![45u8, 99u8, 44u8, 32u8, 45u8, 45u8, 99u8, 111u8, 108u8, 111u8, 114u8, 91u8, 61u8, 60u8, 67u8, 79u8, 76u8, 79u8, 82u8, 62u8, 93u8], seq![45u8, 73u8, 44u8, 32u8, 45u8, 45u8, 105u8, 110u8, 99u8, 108u8, 117u8, 100u8, 101u8, 32u8, 60u8, 73u8, 78u8, 67u8, 62u8], seq![45u8, 108u8, 91u8, 61u8, 60u8, 76u8, 86u8, 76u8, 62u8, 93u8], seq![91u8, 77u8, 79u8, 82u8, 69u8, 93u8], seq![91u8, 65u8, 71u8, 65u8, 73u8, 78u8, 93u8]],
    subs: None } }
pub open spec fn entry_G6() -> Entry { Entry { cmd: false, name: Seq::<char>::empty(), info: info_G6(), fields: seq![PlaceSt { kind: PKind::OptSet, parse: parse_fn::<VxParser<Color>>(), vals: None }, PlaceSt { kind: PKind::Many, parse: parse_fn::<VxParser<String>>(), vals: None }, PlaceSt { kind: PKind::OptSet, parse: parse_fn::<VxParser<u8>>(), vals: None }, PlaceSt { kind: PKind::Set, parse: parse_fn::<VxParser<String>>(), vals: None }, PlaceSt { kind: PKind::Set, parse: parse_fn::<VxParser<OsString>>(), vals: None }] } }
/// The end of parsing finds constraint broken, and says so.
pub open spec fn broken_G6(f: Seq<PlaceSt>, got: Option<Val>, e: ErrV) -> bool {
    ||| false
    ||| f[2].vals is Some && f[4].vals is Some && e == (ErrV { arg: Some(seq![45u8, 108u8, 91u8, 61u8, 60u8, 76u8, 86u8, 76u8, 62u8, 93u8]), ..err0(ErrorKind::ConstraintConflict) })
    ||| f[2].vals is Some && f[3].vals is Some && e == (ErrV { arg: Some(seq![45u8, 108u8, 91u8, 61u8, 60u8, 76u8, 86u8, 76u8, 62u8, 93u8]), ..err0(ErrorKind::ConstraintConflict) })
}
pub open spec fn kept_G6(f: Seq<PlaceSt>, got: Option<Val>) -> bool {
    &&& true
    &&& !(f[2].vals is Some && f[4].vals is Some)
    &&& !(f[2].vals is Some && f[3].vals is Some)
}
pub open spec fn value_G6(f: Seq<PlaceSt>, got: Option<Val>, x_color: Option<Option<Color>>, x_inc: Option<Vec<String>>, x_lvl: Option<Option<u8>>, x_more: Option<String>, x_again: Option<OsString>) -> bool {
    &&& true
    &&& match f[0].vals { None => x_color is None, Some(s) => match x_color { None => false, Some(None) => s == Seq::<Val>::empty(), Some(Some(y)) => s == seq![val(y)] } }
    &&& match f[1].vals { None => x_inc is None, Some(s) => x_inc matches Some(y) && s == vals(y@) }
    &&& match f[2].vals { None => x_lvl is None, Some(s) => match x_lvl { None => false, Some(None) => s == Seq::<Val>::empty(), Some(Some(y)) => s == seq![val(y)] } }
    &&& match f[3].vals { None => x_more is None, Some(s) => x_more matches Some(y) && s == seq![val(y)] }
    &&& match f[4].vals { None => x_again is None, Some(s) => x_again matches Some(y) && s == seq![val(y)] }
}
pub type End_G6 = core::result::Result<(Seq<Entry>, Option<Val>), ErrV>;
pub open spec fn start_G6(c: Seq<Entry>, rest: Seq<B>) -> Cur { Cur { c: c.push(entry_G6()), next: 0, rest } }
pub open spec fn sub_G6() -> Option<SubRel> { None }
// @owner C05
pub proof fn facts_G6()
    ensures wf_entry(entry_G6())
{
    assert((((0 + ArgAttrs::REQUIRE_EQ.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_EQ.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(0, (0 + ArgAttrs::REQUIRE_EQ.0) as u32); assert((0 + ArgAttrs::REQUIRE_EQ.0) as u32 == (0 + ((0 + ArgAttrs::REQUIRE_EQ.0) as u32)) as u32) by (compute);
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(1, (0 + ArgAttrs::REQUIRE_VALUE.0) as u32); assert((1 + ArgAttrs::REQUIRE_VALUE.0) as u32 == (1 + ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32)) as u32) by (compute);
    assert((((0 + ArgAttrs::REQUIRE_EQ.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_EQ.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(2, (0 + ArgAttrs::REQUIRE_EQ.0) as u32); assert((2 + ArgAttrs::REQUIRE_EQ.0) as u32 == (2 + ((0 + ArgAttrs::REQUIRE_EQ.0) as u32)) as u32) by (compute);
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(3, (0 + ArgAttrs::REQUIRE_VALUE.0) as u32); assert((3 + ArgAttrs::REQUIRE_VALUE.0) as u32 == (3 + ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32)) as u32) by (compute);
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(4, (0 + ArgAttrs::REQUIRE_VALUE.0) as u32); assert((4 + ArgAttrs::REQUIRE_VALUE.0) as u32 == (4 + ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32)) as u32) by (compute);
    assert(valid_utf8(seq![45u8, 45u8, 99u8, 111u8, 108u8, 111u8, 114u8])) by (compute);
    assert(valid_utf8(seq![45u8, 45u8, 105u8, 110u8, 99u8, 108u8, 117u8, 100u8, 101u8])) by (compute);
    assert(valid_utf8(seq![73u8])) by (compute);
    assert(valid_utf8(seq![99u8])) by (compute);
    assert(valid_utf8(seq![108u8])) by (compute);
}
// @owner C05 C11
pub proof fn table_G6()
    ensures sorted(seq![seq![45u8, 45u8, 99u8, 111u8, 108u8, 111u8, 114u8], seq![45u8, 45u8, 105u8, 110u8, 99u8, 108u8, 117u8, 100u8, 101u8], seq![73u8], seq![99u8], seq![108u8]]), terminated(seq![45u8, 99u8, 44u8, 32u8, 45u8, 45u8, 99u8, 111u8, 108u8, 111u8, 114u8, 91u8, 61u8, 60u8, 67u8, 79u8, 76u8, 79u8, 82u8, 62u8, 93u8, 0u8, 45u8, 73u8, 44u8, 32u8, 45u8, 45u8, 105u8, 110u8, 99u8, 108u8, 117u8, 100u8, 101u8, 32u8, 60u8, 73u8, 78u8, 67u8, 62u8, 0u8, 45u8, 108u8, 91u8, 61u8, 60u8, 76u8, 86u8, 76u8, 62u8, 93u8, 0u8, 91u8, 77u8, 79u8, 82u8, 69u8, 93u8, 0u8, 91u8, 65u8, 71u8, 65u8, 73u8, 78u8, 93u8, 0u8]) == info_G6().descs
{
    assert(adjacent(seq![seq![45u8, 45u8, 99u8, 111u8, 108u8, 111u8, 114u8], seq![45u8, 45u8, 105u8, 110u8, 99u8, 108u8, 117u8, 100u8, 101u8], seq![73u8], seq![99u8], seq![108u8]])) by (compute);
    lemma_adjacent(seq![seq![45u8, 45u8, 99u8, 111u8, 108u8, 111u8, 114u8], seq![45u8, 45u8, 105u8, 110u8, 99u8, 108u8, 117u8, 100u8, 101u8], seq![73u8], seq![99u8], seq![108u8]]);
    assert(terminated(seq![45u8, 99u8, 44u8, 32u8, 45u8, 45u8, 99u8, 111u8, 108u8, 111u8, 114u8, 91u8, 61u8, 60u8, 67u8, 79u8, 76u8, 79u8, 82u8, 62u8, 93u8, 0u8, 45u8, 73u8, 44u8, 32u8, 45u8, 45u8, 105u8, 110u8, 99u8, 108u8, 117u8, 100u8, 101u8, 32u8, 60u8, 73u8, 78u8, 67u8, 62u8, 0u8, 45u8, 108u8, 91u8, 61u8, 60u8, 76u8, 86u8, 76u8, 62u8, 93u8, 0u8, 91u8, 77u8, 79u8, 82u8, 69u8, 93u8, 0u8, 91u8, 65u8, 71u8, 65u8, 73u8, 78u8, 93u8, 0u8]) == info_G6().descs) by (compute);
}

@impl gen::<G6 as Args>
    open spec fn rel(c: Seq<Entry>, rest: Seq<B>, r: core::result::Result<(Seq<Entry>, Self), ErrV>) -> bool {
        exists|q: End_G6| #[trigger] run_rel(start_G6(c, rest), sub_G6(), q) && (match q {
        Err(e) => r matches Err(e2) && e2 == e,
        Ok((d, got)) => match r {
            Err(e) => broken_G6(d.last().fields, got, e),
            Ok((c2, x)) => c2 == d.drop_last() && kept_G6(d.last().fields, got) && (value_G6(d.last().fields, got, x.color, x.inc, x.lvl, x.more, x.again)),
        } })
    }
    open spec fn info() -> InfoV { info_G6() }
@fn gen::<G6 as Args>::__INFO
@owner C05 C11
@attr #[verifier::spinoff_prover]
@at start
        proof { vx_flags(); table_G6(); }
@at after vx_static
        proof { assert(keys(__vx_tail.named_attrs@) =~= seq![seq![45u8, 45u8, 99u8, 111u8, 108u8, 111u8, 114u8], seq![45u8, 45u8, 105u8, 110u8, 99u8, 108u8, 117u8, 100u8, 101u8], seq![73u8], seq![99u8], seq![108u8]]); assert(__vx_tail.v().names =~= info_G6().names); }
@fn gen::<G6 as Args>::__parse
@owner C08 C09 C12
@attr #[verifier::spinoff_prover]
@at start
        let ghost (h_c1, h_r1) = (__frame.chain(), __parser.rest());
        let ghost mut h_fld = Seq::<PlaceSt>::empty();
        let ghost mut h_d = Seq::<Entry>::empty();
        let ghost mut h_sgot = None::<Val>;
@at before vx_run
        let ghost (h_f0, h_f1) = (__frame1, __frame1.fields@);
        proof {
            facts_G6(); lemma_wf_push(h_c1, entry_G6());
            assert(sts(h_f1) =~= entry_G6().fields);
            assert(h_f0.entry() =~~= entry_G6()); assert(h_f0.chain() =~~= h_c1.push(entry_G6()));
            assert(cur(h_f0, h_r1) =~~= start_G6(h_c1, h_r1));
        }
@at after vx_run
        let ghost h_g1 = __frame1.fields@;
        proof {
            h_d = __frame1.chain(); h_fld = sts(h_g1);
            if __vx_tail is Ok {
            assert(h_d.drop_last() =~= __frame1.parent.chain());
            assert(has_resolved(__frame1.parent)); assert(has_resolved(__frame1.fields));
            let h_f2 = final(h_f0.fields)@;
            assert(h_f0.fut() == __frame1.fut()); assert(h_f0.fut()->In_3 == h_f0.fin()); assert(__frame1.fut()->In_3 == __frame1.fin());
            assert(ends(h_f1) == ends(h_g1)); assert(ends(h_f1).len() == 5); assert(ends(h_g1).len() == h_g1.len()); assert(ends(h_f2) == ends(h_g1)); assert(ends(h_f2).len() == h_f2.len());
            assert(has_resolved(h_f2[0])); assert(ends(h_f1)[0] == final(h_f1[0]).st());
            assert(has_resolved(h_f2[1])); assert(ends(h_f1)[1] == final(h_f1[1]).st());
            assert(has_resolved(h_f2[2])); assert(ends(h_f1)[2] == final(h_f1[2]).st());
            assert(has_resolved(h_f2[3])); assert(ends(h_f1)[3] == final(h_f1[3]).st());
            assert(has_resolved(h_f2[4])); assert(ends(h_f1)[4] == final(h_f1[4]).st());
            assert(ends(h_f2) =~= sts(h_f2)); assert(sts(h_f2) == h_fld);
            assert(color.st() == h_fld[0]);
            assert(inc.st() == h_fld[1]);
            assert(lvl.st() == h_fld[2]);
            assert(more.st() == h_fld[3]);
            assert(again.st() == h_fld[4]);
            h_sgot = None;
            assert(run_rel(start_G6(h_c1, h_r1), sub_G6(), Ok((h_d, h_sgot))));
        } }
@at end
        proof {
            assert(kept_G6(h_fld, h_sgot)); assert(h_d.drop_last() == __frame.chain());
            let x = (*__out)->0;
            assert(value_G6(h_fld, h_sgot, x.color, x.inc, x.lvl, x.more, x.again));
        }

@mod m4
@raw
use super::vals::*;

@raw
// ======== G7 ========

@item gen::G7
@raw
pub open spec fn info_G7() -> InfoV { InfoV {
    names: seq![(seq![45u8, 45u8, 99u8, 97u8, 115u8, 101u8], (1 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::MAKE_LOWERCASE.0) as u32), (seq![45u8, 45u8, 101u8, 113u8, 117u8, 97u8, 108u8, 115u8], (4 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::REQUIRE_EQ.0) as u32), (seq![45u8, 45u8, 104u8, 121u8], (2 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::ACCEPT_HYPHEN_ANY.0) as u32), (seq![45u8, 45u8, 108u8, 110u8], (0 + ArgAttrs::REQUIRE_VALUE.0) as u32), (seq![45u8, 45u8, 108u8, 111u8, 110u8, 103u8], (0 + ArgAttrs::REQUIRE_VALUE.0) as u32), (seq![45u8, 45u8, 108u8, 111u8, 110u8, 103u8, 45u8, 110u8, 97u8, 109u8, 101u8], (0 + ArgAttrs::REQUIRE_VALUE.0) as u32), (seq![45u8, 45u8, 114u8, 45u8, 116u8, 121u8, 112u8, 101u8], (6 + ArgAttrs::REQUIRE_VALUE.0) as u32), (seq![49u8], (5) as u32), (seq![76u8], (0 + ArgAttrs::REQUIRE_VALUE.0) as u32), (seq![108u8], (0 + ArgAttrs::REQUIRE_VALUE.0) as u32), (seq![110u8], (3 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::ACCEPT_HYPHEN_NUM.0) as u32), (seq![121u8], (2 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::ACCEPT_HYPHEN_ANY.0) as u32), (seq![195u8, 169u8], (0 + ArgAttrs::REQUIRE_VALUE.0) as u32)],
    pos: Seq::<u32>::empty(),
    descs: seq![seq![45u8, 108u8, 44u8, 32u8, 45u8, 45u8, 108u8, 111u8, 110u8, 103u8, 45u8, 110u8, 97u8, 109u8, 101u8, 32u8, 60u8, 76u8, 79u8, 78u8, 71u8, 95u8, 78u8, 65u8, 77u8, 69u8, 62u8], seq![45u8, 45u8, 99u8, 97u8, 115u8, 101u8, 32u8, 60u8, 67u8, 65u8, 83u8, 69u8, 62u8], seq![45u8, 121u8, 44u8, 32u8, 45u8, 45u8, 104u8, 121u8, 32u8, 60u8, 72u8, 89u8, 62u8], seq![45u8, 110u8, 32u8, 60u8, 78u8, 69u8, 71u8, 62u8], seq![45u8, 45u8, 101u8, 113u8, 117u8, 97u8, 108u8, 115u8, 61u8, 60u8, 88u8, 62u8], seq![45u8, 49u8], seq![45u8, 45u8, 114u8, 45u8, 116u8, 121u8, 112u8, 101u8, 32u8, 60u8, 82u8, 95u8, 84u8, 89u8, 80u8, 69u8, 62u8]],
    subs: None } }
pub open spec fn entry_G7() -> Entry { Entry { cmd: false, name: Seq::<char>::empty(), info: info_G7(), fields: seq![PlaceSt { kind: PKind::Set, parse: parse_fn::<VxParser<String>>(), vals: None }, PlaceSt { kind: PKind::Set, parse: parse_fn::<VxParser<Color>>(), vals: None }, PlaceSt { kind: PKind::Set, parse: parse_fn::<VxParser<String>>(), vals: None }, PlaceSt { kind: PKind::Set, parse: parse_fn::<VxParser<i32>>(), vals: None }, PlaceSt { kind: PKind::Set, parse: parse_fn::<VxParser<String>>(), vals: None }, FlagPlace(None).st(), PlaceSt { kind: PKind::Set, parse: parse_fn::<VxParser<String>>(), vals: None }] } }
/// The end of parsing finds constraint broken, and says so.
pub open spec fn broken_G7(f: Seq<PlaceSt>, got: Option<Val>, e: ErrV) -> bool {
    ||| false
    ||| !(f[4].vals is Some) && e == (ErrV { arg: Some(seq![45u8, 45u8, 101u8, 113u8, 117u8, 97u8, 108u8, 115u8, 61u8, 60u8, 88u8, 62u8]), ..err0(ErrorKind::MissingRequiredArgument) })
}
pub open spec fn kept_G7(f: Seq<PlaceSt>, got: Option<Val>) -> bool {
    &&& true
    &&& !(!(f[4].vals is Some))
}
pub open spec fn value_G7(f: Seq<PlaceSt>, got: Option<Val>, x_long_name: Option<String>, x_case: Option<Color>, x_hy: Option<String>, x_neg: Option<i32>, x_eq: String, x_one: bool, x_r_type: Option<String>) -> bool {
    &&& true
    &&& match f[0].vals { None => x_long_name is None, Some(s) => x_long_name matches Some(y) && s == seq![val(y)] }
    &&& match f[1].vals { None => x_case is None, Some(s) => x_case matches Some(y) && s == seq![val(y)] }
    &&& match f[2].vals { None => x_hy is None, Some(s) => x_hy matches Some(y) && s == seq![val(y)] }
    &&& match f[3].vals { None => x_neg is None, Some(s) => x_neg matches Some(y) && s == seq![val(y)] }
    &&& match f[4].vals { None => false, Some(s) => s == seq![val(x_eq)] }
    &&& match f[5].vals { None => x_one == false, Some(s) => s == seq![val(x_one)] }
    &&& match f[6].vals { None => x_r_type is None, Some(s) => x_r_type matches Some(y) && s == seq![val(y)] }
}
pub type End_G7 = core::result::Result<(Seq<Entry>, Option<Val>), ErrV>;
pub open spec fn start_G7(c: Seq<Entry>, rest: Seq<B>) -> Cur { Cur { c: c.push(entry_G7()), next: 0, rest } }
pub open spec fn sub_G7() -> Option<SubRel> { None }
// @owner C05
pub proof fn facts_G7()
    ensures wf_entry(entry_G7())
{
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(0, (0 + ArgAttrs::REQUIRE_VALUE.0) as u32); assert((0 + ArgAttrs::REQUIRE_VALUE.0) as u32 == (0 + ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32)) as u32) by (compute);
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::MAKE_LOWERCASE.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::MAKE_LOWERCASE.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(1, (0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::MAKE_LOWERCASE.0) as u32); assert((1 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::MAKE_LOWERCASE.0) as u32 == (1 + ((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::MAKE_LOWERCASE.0) as u32)) as u32) by (compute);
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::ACCEPT_HYPHEN_ANY.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::ACCEPT_HYPHEN_ANY.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(2, (0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::ACCEPT_HYPHEN_ANY.0) as u32); assert((2 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::ACCEPT_HYPHEN_ANY.0) as u32 == (2 + ((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::ACCEPT_HYPHEN_ANY.0) as u32)) as u32) by (compute);
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::ACCEPT_HYPHEN_NUM.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::ACCEPT_HYPHEN_NUM.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(3, (0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::ACCEPT_HYPHEN_NUM.0) as u32); assert((3 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::ACCEPT_HYPHEN_NUM.0) as u32 == (3 + ((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::ACCEPT_HYPHEN_NUM.0) as u32)) as u32) by (compute);
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::REQUIRE_EQ.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::REQUIRE_EQ.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(4, (0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::REQUIRE_EQ.0) as u32); assert((4 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::REQUIRE_EQ.0) as u32 == (4 + ((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::REQUIRE_EQ.0) as u32)) as u32) by (compute);
    assert((((0) as u32) & 0xffu32) == 0 && ((0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(5, (0) as u32); assert((5) as u32 == (5 + ((0) as u32)) as u32) by (compute);
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(6, (0 + ArgAttrs::REQUIRE_VALUE.0) as u32); assert((6 + ArgAttrs::REQUIRE_VALUE.0) as u32 == (6 + ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32)) as u32) by (compute);
    assert(valid_utf8(seq![45u8, 45u8, 99u8, 97u8, 115u8, 101u8])) by (compute);
    assert(valid_utf8(seq![45u8, 45u8, 101u8, 113u8, 117u8, 97u8, 108u8, 115u8])) by (compute);
    assert(valid_utf8(seq![45u8, 45u8, 104u8, 121u8])) by (compute);
    assert(valid_utf8(seq![45u8, 45u8, 108u8, 110u8])) by (compute);
    assert(valid_utf8(seq![45u8, 45u8, 108u8, 111u8, 110u8, 103u8])) by (compute);
    assert(valid_utf8(seq![45u8, 45u8, 108u8, 111u8, 110u8, 103u8, 45u8, 110u8, 97u8, 109u8, 101u8])) by (compute);
    assert(valid_utf8(seq![45u8, 45u8, 114u8, 45u8, 116u8, 121u8, 112u8, 101u8])) by (compute);
    assert(valid_utf8(seq![49u8])) by (compute);
    assert(valid_utf8(seq![76u8])) by (compute);
    assert(valid_utf8(seq![108u8])) by (compute);
    assert(valid_utf8(seq![110u8])) by (compute);
    assert(valid_utf8(seq![121u8])) by (compute);
    assert(valid_utf8(seq![195u8, 169u8])) by (compute);
}
// @owner C05 C11
pub proof fn table_G7()
    ensures sorted(seq![seq![45u8, 45u8, 99u8, 97u8, 115u8, 101u8], seq![45u8, 45u8, 101u8, 113u8, 117u8, 97u8, 108u8, 115u8], seq![45u8, 45u8, 104u8, 121u8], seq![45u8, 45u8, 108u8, 110u8], seq![45u8, 45u8, 108u8, 111u8, 110u8, 103u8], seq![45u8, 45u8, 108u8, 111u8, 110u8, 103u8, 45u8, 110u8, 97u8, 109u8, 101u8], seq![45u8, 45u8, 114u8, 45u8, 116u8, 121u8, 112u8, 101u8], seq![49u8], seq![76u8], seq![108u8], seq![110u8], seq![121u8], seq![195u8, 169u8]]), terminated(seq![45u8, 108u8, 44u8, 32u8, 45u8, 45u8, 108u8, 111u8, 110u8, 103u8, 45u8, 110u8, 97u8, 109u8, 101u8, 32u8, 60u8, 76u8, 79u8, 78u8, 71u8, 95u8, 78u8, 65u8, 77u8, 69u8, 62u8, 0u8, 45u8, 45u8, 99u8, 97u8, 115u8, 101u8, 32u8, 60u8, 67u8, 65u8, 83u8, 69u8, 62u8, 0u8, 45u8, 121u8, 44u8, 32u8, 45u8, 45u8, 104u8, 121u8, 32u8, 60u8, 72u8, 89u8, 62u8, 0u8, 45u8, 110u8, 32u8, 60u8, 78u8, 69u8, 71u8, 62u8, 0u8, 45u8, 45u8, 101u8, 113u8, 117u8, 97u8, 108u8, 115u8, 61u8, 60u8, 88u8, 62u8, 0u8, 45u8, 49u8, 0u8, 45u8, 45u8, 114u8, 45u8, 116u8, 121u8, 112u8, 101u8, 32u8, 60u8, 82u8, 95u8, 84u8, 89u8, 80u8, 69u8, 62u8, 0u8]) == info_G7().descs
{
    assert(adjacent(seq![seq![45u8, 45u8, 99u8, 97u8, 115u8, 101u8], seq![45u8, 45u8, 101u8, 113u8, 117u8, 97u8, 108u8, 115u8], seq![45u8, 45u8, 104u8, 121u8], seq![45u8, 45u8, 108u8, 110u8], seq![45u8, 45u8, 108u8, 111u8, 110u8, 103u8], seq![45u8, 45u8, 108u8, 111u8, 110u8, 103u8, 45u8, 110u8, 97u8, 109u8, 101u8], seq![45u8, 45u8, 114u8, 45u8, 116u8, 121u8, 112u8, 101u8], seq![49u8], seq![76u8], seq![108u8], seq![110u8], seq![121u8], seq![195u8, 169u8]])) by (compute);
    lemma_adjacent(seq![seq![45u8, 45u8, 99u8, 97u8, 115u8, 101u8], seq![45u8, 45u8, 101u8, 113u8, 117u8, 97u8, 108u8, 115u8], seq![45u8, 45u8, 104u8, 121u8], seq![45u8, 45u8, 108u8, 110u8], seq![45u8, 45u8, 108u8, 111u8, 110u8, 103u8], seq![45u8, 45u8, 108u8, 111u8, 110u8, 103u8, 45u8, 110u8, 97u8, 109u8, 101u8], seq![45u8, 45u8, 114u8, 45u8, 116u8, 121u8, 112u8, 101u8], seq![49u8], seq![76u8], seq![108u8], seq![110u8], seq![121u8], seq![195u8, 169u8]]);
    assert(terminated(seq![45u8, 108u8, 44u8, 32u8, 45u8, 45u8, 108u8, 111u8, 110u8, 103u8, 45u8, 110u8, 97u8, 109u8, 101u8, 32u8, 60u8, 76u8, 79u8, 78u8, 71u8, 95u8, 78u8, 65u8, 77u8, 69u8, 62u8, 0u8, 45u8, 45u8, 99u8, 97u8, 115u8, 101u8, 32u8, 60u8, 67u8, 65u8, 83u8, 69u8, 62u8, 0u8, 45u8, 121u8, 44u8, 32u8, 45u8, 45u8, 104u8, 121u8, 32u8, 60u8, 72u8, 89u8, 62u8, 0u8, 45u8, 110u8, 32u8, 60u8, 78u8, 69u8, 71u8, 62u8, 0u8, 45u8, 45u8, 101u8, 113u8, 117u8, 97u8, 108u8, 115u8, 61u8, 60u8, 88u8, 62u8, 0u8, 45u8, 49u8, 0u8, 45u8, 45u8, 114u8, 45u8, 116u8, 121u8, 112u8, 101u8, 32u8, 60u8, 82u8, 95u8, 84u8, 89u8, 80u8, 69u8, 62u8, 0u8]) == info_G7().descs) by (compute);
}

@impl gen::<G7 as Args>
    open spec fn rel(c: Seq<Entry>, rest: Seq<B>, r: core::result::Result<(Seq<Entry>, Self), ErrV>) -> bool {
        exists|q: End_G7| #[trigger] run_rel(start_G7(c, rest), sub_G7(), q) && (match q {
        Err(e) => r matches Err(e2) && e2 == e,
        Ok((d, got)) => match r {
            Err(e) => broken_G7(d.last().fields, got, e),
            Ok((c2, x)) => c2 == d.drop_last() && kept_G7(d.last().fields, got) && (value_G7(d.last().fields, got, x.long_name, x.case, x.hy, x.neg, x.eq, x.one, x.r_type)),
        } })
    }
    open spec fn info() -> InfoV { info_G7() }
@fn gen::<G7 as Args>::__INFO
@owner C05 C11
@attr #[verifier::spinoff_prover]
@at start
        proof { vx_flags(); table_G7(); }
@at after vx_static
        proof { assert(keys(__vx_tail.named_attrs@) =~= seq![seq![45u8, 45u8, 99u8, 97u8, 115u8, 101u8], seq![45u8, 45u8, 101u8, 113u8, 117u8, 97u8, 108u8, 115u8], seq![45u8, 45u8, 104u8, 121u8], seq![45u8, 45u8, 108u8, 110u8], seq![45u8, 45u8, 108u8, 111u8, 110u8, 103u8], seq![45u8, 45u8, 108u8, 111u8, 110u8, 103u8, 45u8, 110u8, 97u8, 109u8, 101u8], seq![45u8, 45u8, 114u8, 45u8, 116u8, 121u8, 112u8, 101u8], seq![49u8], seq![76u8], seq![108u8], seq![110u8], seq![121u8], seq![195u8, 169u8]]); assert(__vx_tail.v().names =~= info_G7().names); }
@fn gen::<G7 as Args>::__parse
@owner C08 C09 C12
@attr #[verifier::spinoff_prover]
@at start
        let ghost (h_c1, h_r1) = (__frame.chain(), __parser.rest());
        let ghost mut h_fld = Seq::<PlaceSt>::empty();
        let ghost mut h_d = Seq::<Entry>::empty();
        let ghost mut h_sgot = None::<Val>;
@at before vx_run
        let ghost (h_f0, h_f1) = (__frame1, __frame1.fields@);
        proof {
            facts_G7(); lemma_wf_push(h_c1, entry_G7());
            assert(sts(h_f1) =~= entry_G7().fields);
            assert(h_f0.entry() =~~= entry_G7()); assert(h_f0.chain() =~~= h_c1.push(entry_G7()));
            assert(cur(h_f0, h_r1) =~~= start_G7(h_c1, h_r1));
        }
@at after vx_run
        let ghost h_g1 = __frame1.fields@;
        proof {
            h_d = __frame1.chain(); h_fld = sts(h_g1);
            if __vx_tail is Ok {
            assert(h_d.drop_last() =~= __frame1.parent.chain());
            assert(has_resolved(__frame1.parent)); assert(has_resolved(__frame1.fields));
            let h_f2 = final(h_f0.fields)@;
            assert(h_f0.fut() == __frame1.fut()); assert(h_f0.fut()->In_3 == h_f0.fin()); assert(__frame1.fut()->In_3 == __frame1.fin());
            assert(ends(h_f1) == ends(h_g1)); assert(ends(h_f1).len() == 7); assert(ends(h_g1).len() == h_g1.len()); assert(ends(h_f2) == ends(h_g1)); assert(ends(h_f2).len() == h_f2.len());
            assert(has_resolved(h_f2[0])); assert(ends(h_f1)[0] == final(h_f1[0]).st());
            assert(has_resolved(h_f2[1])); assert(ends(h_f1)[1] == final(h_f1[1]).st());
            assert(has_resolved(h_f2[2])); assert(ends(h_f1)[2] == final(h_f1[2]).st());
            assert(has_resolved(h_f2[3])); assert(ends(h_f1)[3] == final(h_f1[3]).st());
            assert(has_resolved(h_f2[4])); assert(ends(h_f1)[4] == final(h_f1[4]).st());
            assert(has_resolved(h_f2[5])); assert(ends(h_f1)[5] == final(h_f1[5]).st());
            assert(has_resolved(h_f2[6])); assert(ends(h_f1)[6] == final(h_f1[6]).st());
            assert(ends(h_f2) =~= sts(h_f2)); assert(sts(h_f2) == h_fld);
            assert(long_name.st() == h_fld[0]);
            assert(case.st() == h_fld[1]);
            assert(hy.st() == h_fld[2]);
            assert(neg.st() == h_fld[3]);
            assert(eq.st() == h_fld[4]);
            assert(one.st() == h_fld[5]);
            assert(r_type.st() == h_fld[6]);
            h_sgot = None;
            assert(run_rel(start_G7(h_c1, h_r1), sub_G7(), Ok((h_d, h_sgot))));
        } }
@at end
        proof {
            assert(kept_G7(h_fld, h_sgot)); assert(h_d.drop_last() == __frame.chain());
            let x = (*__out)->0;
            assert(value_G7(h_fld, h_sgot, x.long_name, x.case, x.hy, x.neg, x.eq, x.one, x.r_type));
        }

@mod m5
@raw
use super::vals::*;

@raw
// ======== G8 ========

@item gen::G8
@raw
pub open spec fn info_G8() -> InfoV { InfoV {
    names: seq![(seq![118u8], (0) as u32)],
    pos: seq![(1 + ArgAttrs::REQUIRE_VALUE.0) as u32, (2 + ArgAttrs::REQUIRE_VALUE.0) as u32, (3 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0) as u32],
    descs: seq![seq![45u8, 118u8], seq![60u8, 70u8, 73u8, 82u8, 83u8, 84u8, 62u8], seq![91u8, 83u8, 69u8, 67u8, 79u8, 78u8, 68u8, 93u8], seq![91u8, 82u8, 69u8, 83u8, 84u8, 93u8, 46u8, 46u8, 46u8]],
    subs: None } }
pub open spec fn entry_G8() -> Entry { Entry { cmd: false, name: Seq::<char>::empty(), info: info_G8(), fields: seq![FlagPlace(None).st(), PlaceSt { kind: PKind::Set, parse: parse_fn::<VxParser<String>>(), vals: None }, PlaceSt { kind: PKind::Set, parse: parse_fn::<VxParser<u8>>(), vals: None }, PlaceSt { kind: PKind::Many, parse: parse_fn::<VxParser<String>>(), vals: None }] } }
/// The end of parsing finds constraint broken, and says so.
pub open spec fn broken_G8(f: Seq<PlaceSt>, got: Option<Val>, e: ErrV) -> bool {
    ||| false
    ||| !(f[1].vals is Some) && e == (ErrV { arg: Some(seq![60u8, 70u8, 73u8, 82u8, 83u8, 84u8, 62u8]), ..err0(ErrorKind::MissingRequiredArgument) })
}
pub open spec fn kept_G8(f: Seq<PlaceSt>, got: Option<Val>) -> bool {
    &&& true
    &&& !(!(f[1].vals is Some))
}
pub open spec fn value_G8(f: Seq<PlaceSt>, got: Option<Val>, x_v: bool, x_first: String, x_second: Option<u8>, x_rest: Vec<String>) -> bool {
    &&& true
    &&& match f[0].vals { None => x_v == false, Some(s) => s == seq![val(x_v)] }
    &&& match f[1].vals { None => false, Some(s) => s == seq![val(x_first)] }
    &&& match f[2].vals { None => x_second is None, Some(s) => x_second matches Some(y) && s == seq![val(y)] }
    &&& match f[3].vals { None => x_rest@ == Seq::<String>::empty(), Some(s) => s == vals(x_rest@) }
}
pub type End_G8 = core::result::Result<(Seq<Entry>, Option<Val>), ErrV>;
pub open spec fn start_G8(c: Seq<Entry>, rest: Seq<B>) -> Cur { Cur { c: c.push(entry_G8()), next: 0, rest } }
pub open spec fn sub_G8() -> Option<SubRel> { None }
// @owner C05
pub proof fn facts_G8()
    ensures wf_entry(entry_G8())
{
    assert((((0) as u32) & 0xffu32) == 0 && ((0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(0, (0) as u32); assert((0) as u32 == (0 + ((0) as u32)) as u32) by (compute);
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(1, (0 + ArgAttrs::REQUIRE_VALUE.0) as u32); assert((1 + ArgAttrs::REQUIRE_VALUE.0) as u32 == (1 + ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32)) as u32) by (compute);
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(2, (0 + ArgAttrs::REQUIRE_VALUE.0) as u32); assert((2 + ArgAttrs::REQUIRE_VALUE.0) as u32 == (2 + ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32)) as u32) by (compute);
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(3, (0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0) as u32); assert((3 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0) as u32 == (3 + ((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0) as u32)) as u32) by (compute);
    assert(valid_utf8(seq![118u8])) by (compute);
}
// @owner C05 C11
pub proof fn table_G8()
    ensures sorted(seq![seq![118u8]]), terminated(seq![45u8, 118u8, 0u8, 60u8, 70u8, 73u8, 82u8, 83u8, 84u8, 62u8, 0u8, 91u8, 83u8, 69u8, 67u8, 79u8, 78u8, 68u8, 93u8, 0u8, 91u8, 82u8, 69u8, 83u8, 84u8, 93u8, 46u8, 46u8, 46u8, 0u8]) == info_G8().descs
{
    assert(adjacent(seq![seq![118u8]])) by (compute);
    lemma_adjacent(seq![seq![118u8]]);
    assert(terminated(seq![45u8, 118u8, 0u8, 60u8, 70u8, 73u8, 82u8, 83u8, 84u8, 62u8, 0u8, 91u8, 83u8, 69u8, 67u8, 79u8, 78u8, 68u8, 93u8, 0u8, 91u8, 82u8, 69u8, 83u8, 84u8, 93u8, 46u8, 46u8, 46u8, 0u8]) == info_G8().descs) by (compute);
}

@impl gen::<G8 as Args>
    open spec fn rel(c: Seq<Entry>, rest: Seq<B>, r: core::result::Result<(Seq<Entry>, Self), ErrV>) -> bool {
        exists|q: End_G8| #[trigger] run_rel(start_G8(c, rest), sub_G8(), q) && (match q {
        Err(e) => r matches Err(e2) && e2 == e,
        Ok((d, got)) => match r {
            Err(e) => broken_G8(d.last().fields, got, e),
            Ok((c2, x)) => c2 == d.drop_last() && kept_G8(d.last().fields, got) && (value_G8(d.last().fields, got, x.v, x.first, x.second, x.rest)),
        } })
    }
    open spec fn info() -> InfoV { info_G8() }
@fn gen::<G8 as Args>::__INFO
@owner C05 C11
@attr #[verifier::spinoff_prover]
@at start
        proof { vx_flags(); table_G8(); }
@at after vx_static
        proof { assert(keys(__vx_tail.named_attrs@) =~= seq![seq![118u8]]); assert(__vx_tail.v().names =~= info_G8().names); }
@fn gen::<G8 as Args>::__parse
@owner C08 C09 C12
@attr #[verifier::spinoff_prover]
@at start
        let ghost (h_c1, h_r1) = (__frame.chain(), __parser.rest());
        let ghost mut h_fld = Seq::<PlaceSt>::empty();
        let ghost mut h_d = Seq::<Entry>::empty();
        let ghost mut h_sgot = None::<Val>;
@at before vx_run
        let ghost (h_f0, h_f1) = (__frame1, __frame1.fields@);
        proof {
            facts_G8(); lemma_wf_push(h_c1, entry_G8());
            assert(sts(h_f1) =~= entry_G8().fields);
            assert(h_f0.entry() =~~= entry_G8()); assert(h_f0.chain() =~~= h_c1.push(entry_G8()));
            assert(cur(h_f0, h_r1) =~~= start_G8(h_c1, h_r1));
        }
@at after vx_run
        let ghost h_g1 = __frame1.fields@;
        proof {
            h_d = __frame1.chain(); h_fld = sts(h_g1);
            if __vx_tail is Ok {
            assert(h_d.drop_last() =~= __frame1.parent.chain());
            assert(has_resolved(__frame1.parent)); assert(has_resolved(__frame1.fields));
            let h_f2 = final(h_f0.fields)@;
            assert(h_f0.fut() == __frame1.fut()); assert(h_f0.fut()->In_3 == h_f0.fin()); assert(__frame1.fut()->In_3 == __frame1.fin());
            assert(ends(h_f1) == ends(h_g1)); assert(ends(h_f1).len() == 4); assert(ends(h_g1).len() == h_g1.len()); assert(ends(h_f2) == ends(h_g1)); assert(ends(h_f2).len() == h_f2.len());
            assert(has_resolved(h_f2[0])); assert(ends(h_f1)[0] == final(h_f1[0]).st());
            assert(has_resolved(h_f2[1])); assert(ends(h_f1)[1] == final(h_f1[1]).st());
            assert(has_resolved(h_f2[2])); assert(ends(h_f1)[2] == final(h_f1[2]).st());
            assert(has_resolved(h_f2[3])); assert(ends(h_f1)[3] == final(h_f1[3]).st());
            assert(ends(h_f2) =~= sts(h_f2)); assert(sts(h_f2) == h_fld);
            assert(v.st() == h_fld[0]);
            assert(first.st() == h_fld[1]);
            assert(second.st() == h_fld[2]);
            assert(rest.st() == h_fld[3]);
            h_sgot = None;
            assert(run_rel(start_G8(h_c1, h_r1), sub_G8(), Ok((h_d, h_sgot))));
        } }
@at end
        proof {
            assert(kept_G8(h_fld, h_sgot)); assert(h_d.drop_last() == __frame.chain());
            let x = (*__out)->0;
            assert(value_G8(h_fld, h_sgot, x.v, x.first, x.second, x.rest));
        }

@mod m6
@raw
use super::vals::*;

@raw
// ======== G9 ========

@item gen::G9
@raw
pub open spec fn info_G9() -> InfoV { InfoV {
    names: seq![(seq![113u8], (0) as u32)],
    pos: seq![(1 + ArgAttrs::REQUIRE_VALUE.0) as u32, (2 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0 + ArgAttrs::GREEDY.0) as u32, (3 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0 + ArgAttrs::GREEDY.0 + ArgAttrs::LAST.0) as u32],
    descs: seq![seq![45u8, 113u8], seq![60u8, 67u8, 77u8, 68u8, 62u8], seq![91u8, 65u8, 82u8, 71u8, 83u8, 93u8, 46u8, 46u8, 46u8], seq![91u8, 84u8, 65u8, 73u8, 76u8, 93u8, 46u8, 46u8, 46u8]],
    subs: None } }
pub open spec fn entry_G9() -> Entry { Entry { cmd: false, name: Seq::<char>::empty(), info: info_G9(), fields: seq![FlagPlace(None).st(), PlaceSt { kind: PKind::Set, parse: parse_fn::<VxParser<OsString>>(), vals: None }, PlaceSt { kind: PKind::Many, parse: parse_fn::<VxParser<OsString>>(), vals: None }, PlaceSt { kind: PKind::Many, parse: parse_fn::<VxParser<String>>(), vals: None }] } }
/// The end of parsing finds constraint broken, and says so.
pub open spec fn broken_G9(f: Seq<PlaceSt>, got: Option<Val>, e: ErrV) -> bool {
    ||| false
    ||| !(f[1].vals is Some) && e == (ErrV { arg: Some(seq![60u8, 67u8, 77u8, 68u8, 62u8]), ..err0(ErrorKind::MissingRequiredArgument) })
}
pub open spec fn kept_G9(f: Seq<PlaceSt>, got: Option<Val>) -> bool {
    &&& true
    &&& !(!(f[1].vals is Some))
}
pub open spec fn value_G9(f: Seq<PlaceSt>, got: Option<Val>, x_q: bool, x_cmd: OsString, x_args: Option<Vec<OsString>>, x_tail: Vec<String>) -> bool {
    &&& true
    &&& match f[0].vals { None => x_q == false, Some(s) => s == seq![val(x_q)] }
    &&& match f[1].vals { None => false, Some(s) => s == seq![val(x_cmd)] }
    &&& match f[2].vals { None => x_args is None, Some(s) => x_args matches Some(y) && s == vals(y@) }
    &&& match f[3].vals { None => x_tail@ == Seq::<String>::empty(), Some(s) => s == vals(x_tail@) }
}
pub type End_G9 = core::result::Result<(Seq<Entry>, Option<Val>), ErrV>;
pub open spec fn start_G9(c: Seq<Entry>, rest: Seq<B>) -> Cur { Cur { c: c.push(entry_G9()), next: 0, rest } }
pub open spec fn sub_G9() -> Option<SubRel> { None }
// @owner C05
pub proof fn facts_G9()
    ensures wf_entry(entry_G9())
{
    assert((((0) as u32) & 0xffu32) == 0 && ((0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(0, (0) as u32); assert((0) as u32 == (0 + ((0) as u32)) as u32) by (compute);
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(1, (0 + ArgAttrs::REQUIRE_VALUE.0) as u32); assert((1 + ArgAttrs::REQUIRE_VALUE.0) as u32 == (1 + ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32)) as u32) by (compute);
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0 + ArgAttrs::GREEDY.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0 + ArgAttrs::GREEDY.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(2, (0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0 + ArgAttrs::GREEDY.0) as u32); assert((2 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0 + ArgAttrs::GREEDY.0) as u32 == (2 + ((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0 + ArgAttrs::GREEDY.0) as u32)) as u32) by (compute);
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0 + ArgAttrs::GREEDY.0 + ArgAttrs::LAST.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0 + ArgAttrs::GREEDY.0 + ArgAttrs::LAST.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(3, (0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0 + ArgAttrs::GREEDY.0 + ArgAttrs::LAST.0) as u32); assert((3 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0 + ArgAttrs::GREEDY.0 + ArgAttrs::LAST.0) as u32 == (3 + ((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0 + ArgAttrs::GREEDY.0 + ArgAttrs::LAST.0) as u32)) as u32) by (compute);
    assert(valid_utf8(seq![113u8])) by (compute);
}
// @owner C05 C11
pub proof fn table_G9()
    ensures sorted(seq![seq![113u8]]), terminated(seq![45u8, 113u8, 0u8, 60u8, 67u8, 77u8, 68u8, 62u8, 0u8, 91u8, 65u8, 82u8, 71u8, 83u8, 93u8, 46u8, 46u8, 46u8, 0u8, 91u8, 84u8, 65u8, 73u8, 76u8, 93u8, 46u8, 46u8, 46u8, 0u8]) == info_G9().descs
{
    assert(adjacent(seq![seq![113u8]])) by (compute);
    lemma_adjacent(seq![seq![113u8]]);
    assert(terminated(seq![45u8, 113u8, 0u8, 60u8, 67u8, 77u8, 68u8, 62u8, 0u8, 91u8, 65u8, 82u8, 71u8, 83u8, 93u8, 46u8, 46u8, 46u8, 0u8, 91u8, 84u8, 65u8, 73u8, 76u8, 93u8, 46u8, 46u8, 46u8, 0u8]) == info_G9().descs) by (compute);
}

@impl gen::<G9 as Args>
    open spec fn rel(c: Seq<Entry>, rest: Seq<B>, r: core::result::Result<(Seq<Entry>, Self), ErrV>) -> bool {
        exists|q: End_G9| #[trigger] run_rel(start_G9(c, rest), sub_G9(), q) && (match q {
        Err(e) => r matches Err(e2) && e2 == e,
        Ok((d, got)) => match r {
            Err(e) => broken_G9(d.last().fields, got, e),
            Ok((c2, x)) => c2 == d.drop_last() && kept_G9(d.last().fields, got) && (value_G9(d.last().fields, got, x.q, x.cmd, x.args, x.tail)),
        } })
    }
    open spec fn info() -> InfoV { info_G9() }
@fn gen::<G9 as Args>::__INFO
@owner C05 C11
@attr #[verifier::spinoff_prover]
@at start
        proof { vx_flags(); table_G9(); }
@at after vx_static
        proof { assert(keys(__vx_tail.named_attrs@) =~= seq![seq![113u8]]); assert(__vx_tail.v().names =~= info_G9().names); }
@fn gen::<G9 as Args>::__parse
@owner C08 C09 C12
@attr #[verifier::spinoff_prover]
@at start
        let ghost (h_c1, h_r1) = (__frame.chain(), __parser.rest());
        let ghost mut h_fld = Seq::<PlaceSt>::empty();
        let ghost mut h_d = Seq::<Entry>::empty();
        let ghost mut h_sgot = None::<Val>;
@at before vx_run
        let ghost (h_f0, h_f1) = (__frame1, __frame1.fields@);
        proof {
            facts_G9(); lemma_wf_push(h_c1, entry_G9());
            assert(sts(h_f1) =~= entry_G9().fields);
            assert(h_f0.entry() =~~= entry_G9()); assert(h_f0.chain() =~~= h_c1.push(entry_G9()));
            assert(cur(h_f0, h_r1) =~~= start_G9(h_c1, h_r1));
        }
@at after vx_run
        let ghost h_g1 = __frame1.fields@;
        proof {
            h_d = __frame1.chain(); h_fld = sts(h_g1);
            if __vx_tail is Ok {
            assert(h_d.drop_last() =~= __frame1.parent.chain());
            assert(has_resolved(__frame1.parent)); assert(has_resolved(__frame1.fields));
            let h_f2 = final(h_f0.fields)@;
            assert(h_f0.fut() == __frame1.fut()); assert(h_f0.fut()->In_3 == h_f0.fin()); assert(__frame1.fut()->In_3 == __frame1.fin());
            assert(ends(h_f1) == ends(h_g1)); assert(ends(h_f1).len() == 4); assert(ends(h_g1).len() == h_g1.len()); assert(ends(h_f2) == ends(h_g1)); assert(ends(h_f2).len() == h_f2.len());
            assert(has_resolved(h_f2[0])); assert(ends(h_f1)[0] == final(h_f1[0]).st());
            assert(has_resolved(h_f2[1])); assert(ends(h_f1)[1] == final(h_f1[1]).st());
            assert(has_resolved(h_f2[2])); assert(ends(h_f1)[2] == final(h_f1[2]).st());
            assert(has_resolved(h_f2[3])); assert(ends(h_f1)[3] == final(h_f1[3]).st());
            assert(ends(h_f2) =~= sts(h_f2)); assert(sts(h_f2) == h_fld);
            assert(q.st() == h_fld[0]);
            assert(cmd.st() == h_fld[1]);
            assert(args.st() == h_fld[2]);
            assert(tail.st() == h_fld[3]);
            h_sgot = None;
            assert(run_rel(start_G9(h_c1, h_r1), sub_G9(), Ok((h_d, h_sgot))));
        } }
@at end
        proof {
            assert(kept_G9(h_fld, h_sgot)); assert(h_d.drop_last() == __frame.chain());
            let x = (*__out)->0;
            assert(value_G9(h_fld, h_sgot, x.q, x.cmd, x.args, x.tail));
        }

@mod m7
@raw
use super::vals::*;

@raw
// ======== G10 ========

@item gen::G10
@raw
pub open spec fn info_G10() -> InfoV { InfoV {
    names: Seq::<(B, u32)>::empty(),
    pos: seq![(0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0) as u32, (1 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0 + ArgAttrs::GREEDY.0 + ArgAttrs::LAST.0) as u32],
    descs: seq![seq![60u8, 70u8, 73u8, 76u8, 69u8, 83u8, 62u8, 46u8, 46u8, 46u8], seq![91u8, 76u8, 65u8, 83u8, 84u8, 93u8, 46u8, 46u8, 46u8]],
    subs: None } }
pub open spec fn entry_G10() -> Entry { Entry { cmd: false, name: Seq::<char>::empty(), info: info_G10(), fields: seq![PlaceSt { kind: PKind::Delim(':'), parse: parse_fn::<VxParser<String>>(), vals: None }, PlaceSt { kind: PKind::Many, parse: parse_fn::<VxParser<String>>(), vals: None }] } }
/// The end of parsing finds constraint broken, and says so.
pub open spec fn broken_G10(f: Seq<PlaceSt>, got: Option<Val>, e: ErrV) -> bool {
    ||| false
    ||| !(f[0].vals is Some) && e == (ErrV { arg: Some(seq![60u8, 70u8, 73u8, 76u8, 69u8, 83u8, 62u8, 46u8, 46u8, 46u8]), ..err0(ErrorKind::MissingRequiredArgument) })
}
pub open spec fn kept_G10(f: Seq<PlaceSt>, got: Option<Val>) -> bool {
    &&& true
    &&& !(!(f[0].vals is Some))
}
pub open spec fn value_G10(f: Seq<PlaceSt>, got: Option<Val>, x_files: Vec<String>, x_last: Option<Vec<String>>) -> bool {
    &&& true
    &&& match f[0].vals { None => x_files@ == Seq::<String>::empty(), Some(s) => s == vals(x_files@) }
    &&& match f[1].vals { None => x_last is None, Some(s) => x_last matches Some(y) && s == vals(y@) }
}
pub type End_G10 = core::result::Result<(Seq<Entry>, Option<Val>), ErrV>;
pub open spec fn start_G10(c: Seq<Entry>, rest: Seq<B>) -> Cur { Cur { c: c.push(entry_G10()), next: 0, rest } }
pub open spec fn sub_G10() -> Option<SubRel> { None }
// @owner C05
pub proof fn facts_G10()
    ensures wf_entry(entry_G10())
{
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(0, (0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0) as u32); assert((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0) as u32 == (0 + ((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0) as u32)) as u32) by (compute);
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0 + ArgAttrs::GREEDY.0 + ArgAttrs::LAST.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0 + ArgAttrs::GREEDY.0 + ArgAttrs::LAST.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(1, (0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0 + ArgAttrs::GREEDY.0 + ArgAttrs::LAST.0) as u32); assert((1 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0 + ArgAttrs::GREEDY.0 + ArgAttrs::LAST.0) as u32 == (1 + ((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0 + ArgAttrs::GREEDY.0 + ArgAttrs::LAST.0) as u32)) as u32) by (compute);
}
// @owner C05 C11
pub proof fn table_G10()
    ensures sorted(Seq::<B>::empty()), terminated(seq![60u8, 70u8, 73u8, 76u8, 69u8, 83u8, 62u8, 46u8, 46u8, 46u8, 0u8, 91u8, 76u8, 65u8, 83u8, 84u8, 93u8, 46u8, 46u8, 46u8, 0u8]) == info_G10().descs
{
    assert(adjacent(Seq::<B>::empty())) by (compute);
    lemma_adjacent(Seq::<B>::empty());
    assert(terminated(seq![60u8, 70u8, 73u8, 76u8, 69u8, 83u8, 62u8, 46u8, 46u8, 46u8, 0u8, 91u8, 76u8, 65u8, 83u8, 84u8, 93u8, 46u8, 46u8, 46u8, 0u8]) == info_G10().descs) by (compute);
}

@impl gen::<G10 as Args>
    open spec fn rel(c: Seq<Entry>, rest: Seq<B>, r: core::result::Result<(Seq<Entry>, Self), ErrV>) -> bool {
        exists|q: End_G10| #[trigger] run_rel(start_G10(c, rest), sub_G10(), q) && (match q {
        Err(e) => r matches Err(e2) && e2 == e,
        Ok((d, got)) => match r {
            Err(e) => broken_G10(d.last().fields, got, e),
            Ok((c2, x)) => c2 == d.drop_last() && kept_G10(d.last().fields, got) && (value_G10(d.last().fields, got, x.files, x.last)),
        } })
    }
    open spec fn info() -> InfoV { info_G10() }
@fn gen::<G10 as Args>::__INFO
@owner C05 C11
@attr #[verifier::spinoff_prover]
@at start
        proof { vx_flags(); table_G10(); }
@at after vx_static
        proof { assert(keys(__vx_tail.named_attrs@) =~= Seq::<B>::empty()); assert(__vx_tail.v().names =~= info_G10().names); }
@fn gen::<G10 as Args>::__parse
@owner C08 C09 C12
@attr #[verifier::spinoff_prover]
@at start
        let ghost (h_c1, h_r1) = (__frame.chain(), __parser.rest());
        let ghost mut h_fld = Seq::<PlaceSt>::empty();
        let ghost mut h_d = Seq::<Entry>::empty();
        let ghost mut h_sgot = None::<Val>;
@at before vx_run
        let ghost (h_f0, h_f1) = (__frame1, __frame1.fields@);
        proof {
            facts_G10(); lemma_wf_push(h_c1, entry_G10());
            assert(sts(h_f1) =~= entry_G10().fields);
            assert(h_f0.entry() =~~= entry_G10()); assert(h_f0.chain() =~~= h_c1.push(entry_G10()));
            assert(cur(h_f0, h_r1) =~~= start_G10(h_c1, h_r1));
        }
@at after vx_run
        let ghost h_g1 = __frame1.fields@;
        proof {
            h_d = __frame1.chain(); h_fld = sts(h_g1);
            if __vx_tail is Ok {
            assert(h_d.drop_last() =~= __frame1.parent.chain());
            assert(has_resolved(__frame1.parent)); assert(has_resolved(__frame1.fields));
            let h_f2 = final(h_f0.fields)@;
            assert(h_f0.fut() == __frame1.fut()); assert(h_f0.fut()->In_3 == h_f0.fin()); assert(__frame1.fut()->In_3 == __frame1.fin());
            assert(ends(h_f1) == ends(h_g1)); assert(ends(h_f1).len() == 2); assert(ends(h_g1).len() == h_g1.len()); assert(ends(h_f2) == ends(h_g1)); assert(ends(h_f2).len() == h_f2.len());
            assert(has_resolved(h_f2[0])); assert(ends(h_f1)[0] == final(h_f1[0]).st());
            assert(has_resolved(h_f2[1])); assert(ends(h_f1)[1] == final(h_f1[1]).st());
            assert(ends(h_f2) =~= sts(h_f2)); assert(sts(h_f2) == h_fld);
            assert(files.st() == h_fld[0]);
            assert(last.st() == h_fld[1]);
            h_sgot = None;
            assert(run_rel(start_G10(h_c1, h_r1), sub_G10(), Ok((h_d, h_sgot))));
        } }
@at end
        proof {
            assert(kept_G10(h_fld, h_sgot)); assert(h_d.drop_last() == __frame.chain());
            let x = (*__out)->0;
            assert(value_G10(h_fld, h_sgot, x.files, x.last));
        }

@mod m8
@raw
use super::vals::*;

@raw
// ======== G11 ========

@item gen::G11
@raw
pub open spec fn info_G11() -> InfoV { InfoV {
    names: seq![(seq![111u8], (0 + ArgAttrs::REQUIRE_VALUE.0) as u32)],
    pos: seq![(1 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0 + ArgAttrs::GREEDY.0) as u32],
    descs: seq![seq![45u8, 111u8, 32u8, 60u8, 79u8, 62u8], seq![91u8, 65u8, 82u8, 71u8, 83u8, 93u8, 46u8, 46u8, 46u8]],
    subs: None } }
pub open spec fn entry_G11() -> Entry { Entry { cmd: false, name: Seq::<char>::empty(), info: info_G11(), fields: seq![PlaceSt { kind: PKind::Set, parse: parse_fn::<VxParser<String>>(), vals: None }, PlaceSt { kind: PKind::Many, parse: parse_fn::<VxParser<String>>(), vals: None }] } }
/// The end of parsing finds constraint broken, and says so.
pub open spec fn broken_G11(f: Seq<PlaceSt>, got: Option<Val>, e: ErrV) -> bool {
    ||| false
}
pub open spec fn kept_G11(f: Seq<PlaceSt>, got: Option<Val>) -> bool {
    &&& true
}
pub open spec fn value_G11(f: Seq<PlaceSt>, got: Option<Val>, x_o: Option<String>, x_args: Vec<String>) -> bool {
    &&& true
    &&& match f[0].vals { None => x_o is None, Some(s) => x_o matches Some(y) && s == seq![val(y)] }
    &&& match f[1].vals { None => x_args@ == Seq::<String>::empty(), Some(s) => s == vals(x_args@) }
}
pub type End_G11 = core::result::Result<(Seq<Entry>, Option<Val>), ErrV>;
pub open spec fn start_G11(c: Seq<Entry>, rest: Seq<B>) -> Cur { Cur { c: c.push(entry_G11()), next: 0, rest } }
pub open spec fn sub_G11() -> Option<SubRel> { None }
// @owner C05
pub proof fn facts_G11()
    ensures wf_entry(entry_G11())
{
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(0, (0 + ArgAttrs::REQUIRE_VALUE.0) as u32); assert((0 + ArgAttrs::REQUIRE_VALUE.0) as u32 == (0 + ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32)) as u32) by (compute);
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0 + ArgAttrs::GREEDY.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0 + ArgAttrs::GREEDY.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(1, (0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0 + ArgAttrs::GREEDY.0) as u32); assert((1 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0 + ArgAttrs::GREEDY.0) as u32 == (1 + ((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0 + ArgAttrs::GREEDY.0) as u32)) as u32) by (compute);
    assert(valid_utf8(seq![111u8])) by (compute);
}
// @owner C05 C11
pub proof fn table_G11()
    ensures sorted(seq![seq![111u8]]), terminated(seq![45u8, 111u8, 32u8, 60u8, 79u8, 62u8, 0u8, 91u8, 65u8, 82u8, 71u8, 83u8, 93u8, 46u8, 46u8, 46u8, 0u8]) == info_G11().descs
{
    assert(adjacent(seq![seq![111u8]])) by (compute);
    lemma_adjacent(seq![seq![111u8]]);
    assert(terminated(seq![45u8, 111u8, 32u8, 60u8, 79u8, 62u8, 0u8, 91u8, 65u8, 82u8, 71u8, 83u8, 93u8, 46u8, 46u8, 46u8, 0u8]) == info_G11().descs) by (compute);
}

@impl gen::<G11 as Args>
    open spec fn rel(c: Seq<Entry>, rest: Seq<B>, r: core::result::Result<(Seq<Entry>, Self), ErrV>) -> bool {
        exists|q: End_G11| #[trigger] run_rel(start_G11(c, rest), sub_G11(), q) && (match q {
        Err(e) => r matches Err(e2) && e2 == e,
        Ok((d, got)) => match r {
            Err(e) => broken_G11(d.last().fields, got, e),
            Ok((c2, x)) => c2 == d.drop_last() && kept_G11(d.last().fields, got) && (value_G11(d.last().fields, got, x.o, x.args)),
        } })
    }
    open spec fn info() -> InfoV { info_G11() }
@fn gen::<G11 as Args>::__INFO
@owner C05 C11
@attr #[verifier::spinoff_prover]
@at start
        proof { vx_flags(); table_G11(); }
@at after vx_static
        proof { assert(keys(__vx_tail.named_attrs@) =~= seq![seq![111u8]]); assert(__vx_tail.v().names =~= info_G11().names); }
@fn gen::<G11 as Args>::__parse
@owner C08 C09 C12
@attr #[verifier::spinoff_prover]
@at start
        let ghost (h_c1, h_r1) = (__frame.chain(), __parser.rest());
        let ghost mut h_fld = Seq::<PlaceSt>::empty();
        let ghost mut h_d = Seq::<Entry>::empty();
        let ghost mut h_sgot = None::<Val>;
@at before vx_run
        let ghost (h_f0, h_f1) = (__frame1, __frame1.fields@);
        proof {
            facts_G11(); lemma_wf_push(h_c1, entry_G11());
            assert(sts(h_f1) =~= entry_G11().fields);
            assert(h_f0.entry() =~~= entry_G11()); assert(h_f0.chain() =~~= h_c1.push(entry_G11()));
            assert(cur(h_f0, h_r1) =~~= start_G11(h_c1, h_r1));
        }
@at after vx_run
        let ghost h_g1 = __frame1.fields@;
        proof {
            h_d = __frame1.chain(); h_fld = sts(h_g1);
            if __vx_tail is Ok {
            assert(h_d.drop_last() =~= __frame1.parent.chain());
            assert(has_resolved(__frame1.parent)); assert(has_resolved(__frame1.fields));
            let h_f2 = final(h_f0.fields)@;
            assert(h_f0.fut() == __frame1.fut()); assert(h_f0.fut()->In_3 == h_f0.fin()); assert(__frame1.fut()->In_3 == __frame1.fin());
            assert(ends(h_f1) == ends(h_g1)); assert(ends(h_f1).len() == 2); assert(ends(h_g1).len() == h_g1.len()); assert(ends(h_f2) == ends(h_g1)); assert(ends(h_f2).len() == h_f2.len());
            assert(has_resolved(h_f2[0])); assert(ends(h_f1)[0] == final(h_f1[0]).st());
            assert(has_resolved(h_f2[1])); assert(ends(h_f1)[1] == final(h_f1[1]).st());
            assert(ends(h_f2) =~= sts(h_f2)); assert(sts(h_f2) == h_fld);
            assert(o.st() == h_fld[0]);
            assert(args.st() == h_fld[1]);
            h_sgot = None;
            assert(run_rel(start_G11(h_c1, h_r1), sub_G11(), Ok((h_d, h_sgot))));
        } }
@at end
        proof {
            assert(kept_G11(h_fld, h_sgot)); assert(h_d.drop_last() == __frame.chain());
            let x = (*__out)->0;
            assert(value_G11(h_fld, h_sgot, x.o, x.args));
        }

@mod m9
@raw
use super::vals::*;

@raw
// ======== G12 ========

@item gen::G12
@raw
pub open spec fn info_G12() -> InfoV { InfoV {
    names: seq![(seq![45u8, 45u8, 97u8], (0 + ArgAttrs::REQUIRE_VALUE.0) as u32), (seq![45u8, 45u8, 98u8], (1 + ArgAttrs::REQUIRE_VALUE.0) as u32), (seq![45u8, 45u8, 99u8], (2 + ArgAttrs::REQUIRE_VALUE.0) as u32), (seq![45u8, 45u8, 100u8], (3 + ArgAttrs::REQUIRE_VALUE.0) as u32)],
    pos: Seq::<u32>::empty(),
    descs: seq![seq![45u8, 45u8, 97u8, 32u8, 60u8, 65u8, 62u8], seq![45u8, 45u8, 98u8, 32u8, 60u8, 66u8, 62u8], seq![45u8, 45u8, 99u8, 32u8, 60u8, 67u8, 62u8], seq![45u8, 45u8, 100u8, 32u8, 60u8, 68u8, 62u8]],
    subs: None } }
pub open spec fn entry_G12() -> Entry { Entry { cmd: false, name: Seq::<char>::empty(), info: info_G12(), fields: seq![PlaceSt { kind: PKind::Set, parse: parse_fn::<VxParser<u8>>(), vals: None }, PlaceSt { kind: PKind::Set, parse: parse_fn::<VxParser<String>>(), vals: None }, PlaceSt { kind: PKind::Set, parse: parse_fn::<VxParser<u8>>(), vals: None }, PlaceSt { kind: PKind::Many, parse: parse_fn::<VxParser<u8>>(), vals: None }] } }
/// The end of parsing finds constraint broken, and says so.
pub open spec fn broken_G12(f: Seq<PlaceSt>, got: Option<Val>, e: ErrV) -> bool {
    ||| false
}
pub open spec fn kept_G12(f: Seq<PlaceSt>, got: Option<Val>) -> bool {
    &&& true
}
pub open spec fn value_G12(f: Seq<PlaceSt>, got: Option<Val>, x_a: u8, x_b: String, x_c: Option<u8>, x_d: Vec<u8>) -> bool {
    &&& true
    &&& match f[0].vals { None => step(f[0], Some(seq![49u8]))->Ok_0.vals == Some(seq![val(x_a)]), Some(s) => s == seq![val(x_a)] }
    &&& match f[1].vals { None => step(f[1], Some(Seq::<u8>::empty()))->Ok_0.vals == Some(seq![val(x_b)]), Some(s) => s == seq![val(x_b)] }
    &&& match f[2].vals { None => x_c matches Some(y) && seq![val(y)] == seq![val::<u8>(5)], Some(s) => x_c matches Some(y) && s == seq![val(y)] }
    &&& match f[3].vals { None => step(f[3], Some(seq![49u8]))->Ok_0.vals == Some(vals(x_d@)), Some(s) => s == vals(x_d@) }
}
pub type End_G12 = core::result::Result<(Seq<Entry>, Option<Val>), ErrV>;
pub open spec fn start_G12(c: Seq<Entry>, rest: Seq<B>) -> Cur { Cur { c: c.push(entry_G12()), next: 0, rest } }
pub open spec fn sub_G12() -> Option<SubRel> { None }
// @owner C05
pub proof fn facts_G12()
    ensures wf_entry(entry_G12())
{
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(0, (0 + ArgAttrs::REQUIRE_VALUE.0) as u32); assert((0 + ArgAttrs::REQUIRE_VALUE.0) as u32 == (0 + ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32)) as u32) by (compute);
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(1, (0 + ArgAttrs::REQUIRE_VALUE.0) as u32); assert((1 + ArgAttrs::REQUIRE_VALUE.0) as u32 == (1 + ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32)) as u32) by (compute);
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(2, (0 + ArgAttrs::REQUIRE_VALUE.0) as u32); assert((2 + ArgAttrs::REQUIRE_VALUE.0) as u32 == (2 + ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32)) as u32) by (compute);
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(3, (0 + ArgAttrs::REQUIRE_VALUE.0) as u32); assert((3 + ArgAttrs::REQUIRE_VALUE.0) as u32 == (3 + ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32)) as u32) by (compute);
    assert(valid_utf8(seq![45u8, 45u8, 97u8])) by (compute);
    assert(valid_utf8(seq![45u8, 45u8, 98u8])) by (compute);
    assert(valid_utf8(seq![45u8, 45u8, 99u8])) by (compute);
    assert(valid_utf8(seq![45u8, 45u8, 100u8])) by (compute);
}
// @owner C05 C11
pub proof fn table_G12()
    ensures sorted(seq![seq![45u8, 45u8, 97u8], seq![45u8, 45u8, 98u8], seq![45u8, 45u8, 99u8], seq![45u8, 45u8, 100u8]]), terminated(seq![45u8, 45u8, 97u8, 32u8, 60u8, 65u8, 62u8, 0u8, 45u8, 45u8, 98u8, 32u8, 60u8, 66u8, 62u8, 0u8, 45u8, 45u8, 99u8, 32u8, 60u8, 67u8, 62u8, 0u8, 45u8, 45u8, 100u8, 32u8, 60u8, 68u8, 62u8, 0u8]) == info_G12().descs
{
    assert(adjacent(seq![seq![45u8, 45u8, 97u8], seq![45u8, 45u8, 98u8], seq![45u8, 45u8, 99u8], seq![45u8, 45u8, 100u8]])) by (compute);
    lemma_adjacent(seq![seq![45u8, 45u8, 97u8], seq![45u8, 45u8, 98u8], seq![45u8, 45u8, 99u8], seq![45u8, 45u8, 100u8]]);
    assert(terminated(seq![45u8, 45u8, 97u8, 32u8, 60u8, 65u8, 62u8, 0u8, 45u8, 45u8, 98u8, 32u8, 60u8, 66u8, 62u8, 0u8, 45u8, 45u8, 99u8, 32u8, 60u8, 67u8, 62u8, 0u8, 45u8, 45u8, 100u8, 32u8, 60u8, 68u8, 62u8, 0u8]) == info_G12().descs) by (compute);
}
/// Assumed: the default text of the definition is a value of its type (documented; it would panic).
#[verifier::external_body]
pub proof fn default_G12_a()
    ensures step(PlaceSt { kind: PKind::Set, parse: parse_fn::<VxParser<u8>>(), vals: None }, Some(seq![49u8])) is Ok
{}
/// Assumed: the default text of the definition is a value of its type (documented; it would panic).
#[verifier::external_body]
pub proof fn default_G12_b()
    ensures step(PlaceSt { kind: PKind::Set, parse: parse_fn::<VxParser<String>>(), vals: None }, Some(Seq::<u8>::empty())) is Ok
{}
/// Assumed: the default text of the definition is a value of its type (documented; it would panic).
#[verifier::external_body]
pub proof fn default_G12_d()
    ensures step(PlaceSt { kind: PKind::Many, parse: parse_fn::<VxParser<u8>>(), vals: None }, Some(seq![49u8])) is Ok
{}

@impl gen::<G12 as Args>
    open spec fn rel(c: Seq<Entry>, rest: Seq<B>, r: core::result::Result<(Seq<Entry>, Self), ErrV>) -> bool {
        exists|q: End_G12| #[trigger] run_rel(start_G12(c, rest), sub_G12(), q) && (match q {
        Err(e) => r matches Err(e2) && e2 == e,
        Ok((d, got)) => match r {
            Err(e) => broken_G12(d.last().fields, got, e),
            Ok((c2, x)) => c2 == d.drop_last() && kept_G12(d.last().fields, got) && (value_G12(d.last().fields, got, x.a, x.b, x.c, x.d)),
        } })
    }
    open spec fn info() -> InfoV { info_G12() }
@fn gen::<G12 as Args>::__INFO
@owner C05 C11
@attr #[verifier::spinoff_prover]
@at start
        proof { vx_flags(); table_G12(); }
@at after vx_static
        proof { assert(keys(__vx_tail.named_attrs@) =~= seq![seq![45u8, 45u8, 97u8], seq![45u8, 45u8, 98u8], seq![45u8, 45u8, 99u8], seq![45u8, 45u8, 100u8]]); assert(__vx_tail.v().names =~= info_G12().names); }
@fn gen::<G12 as Args>::__parse
@owner C08 C09 C12
@attr #[verifier::spinoff_prover]
@at start
        let ghost (h_c1, h_r1) = (__frame.chain(), __parser.rest());
        let ghost mut h_fld = Seq::<PlaceSt>::empty();
        let ghost mut h_d = Seq::<Entry>::empty();
        let ghost mut h_sgot = None::<Val>;
@at before vx_run
        let ghost (h_f0, h_f1) = (__frame1, __frame1.fields@);
        proof {
            facts_G12(); lemma_wf_push(h_c1, entry_G12());
            assert(sts(h_f1) =~= entry_G12().fields);
            assert(h_f0.entry() =~~= entry_G12()); assert(h_f0.chain() =~~= h_c1.push(entry_G12()));
            assert(cur(h_f0, h_r1) =~~= start_G12(h_c1, h_r1));
        }
@at after vx_run
        let ghost h_g1 = __frame1.fields@;
        proof {
            h_d = __frame1.chain(); h_fld = sts(h_g1);
            if __vx_tail is Ok {
            assert(h_d.drop_last() =~= __frame1.parent.chain());
            assert(has_resolved(__frame1.parent)); assert(has_resolved(__frame1.fields));
            let h_f2 = final(h_f0.fields)@;
            assert(h_f0.fut() == __frame1.fut()); assert(h_f0.fut()->In_3 == h_f0.fin()); assert(__frame1.fut()->In_3 == __frame1.fin());
            assert(ends(h_f1) == ends(h_g1)); assert(ends(h_f1).len() == 4); assert(ends(h_g1).len() == h_g1.len()); assert(ends(h_f2) == ends(h_g1)); assert(ends(h_f2).len() == h_f2.len());
            assert(has_resolved(h_f2[0])); assert(ends(h_f1)[0] == final(h_f1[0]).st());
            assert(has_resolved(h_f2[1])); assert(ends(h_f1)[1] == final(h_f1[1]).st());
            assert(has_resolved(h_f2[2])); assert(ends(h_f1)[2] == final(h_f1[2]).st());
            assert(has_resolved(h_f2[3])); assert(ends(h_f1)[3] == final(h_f1[3]).st());
            assert(ends(h_f2) =~= sts(h_f2)); assert(sts(h_f2) == h_fld);
            assert(a.st() == h_fld[0]);
            assert(b.st() == h_fld[1]);
            assert(c.st() == h_fld[2]);
            assert(d.st() == h_fld[3]);
            h_sgot = None;
            default_G12_a();
            default_G12_b();
            default_G12_d();
            assert(run_rel(start_G12(h_c1, h_r1), sub_G12(), Ok((h_d, h_sgot))));
        } }
@at end
        proof {
            assert(kept_G12(h_fld, h_sgot)); assert(h_d.drop_last() == __frame.chain());
            let x = (*__out)->0;
            assert(value_G12(h_fld, h_sgot, x.a, x.b, x.c, x.d));
        }

@mod m10
@raw
use super::vals::*;

@raw
// ======== G13 ========

@item gen::G13
@raw
pub open spec fn info_G13() -> InfoV { InfoV {
    names: seq![(seq![45u8, 45u8, 101u8], (0 + ArgAttrs::REQUIRE_VALUE.0) as u32), (seq![45u8, 45u8, 102u8], (1 + ArgAttrs::REQUIRE_VALUE.0) as u32)],
    pos: seq![(2 + ArgAttrs::REQUIRE_VALUE.0) as u32, (3 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0) as u32],
    descs: seq![seq![45u8, 45u8, 101u8, 32u8, 60u8, 69u8, 62u8], seq![45u8, 45u8, 102u8, 32u8, 60u8, 70u8, 62u8], seq![91u8, 71u8, 93u8], seq![91u8, 72u8, 93u8, 46u8, 46u8, 46u8]],
    subs: None } }
pub open spec fn entry_G13() -> Entry { Entry { cmd: false, name: Seq::<char>::empty(), info: info_G13(), fields: seq![PlaceSt { kind: PKind::Set, parse: parse_fn::<VxParser<Color>>(), vals: None }, PlaceSt { kind: PKind::Many, parse: parse_fn::<VxParser<u8>>(), vals: None }, PlaceSt { kind: PKind::Set, parse: parse_fn::<VxParser<i32>>(), vals: None }, PlaceSt { kind: PKind::Many, parse: parse_fn::<VxParser<u8>>(), vals: None }] } }
/// The end of parsing finds constraint broken, and says so.
pub open spec fn broken_G13(f: Seq<PlaceSt>, got: Option<Val>, e: ErrV) -> bool {
    ||| false
}
pub open spec fn kept_G13(f: Seq<PlaceSt>, got: Option<Val>) -> bool {
    &&& true
}
pub open spec fn value_G13(f: Seq<PlaceSt>, got: Option<Val>, x_e: Color, x_f: Option<Vec<u8>>, x_g: i32, x_h: Vec<u8>) -> bool {
    &&& true
    &&& match f[0].vals { None => seq![val(x_e)] == seq![val::<Color>(Color::Auto)], Some(s) => s == seq![val(x_e)] }
    &&& match f[1].vals { None => x_f matches Some(y) && step(f[1], Some(seq![57u8]))->Ok_0.vals == Some(vals(y@)), Some(s) => x_f matches Some(y) && s == vals(y@) }
    &&& match f[2].vals { None => step(f[2], Some(seq![45u8, 51u8]))->Ok_0.vals == Some(seq![val(x_g)]), Some(s) => s == seq![val(x_g)] }
    &&& match f[3].vals { None => step(f[3], Some(seq![56u8]))->Ok_0.vals == Some(vals(x_h@)), Some(s) => s == vals(x_h@) }
}
pub type End_G13 = core::result::Result<(Seq<Entry>, Option<Val>), ErrV>;
pub open spec fn start_G13(c: Seq<Entry>, rest: Seq<B>) -> Cur { Cur { c: c.push(entry_G13()), next: 0, rest } }
pub open spec fn sub_G13() -> Option<SubRel> { None }
// @owner C05
pub proof fn facts_G13()
    ensures wf_entry(entry_G13())
{
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(0, (0 + ArgAttrs::REQUIRE_VALUE.0) as u32); assert((0 + ArgAttrs::REQUIRE_VALUE.0) as u32 == (0 + ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32)) as u32) by (compute);
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(1, (0 + ArgAttrs::REQUIRE_VALUE.0) as u32); assert((1 + ArgAttrs::REQUIRE_VALUE.0) as u32 == (1 + ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32)) as u32) by (compute);
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(2, (0 + ArgAttrs::REQUIRE_VALUE.0) as u32); assert((2 + ArgAttrs::REQUIRE_VALUE.0) as u32 == (2 + ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32)) as u32) by (compute);
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(3, (0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0) as u32); assert((3 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0) as u32 == (3 + ((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0) as u32)) as u32) by (compute);
    assert(valid_utf8(seq![45u8, 45u8, 101u8])) by (compute);
    assert(valid_utf8(seq![45u8, 45u8, 102u8])) by (compute);
}
// @owner C05 C11
pub proof fn table_G13()
    ensures sorted(seq![seq![45u8, 45u8, 101u8], seq![45u8, 45u8, 102u8]]), terminated(seq![45u8, 45u8, 101u8, 32u8, 60u8, 69u8, 62u8, 0u8, 45u8, 45u8, 102u8, 32u8, 60u8, 70u8, 62u8, 0u8, 91u8, 71u8, 93u8, 0u8, 91u8, 72u8, 93u8, 46u8, 46u8, 46u8, 0u8]) == info_G13().descs
{
    assert(adjacent(seq![seq![45u8, 45u8, 101u8], seq![45u8, 45u8, 102u8]])) by (compute);
    lemma_adjacent(seq![seq![45u8, 45u8, 101u8], seq![45u8, 45u8, 102u8]]);
    assert(terminated(seq![45u8, 45u8, 101u8, 32u8, 60u8, 69u8, 62u8, 0u8, 45u8, 45u8, 102u8, 32u8, 60u8, 70u8, 62u8, 0u8, 91u8, 71u8, 93u8, 0u8, 91u8, 72u8, 93u8, 46u8, 46u8, 46u8, 0u8]) == info_G13().descs) by (compute);
}
/// Assumed: the default text of the definition is a value of its type (documented; it would panic).
#[verifier::external_body]
pub proof fn default_G13_f()
    ensures step(PlaceSt { kind: PKind::Many, parse: parse_fn::<VxParser<u8>>(), vals: None }, Some(seq![57u8])) is Ok
{}
/// Assumed: the default text of the definition is a value of its type (documented; it would panic).
#[verifier::external_body]
pub proof fn default_G13_g()
    ensures step(PlaceSt { kind: PKind::Set, parse: parse_fn::<VxParser<i32>>(), vals: None }, Some(seq![45u8, 51u8])) is Ok
{}
/// Assumed: the default text of the definition is a value of its type (documented; it would panic).
#[verifier::external_body]
pub proof fn default_G13_h()
    ensures step(PlaceSt { kind: PKind::Many, parse: parse_fn::<VxParser<u8>>(), vals: None }, Some(seq![56u8])) is Ok
{}

@impl gen::<G13 as Args>
    open spec fn rel(c: Seq<Entry>, rest: Seq<B>, r: core::result::Result<(Seq<Entry>, Self), ErrV>) -> bool {
        exists|q: End_G13| #[trigger] run_rel(start_G13(c, rest), sub_G13(), q) && (match q {
        Err(e) => r matches Err(e2) && e2 == e,
        Ok((d, got)) => match r {
            Err(e) => broken_G13(d.last().fields, got, e),
            Ok((c2, x)) => c2 == d.drop_last() && kept_G13(d.last().fields, got) && (value_G13(d.last().fields, got, x.e, x.f, x.g, x.h)),
        } })
    }
    open spec fn info() -> InfoV { info_G13() }
@fn gen::<G13 as Args>::__INFO
@owner C05 C11
@attr #[verifier::spinoff_prover]
@at start
        proof { vx_flags(); table_G13(); }
@at after vx_static
        proof { assert(keys(__vx_tail.named_attrs@) =~= seq![seq![45u8, 45u8, 101u8], seq![45u8, 45u8, 102u8]]); assert(__vx_tail.v().names =~= info_G13().names); }
@fn gen::<G13 as Args>::__parse
@owner C08 C09 C12
@attr #[verifier::spinoff_prover]
@at start
        let ghost (h_c1, h_r1) = (__frame.chain(), __parser.rest());
        let ghost mut h_fld = Seq::<PlaceSt>::empty();
        let ghost mut h_d = Seq::<Entry>::empty();
        let ghost mut h_sgot = None::<Val>;
@at before vx_run
        let ghost (h_f0, h_f1) = (__frame1, __frame1.fields@);
        proof {
            facts_G13(); lemma_wf_push(h_c1, entry_G13());
            assert(sts(h_f1) =~= entry_G13().fields);
            assert(h_f0.entry() =~~= entry_G13()); assert(h_f0.chain() =~~= h_c1.push(entry_G13()));
            assert(cur(h_f0, h_r1) =~~= start_G13(h_c1, h_r1));
        }
@at after vx_run
        let ghost h_g1 = __frame1.fields@;
        proof {
            h_d = __frame1.chain(); h_fld = sts(h_g1);
            if __vx_tail is Ok {
            assert(h_d.drop_last() =~= __frame1.parent.chain());
            assert(has_resolved(__frame1.parent)); assert(has_resolved(__frame1.fields));
            let h_f2 = final(h_f0.fields)@;
            assert(h_f0.fut() == __frame1.fut()); assert(h_f0.fut()->In_3 == h_f0.fin()); assert(__frame1.fut()->In_3 == __frame1.fin());
            assert(ends(h_f1) == ends(h_g1)); assert(ends(h_f1).len() == 4); assert(ends(h_g1).len() == h_g1.len()); assert(ends(h_f2) == ends(h_g1)); assert(ends(h_f2).len() == h_f2.len());
            assert(has_resolved(h_f2[0])); assert(ends(h_f1)[0] == final(h_f1[0]).st());
            assert(has_resolved(h_f2[1])); assert(ends(h_f1)[1] == final(h_f1[1]).st());
            assert(has_resolved(h_f2[2])); assert(ends(h_f1)[2] == final(h_f1[2]).st());
            assert(has_resolved(h_f2[3])); assert(ends(h_f1)[3] == final(h_f1[3]).st());
            assert(ends(h_f2) =~= sts(h_f2)); assert(sts(h_f2) == h_fld);
            assert(e.st() == h_fld[0]);
            assert(f.st() == h_fld[1]);
            assert(g.st() == h_fld[2]);
            assert(h.st() == h_fld[3]);
            h_sgot = None;
            default_G13_f();
            default_G13_g();
            default_G13_h();
            assert(run_rel(start_G13(h_c1, h_r1), sub_G13(), Ok((h_d, h_sgot))));
        } }
@at end
        proof {
            assert(kept_G13(h_fld, h_sgot)); assert(h_d.drop_last() == __frame.chain());
            let x = (*__out)->0;
            assert(value_G13(h_fld, h_sgot, x.e, x.f, x.g, x.h));
        }

@mod m11
@raw
use super::vals::*;

@raw
// ======== G14 ========

@item gen::G14
@raw
pub open spec fn info_G14() -> InfoV { InfoV {
    names: seq![(seq![97u8], (0) as u32), (seq![98u8], (1) as u32), (seq![99u8], (2 + ArgAttrs::REQUIRE_VALUE.0) as u32), (seq![100u8], (3 + ArgAttrs::REQUIRE_VALUE.0) as u32), (seq![101u8], (4 + ArgAttrs::REQUIRE_VALUE.0) as u32)],
    pos: seq![(5 + ArgAttrs::REQUIRE_VALUE.0) as u32, (6 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0) as u32],
    descs: seq![seq![45u8, 97u8], seq![45u8, 98u8], seq![45u8, 99u8, 32u8, 60u8, 67u8, 62u8], seq![45u8, 100u8, 32u8, 60u8, 68u8, 62u8], seq![45u8, 101u8, 32u8, 60u8, 69u8, 62u8], seq![91u8, 80u8, 93u8], seq![91u8, 81u8, 93u8, 46u8, 46u8, 46u8]],
    subs: None } }
pub open spec fn entry_G14() -> Entry { Entry { cmd: false, name: Seq::<char>::empty(), info: info_G14(), fields: seq![FlagPlace(None).st(), FlagPlace(None).st(), PlaceSt { kind: PKind::Set, parse: parse_fn::<VxParser<u8>>(), vals: None }, PlaceSt { kind: PKind::Set, parse: parse_fn::<VxParser<u8>>(), vals: None }, PlaceSt { kind: PKind::Many, parse: parse_fn::<VxParser<u8>>(), vals: None }, PlaceSt { kind: PKind::Set, parse: parse_fn::<VxParser<String>>(), vals: None }, PlaceSt { kind: PKind::Many, parse: parse_fn::<VxParser<String>>(), vals: None }] } }
/// The end of parsing finds constraint broken, and says so.
pub open spec fn broken_G14(f: Seq<PlaceSt>, got: Option<Val>, e: ErrV) -> bool {
    ||| false
    ||| f[0].vals is Some && !(f[1].vals is Some) && e == (ErrV { arg: Some(seq![45u8, 98u8]), ..err0(ErrorKind::ConstraintRequired) })
    ||| f[0].vals is Some && !(f[2].vals is Some) && e == (ErrV { arg: Some(seq![45u8, 99u8, 32u8, 60u8, 67u8, 62u8]), ..err0(ErrorKind::ConstraintRequired) })
    ||| f[1].vals is Some && !(f[5].vals is Some) && e == (ErrV { arg: Some(seq![91u8, 80u8, 93u8]), ..err0(ErrorKind::ConstraintRequired) })
    ||| f[2].vals is Some && f[3].vals is Some && e == (ErrV { arg: Some(seq![45u8, 99u8, 32u8, 60u8, 67u8, 62u8]), ..err0(ErrorKind::ConstraintConflict) })
    ||| f[3].vals is Some && f[4].vals is Some && e == (ErrV { arg: Some(seq![45u8, 100u8, 32u8, 60u8, 68u8, 62u8]), ..err0(ErrorKind::ConstraintConflict) })
    ||| f[3].vals is Some && f[0].vals is Some && e == (ErrV { arg: Some(seq![45u8, 100u8, 32u8, 60u8, 68u8, 62u8]), ..err0(ErrorKind::ConstraintConflict) })
    ||| !(f[4].vals is Some) && e == (ErrV { arg: Some(seq![45u8, 101u8, 32u8, 60u8, 69u8, 62u8]), ..err0(ErrorKind::MissingRequiredArgument) })
    ||| f[5].vals is Some && !(f[2].vals is Some) && e == (ErrV { arg: Some(seq![45u8, 99u8, 32u8, 60u8, 67u8, 62u8]), ..err0(ErrorKind::ConstraintRequired) })
    ||| f[6].vals is Some && f[0].vals is Some && e == (ErrV { arg: Some(seq![91u8, 81u8, 93u8, 46u8, 46u8, 46u8]), ..err0(ErrorKind::ConstraintConflict) })
}
pub open spec fn kept_G14(f: Seq<PlaceSt>, got: Option<Val>) -> bool {
    &&& true
    &&& !(f[0].vals is Some && !(f[1].vals is Some))
    &&& !(f[0].vals is Some && !(f[2].vals is Some))
    &&& !(f[1].vals is Some && !(f[5].vals is Some))
    &&& !(f[2].vals is Some && f[3].vals is Some)
    &&& !(f[3].vals is Some && f[4].vals is Some)
    &&& !(f[3].vals is Some && f[0].vals is Some)
    &&& !(!(f[4].vals is Some))
    &&& !(f[5].vals is Some && !(f[2].vals is Some))
    &&& !(f[6].vals is Some && f[0].vals is Some)
}
pub open spec fn value_G14(f: Seq<PlaceSt>, got: Option<Val>, x_a: bool, x_b: bool, x_c: Option<u8>, x_d: u8, x_e: Vec<u8>, x_p: Option<String>, x_q: Vec<String>) -> bool {
    &&& true
    &&& match f[0].vals { None => x_a == false, Some(s) => s == seq![val(x_a)] }
    &&& match f[1].vals { None => x_b == false, Some(s) => s == seq![val(x_b)] }
    &&& match f[2].vals { None => x_c is None, Some(s) => x_c matches Some(y) && s == seq![val(y)] }
    &&& match f[3].vals { None => step(f[3], Some(seq![48u8]))->Ok_0.vals == Some(seq![val(x_d)]), Some(s) => s == seq![val(x_d)] }
    &&& match f[4].vals { None => x_e@ == Seq::<u8>::empty(), Some(s) => s == vals(x_e@) }
    &&& match f[5].vals { None => x_p is None, Some(s) => x_p matches Some(y) && s == seq![val(y)] }
    &&& match f[6].vals { None => x_q@ == Seq::<String>::empty(), Some(s) => s == vals(x_q@) }
}
pub type End_G14 = core::result::Result<(Seq<Entry>, Option<Val>), ErrV>;
pub open spec fn start_G14(c: Seq<Entry>, rest: Seq<B>) -> Cur { Cur { c: c.push(entry_G14()), next: 0, rest } }
pub open spec fn sub_G14() -> Option<SubRel> { None }
// @owner C05
pub proof fn facts_G14()
    ensures wf_entry(entry_G14())
{
    assert((((0) as u32) & 0xffu32) == 0 && ((0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(0, (0) as u32); assert((0) as u32 == (0 + ((0) as u32)) as u32) by (compute);
    assert((((0) as u32) & 0xffu32) == 0 && ((0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(1, (0) as u32); assert((1) as u32 == (1 + ((0) as u32)) as u32) by (compute);
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(2, (0 + ArgAttrs::REQUIRE_VALUE.0) as u32); assert((2 + ArgAttrs::REQUIRE_VALUE.0) as u32 == (2 + ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32)) as u32) by (compute);
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(3, (0 + ArgAttrs::REQUIRE_VALUE.0) as u32); assert((3 + ArgAttrs::REQUIRE_VALUE.0) as u32 == (3 + ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32)) as u32) by (compute);
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(4, (0 + ArgAttrs::REQUIRE_VALUE.0) as u32); assert((4 + ArgAttrs::REQUIRE_VALUE.0) as u32 == (4 + ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32)) as u32) by (compute);
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(5, (0 + ArgAttrs::REQUIRE_VALUE.0) as u32); assert((5 + ArgAttrs::REQUIRE_VALUE.0) as u32 == (5 + ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32)) as u32) by (compute);
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(6, (0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0) as u32); assert((6 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0) as u32 == (6 + ((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::VAR_ARG.0) as u32)) as u32) by (compute);
    assert(valid_utf8(seq![97u8])) by (compute);
    assert(valid_utf8(seq![98u8])) by (compute);
    assert(valid_utf8(seq![99u8])) by (compute);
    assert(valid_utf8(seq![100u8])) by (compute);
    assert(valid_utf8(seq![101u8])) by (compute);
}
// @owner C05 C11
pub proof fn table_G14()
    ensures sorted(seq![seq![97u8], seq![98u8], seq![99u8], seq![100u8], seq![101u8]]), terminated(seq![45u8, 97u8, 0u8, 45u8, 98u8, 0u8, 45u8, 99u8, 32u8, 60u8, 67u8, 62u8, 0u8, 45u8, 100u8, 32u8, 60u8, 68u8, 62u8, 0u8, 45u8, 101u8, 32u8, 60u8, 69u8, 62u8, 0u8, 91u8, 80u8, 93u8, 0u8, 91u8, 81u8, 93u8, 46u8, 46u8, 46u8, 0u8]) == info_G14().descs
{
    assert(adjacent(seq![seq![97u8], seq![98u8], seq![99u8], seq![100u8], seq![101u8]])) by (compute);
    lemma_adjacent(seq![seq![97u8], seq![98u8], seq![99u8], seq![100u8], seq![101u8]]);
    assert(terminated(seq![45u8, 97u8, 0u8, 45u8, 98u8, 0u8, 45u8, 99u8, 32u8, 60u8, 67u8, 62u8, 0u8, 45u8, 100u8, 32u8, 60u8, 68u8, 62u8, 0u8, 45u8, 101u8, 32u8, 60u8, 69u8, 62u8, 0u8, 91u8, 80u8, 93u8, 0u8, 91u8, 81u8, 93u8, 46u8, 46u8, 46u8, 0u8]) == info_G14().descs) by (compute);
}
/// Assumed: the default text of the definition is a value of its type (documented; it would panic).
#[verifier::external_body]
pub proof fn default_G14_d()
    ensures step(PlaceSt { kind: PKind::Set, parse: parse_fn::<VxParser<u8>>(), vals: None }, Some(seq![48u8])) is Ok
{}

@impl gen::<G14 as Args>
    open spec fn rel(c: Seq<Entry>, rest: Seq<B>, r: core::result::Result<(Seq<Entry>, Self), ErrV>) -> bool {
        exists|q: End_G14| #[trigger] run_rel(start_G14(c, rest), sub_G14(), q) && (match q {
        Err(e) => r matches Err(e2) && e2 == e,
        Ok((d, got)) => match r {
            Err(e) => broken_G14(d.last().fields, got, e),
            Ok((c2, x)) => c2 == d.drop_last() && kept_G14(d.last().fields, got) && (value_G14(d.last().fields, got, x.a, x.b, x.c, x.d, x.e, x.p, x.q)),
        } })
    }
    open spec fn info() -> InfoV { info_G14() }
@fn gen::<G14 as Args>::__INFO
@owner C05 C11
@attr #[verifier::spinoff_prover]
@at start
        proof { vx_flags(); table_G14(); }
@at after vx_static
        proof { assert(keys(__vx_tail.named_attrs@) =~= seq![seq![97u8], seq![98u8], seq![99u8], seq![100u8], seq![101u8]]); assert(__vx_tail.v().names =~= info_G14().names); }
@fn gen::<G14 as Args>::__parse
@owner C08 C09 C12
@attr #[verifier::spinoff_prover]
@at start
        let ghost (h_c1, h_r1) = (__frame.chain(), __parser.rest());
        let ghost mut h_fld = Seq::<PlaceSt>::empty();
        let ghost mut h_d = Seq::<Entry>::empty();
        let ghost mut h_sgot = None::<Val>;
@at before vx_run
        let ghost (h_f0, h_f1) = (__frame1, __frame1.fields@);
        proof {
            facts_G14(); lemma_wf_push(h_c1, entry_G14());
            assert(sts(h_f1) =~= entry_G14().fields);
            assert(h_f0.entry() =~~= entry_G14()); assert(h_f0.chain() =~~= h_c1.push(entry_G14()));
            assert(cur(h_f0, h_r1) =~~= start_G14(h_c1, h_r1));
        }
@at after vx_run
        let ghost h_g1 = __frame1.fields@;
        proof {
            h_d = __frame1.chain(); h_fld = sts(h_g1);
            if __vx_tail is Ok {
            assert(h_d.drop_last() =~= __frame1.parent.chain());
            assert(has_resolved(__frame1.parent)); assert(has_resolved(__frame1.fields));
            let h_f2 = final(h_f0.fields)@;
            assert(h_f0.fut() == __frame1.fut()); assert(h_f0.fut()->In_3 == h_f0.fin()); assert(__frame1.fut()->In_3 == __frame1.fin());
            assert(ends(h_f1) == ends(h_g1)); assert(ends(h_f1).len() == 7); assert(ends(h_g1).len() == h_g1.len()); assert(ends(h_f2) == ends(h_g1)); assert(ends(h_f2).len() == h_f2.len());
            assert(has_resolved(h_f2[0])); assert(ends(h_f1)[0] == final(h_f1[0]).st());
            assert(has_resolved(h_f2[1])); assert(ends(h_f1)[1] == final(h_f1[1]).st());
            assert(has_resolved(h_f2[2])); assert(ends(h_f1)[2] == final(h_f1[2]).st());
            assert(has_resolved(h_f2[3])); assert(ends(h_f1)[3] == final(h_f1[3]).st());
            assert(has_resolved(h_f2[4])); assert(ends(h_f1)[4] == final(h_f1[4]).st());
            assert(has_resolved(h_f2[5])); assert(ends(h_f1)[5] == final(h_f1[5]).st());
            assert(has_resolved(h_f2[6])); assert(ends(h_f1)[6] == final(h_f1[6]).st());
            assert(ends(h_f2) =~= sts(h_f2)); assert(sts(h_f2) == h_fld);
            assert(a.st() == h_fld[0]);
            assert(b.st() == h_fld[1]);
            assert(c.st() == h_fld[2]);
            assert(d.st() == h_fld[3]);
            assert(e.st() == h_fld[4]);
            assert(p.st() == h_fld[5]);
            assert(q.st() == h_fld[6]);
            h_sgot = None;
            default_G14_d();
            assert(run_rel(start_G14(h_c1, h_r1), sub_G14(), Ok((h_d, h_sgot))));
        } }
@at end
        proof {
            assert(kept_G14(h_fld, h_sgot)); assert(h_d.drop_last() == __frame.chain());
            let x = (*__out)->0;
            assert(value_G14(h_fld, h_sgot, x.a, x.b, x.c, x.d, x.e, x.p, x.q));
        }

@mod m12
@raw
use super::vals::*;

@raw
// ======== G15 ========

@item gen::G15
@raw
pub open spec fn info_G15() -> InfoV { InfoV {
    names: seq![(seq![45u8, 45u8, 97u8], (0 + ArgAttrs::REQUIRE_EQ.0) as u32), (seq![98u8], (1) as u32), (seq![99u8], (2 + ArgAttrs::REQUIRE_VALUE.0) as u32), (seq![100u8], (3 + ArgAttrs::REQUIRE_VALUE.0) as u32)],
    pos: Seq::<u32>::empty(),
    descs: seq![seq![45u8, 45u8, 97u8, 91u8, 61u8, 60u8, 65u8, 62u8, 93u8], seq![45u8, 98u8], seq![45u8, 99u8, 32u8, 60u8, 67u8, 62u8], seq![45u8, 100u8, 32u8, 60u8, 68u8, 62u8]],
    subs: None } }
pub open spec fn entry_G15() -> Entry { Entry { cmd: false, name: Seq::<char>::empty(), info: info_G15(), fields: seq![PlaceSt { kind: PKind::OptSet, parse: parse_fn::<VxParser<u8>>(), vals: None }, FlagPlace(None).st(), PlaceSt { kind: PKind::Set, parse: parse_fn::<VxParser<u8>>(), vals: None }, PlaceSt { kind: PKind::Many, parse: parse_fn::<VxParser<u8>>(), vals: None }] } }
/// The end of parsing finds constraint broken, and says so.
pub open spec fn broken_G15(f: Seq<PlaceSt>, got: Option<Val>, e: ErrV) -> bool {
    ||| false
    ||| f[0].vals is Some && !(f[1].vals is Some) && e == (ErrV { arg: Some(seq![45u8, 98u8]), ..err0(ErrorKind::ConstraintRequired) })
    ||| !(f[0].vals is Some) && e == (ErrV { arg: Some(seq![45u8, 45u8, 97u8, 91u8, 61u8, 60u8, 65u8, 62u8, 93u8]), ..err0(ErrorKind::MissingRequiredArgument) })
    ||| f[1].vals is Some && (f[0].vals is Some || f[2].vals is Some || f[3].vals is Some) && e == (ErrV { arg: Some(seq![45u8, 98u8]), ..err0(ErrorKind::ConstraintExclusive) })
    ||| f[2].vals is Some && !(f[3].vals is Some) && e == (ErrV { arg: Some(seq![45u8, 100u8, 32u8, 60u8, 68u8, 62u8]), ..err0(ErrorKind::ConstraintRequired) })
    ||| f[3].vals is Some && (f[0].vals is Some || f[1].vals is Some || f[2].vals is Some) && e == (ErrV { arg: Some(seq![45u8, 100u8, 32u8, 60u8, 68u8, 62u8]), ..err0(ErrorKind::ConstraintExclusive) })
    ||| !(f[3].vals is Some) && e == (ErrV { arg: Some(seq![45u8, 100u8, 32u8, 60u8, 68u8, 62u8]), ..err0(ErrorKind::MissingRequiredArgument) })
}
pub open spec fn kept_G15(f: Seq<PlaceSt>, got: Option<Val>) -> bool {
    &&& true
    &&& !(f[0].vals is Some && !(f[1].vals is Some))
    &&& !(!(f[0].vals is Some))
    &&& !(f[1].vals is Some && (f[0].vals is Some || f[2].vals is Some || f[3].vals is Some))
    &&& !(f[2].vals is Some && !(f[3].vals is Some))
    &&& !(f[3].vals is Some && (f[0].vals is Some || f[1].vals is Some || f[2].vals is Some))
    &&& !(!(f[3].vals is Some))
}
pub open spec fn value_G15(f: Seq<PlaceSt>, got: Option<Val>, x_a: Option<Option<u8>>, x_b: bool, x_c: u8, x_d: Option<Vec<u8>>) -> bool {
    &&& true
    &&& match f[0].vals { None => x_a is None, Some(s) => match x_a { None => false, Some(None) => s == Seq::<Val>::empty(), Some(Some(y)) => s == seq![val(y)] } }
    &&& match f[1].vals { None => x_b == false, Some(s) => s == seq![val(x_b)] }
    &&& match f[2].vals { None => step(f[2], Some(seq![51u8]))->Ok_0.vals == Some(seq![val(x_c)]), Some(s) => s == seq![val(x_c)] }
    &&& match f[3].vals { None => x_d is None, Some(s) => x_d matches Some(y) && s == vals(y@) }
}
pub type End_G15 = core::result::Result<(Seq<Entry>, Option<Val>), ErrV>;
pub open spec fn start_G15(c: Seq<Entry>, rest: Seq<B>) -> Cur { Cur { c: c.push(entry_G15()), next: 0, rest } }
pub open spec fn sub_G15() -> Option<SubRel> { None }
// @owner C05
pub proof fn facts_G15()
    ensures wf_entry(entry_G15())
{
    assert((((0 + ArgAttrs::REQUIRE_EQ.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_EQ.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(0, (0 + ArgAttrs::REQUIRE_EQ.0) as u32); assert((0 + ArgAttrs::REQUIRE_EQ.0) as u32 == (0 + ((0 + ArgAttrs::REQUIRE_EQ.0) as u32)) as u32) by (compute);
    assert((((0) as u32) & 0xffu32) == 0 && ((0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(1, (0) as u32); assert((1) as u32 == (1 + ((0) as u32)) as u32) by (compute);
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(2, (0 + ArgAttrs::REQUIRE_VALUE.0) as u32); assert((2 + ArgAttrs::REQUIRE_VALUE.0) as u32 == (2 + ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32)) as u32) by (compute);
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(3, (0 + ArgAttrs::REQUIRE_VALUE.0) as u32); assert((3 + ArgAttrs::REQUIRE_VALUE.0) as u32 == (3 + ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32)) as u32) by (compute);
    assert(valid_utf8(seq![45u8, 45u8, 97u8])) by (compute);
    assert(valid_utf8(seq![98u8])) by (compute);
    assert(valid_utf8(seq![99u8])) by (compute);
    assert(valid_utf8(seq![100u8])) by (compute);
}
// @owner C05 C11
pub proof fn table_G15()
    ensures sorted(seq![seq![45u8, 45u8, 97u8], seq![98u8], seq![99u8], seq![100u8]]), terminated(seq![45u8, 45u8, 97u8, 91u8, 61u8, 60u8, 65u8, 62u8, 93u8, 0u8, 45u8, 98u8, 0u8, 45u8, 99u8, 32u8, 60u8, 67u8, 62u8, 0u8, 45u8, 100u8, 32u8, 60u8, 68u8, 62u8, 0u8]) == info_G15().descs
{
    assert(adjacent(seq![seq![45u8, 45u8, 97u8], seq![98u8], seq![99u8], seq![100u8]])) by (compute);
    lemma_adjacent(seq![seq![45u8, 45u8, 97u8], seq![98u8], seq![99u8], seq![100u8]]);
    assert(terminated(seq![45u8, 45u8, 97u8, 91u8, 61u8, 60u8, 65u8, 62u8, 93u8, 0u8, 45u8, 98u8, 0u8, 45u8, 99u8, 32u8, 60u8, 67u8, 62u8, 0u8, 45u8, 100u8, 32u8, 60u8, 68u8, 62u8, 0u8]) == info_G15().descs) by (compute);
}
/// Assumed: the default text of the definition is a value of its type (documented; it would panic).
#[verifier::external_body]
pub proof fn default_G15_c()
    ensures step(PlaceSt { kind: PKind::Set, parse: parse_fn::<VxParser<u8>>(), vals: None }, Some(seq![51u8])) is Ok
{}

@impl gen::<G15 as Args>
    open spec fn rel(c: Seq<Entry>, rest: Seq<B>, r: core::result::Result<(Seq<Entry>, Self), ErrV>) -> bool {
        exists|q: End_G15| #[trigger] run_rel(start_G15(c, rest), sub_G15(), q) && (match q {
        Err(e) => r matches Err(e2) && e2 == e,
        Ok((d, got)) => match r {
            Err(e) => broken_G15(d.last().fields, got, e),
            Ok((c2, x)) => c2 == d.drop_last() && kept_G15(d.last().fields, got) && (value_G15(d.last().fields, got, x.a, x.b, x.c, x.d)),
        } })
    }
    open spec fn info() -> InfoV { info_G15() }
@fn gen::<G15 as Args>::__INFO
@owner C05 C11
@attr #[verifier::spinoff_prover]
@at start
        proof { vx_flags(); table_G15(); }
@at after vx_static
        proof { assert(keys(__vx_tail.named_attrs@) =~= seq![seq![45u8, 45u8, 97u8], seq![98u8], seq![99u8], seq![100u8]]); assert(__vx_tail.v().names =~= info_G15().names); }
@fn gen::<G15 as Args>::__parse
@owner C08 C09 C12
@attr #[verifier::spinoff_prover]
@at start
        let ghost (h_c1, h_r1) = (__frame.chain(), __parser.rest());
        let ghost mut h_fld = Seq::<PlaceSt>::empty();
        let ghost mut h_d = Seq::<Entry>::empty();
        let ghost mut h_sgot = None::<Val>;
@at before vx_run
        let ghost (h_f0, h_f1) = (__frame1, __frame1.fields@);
        proof {
            facts_G15(); lemma_wf_push(h_c1, entry_G15());
            assert(sts(h_f1) =~= entry_G15().fields);
            assert(h_f0.entry() =~~= entry_G15()); assert(h_f0.chain() =~~= h_c1.push(entry_G15()));
            assert(cur(h_f0, h_r1) =~~= start_G15(h_c1, h_r1));
        }
@at after vx_run
        let ghost h_g1 = __frame1.fields@;
        proof {
            h_d = __frame1.chain(); h_fld = sts(h_g1);
            if __vx_tail is Ok {
            assert(h_d.drop_last() =~= __frame1.parent.chain());
            assert(has_resolved(__frame1.parent)); assert(has_resolved(__frame1.fields));
            let h_f2 = final(h_f0.fields)@;
            assert(h_f0.fut() == __frame1.fut()); assert(h_f0.fut()->In_3 == h_f0.fin()); assert(__frame1.fut()->In_3 == __frame1.fin());
            assert(ends(h_f1) == ends(h_g1)); assert(ends(h_f1).len() == 4); assert(ends(h_g1).len() == h_g1.len()); assert(ends(h_f2) == ends(h_g1)); assert(ends(h_f2).len() == h_f2.len());
            assert(has_resolved(h_f2[0])); assert(ends(h_f1)[0] == final(h_f1[0]).st());
            assert(has_resolved(h_f2[1])); assert(ends(h_f1)[1] == final(h_f1[1]).st());
            assert(has_resolved(h_f2[2])); assert(ends(h_f1)[2] == final(h_f1[2]).st());
            assert(has_resolved(h_f2[3])); assert(ends(h_f1)[3] == final(h_f1[3]).st());
            assert(ends(h_f2) =~= sts(h_f2)); assert(sts(h_f2) == h_fld);
            assert(a.st() == h_fld[0]);
            assert(b.st() == h_fld[1]);
            assert(c.st() == h_fld[2]);
            assert(d.st() == h_fld[3]);
            h_sgot = None;
            default_G15_c();
            assert(run_rel(start_G15(h_c1, h_r1), sub_G15(), Ok((h_d, h_sgot))));
        } }
@at end
        proof {
            assert(kept_G15(h_fld, h_sgot)); assert(h_d.drop_last() == __frame.chain());
            let x = (*__out)->0;
            assert(value_G15(h_fld, h_sgot, x.a, x.b, x.c, x.d));
        }

@mod m13
@raw
use super::vals::*;

@raw
// ======== E17 ========

@item gen::E17
@fn gen::__VARIANT_INFOS_E17
    ensures r@.len() == 2, r@[0].v() =~= no_info(), r@[0].ok(), r@[1].v() =~= no_info(), r@[1].ok()
@owner C05 C06 C11
@attr #[verifier::spinoff_prover]
@at start
        proof { vx_flags(); lemma_terminated_empty(); }

@impl gen::<E17 as Subcommand>
    open spec fn rel(idx: usize, c: Seq<Entry>, rest: Seq<B>, r: core::result::Result<(Seq<Entry>, Self), ErrV>) -> bool {
        match idx {
            0usize => match r {
                Err(e) => run_rel(Cur { c: c.push(unit_entry(no_info())), next: 0, rest }, None, Err(e)),
                Ok((c2, x)) => x is Go && exists|d: Seq<Entry>| #[trigger] run_rel(Cur { c: c.push(unit_entry(no_info())), next: 0, rest }, None, Ok((d, None))) && c2 == d.drop_last(),
            },
            1usize => match r {
                Err(e) => run_rel(Cur { c: c.push(unit_entry(no_info())), next: 0, rest }, None, Err(e)),
                Ok((c2, x)) => x is Gone && exists|d: Seq<Entry>| #[trigger] run_rel(Cur { c: c.push(unit_entry(no_info())), next: 0, rest }, None, Ok((d, None))) && c2 == d.drop_last(),
            },
            _ => false,
        }
    }
    open spec fn subs() -> Seq<(B, usize)> { seq![(seq![103u8, 111u8], 0usize), (seq![103u8, 111u8, 110u8, 101u8], 1usize)] }
    open spec fn count() -> int { 2 }
    proof fn subs_ok() {}
@fn gen::<E17 as Subcommand>::__INFO
@owner C05 C06
@attr #[verifier::spinoff_prover]
@at start
        proof { assert(adjacent(seq![seq![103u8, 111u8], seq![103u8, 111u8, 110u8, 101u8]])) by (compute); lemma_adjacent(seq![seq![103u8, 111u8], seq![103u8, 111u8, 110u8, 101u8]]); }
@fn gen::<E17 as Subcommand>::__parse
@owner C06 C08 C09 C12
@attr #[verifier::spinoff_prover]
@at start
        let ghost (h_c1, h_r1) = (__frame.chain(), __parser.rest());
        let ghost mut h_fld = Seq::<PlaceSt>::empty();
        let ghost mut h_d = Seq::<Entry>::empty();
        let ghost mut h_sgot = None::<Val>;

@raw
// ======== G16 ========

@item gen::G16
@raw
pub open spec fn info_G16() -> InfoV { InfoV {
    names: seq![(seq![45u8, 45u8, 114u8, 101u8, 113u8], (0 + ArgAttrs::REQUIRE_VALUE.0) as u32), (seq![45u8, 45u8, 118u8, 101u8, 114u8], (1) as u32), (seq![86u8], (1) as u32)],
    pos: Seq::<u32>::empty(),
    descs: seq![seq![45u8, 45u8, 114u8, 101u8, 113u8, 32u8, 60u8, 82u8, 69u8, 81u8, 62u8], seq![45u8, 86u8, 44u8, 32u8, 45u8, 45u8, 118u8, 101u8, 114u8]],
    subs: Some(<E17 as Subcommand>::subs()) } }
pub open spec fn entry_G16() -> Entry { Entry { cmd: false, name: Seq::<char>::empty(), info: info_G16(), fields: seq![PlaceSt { kind: PKind::Set, parse: parse_fn::<VxParser<String>>(), vals: None }, FlagPlace(None).st()] } }
/// The end of parsing finds constraint broken, and says so.
pub open spec fn broken_G16(f: Seq<PlaceSt>, got: Option<Val>, e: ErrV) -> bool {
    ||| false
    ||| !(f[0].vals is Some) && e == (ErrV { arg: Some(seq![45u8, 45u8, 114u8, 101u8, 113u8, 32u8, 60u8, 82u8, 69u8, 81u8, 62u8]), ..err0(ErrorKind::MissingRequiredArgument) })
    ||| f[1].vals is Some && (f[0].vals is Some || got is Some) && e == (ErrV { arg: Some(seq![45u8, 86u8, 44u8, 32u8, 45u8, 45u8, 118u8, 101u8, 114u8]), ..err0(ErrorKind::ConstraintExclusive) })
}
pub open spec fn kept_G16(f: Seq<PlaceSt>, got: Option<Val>) -> bool {
    &&& true
    &&& !(!(f[0].vals is Some))
    &&& !(f[1].vals is Some && (f[0].vals is Some || got is Some))
}
pub open spec fn value_G16(f: Seq<PlaceSt>, got: Option<Val>, x_req: String, x_ver: bool, x_c: Option<E17>) -> bool {
    &&& true
    &&& match f[0].vals { None => false, Some(s) => s == seq![val(x_req)] }
    &&& match f[1].vals { None => x_ver == false, Some(s) => s == seq![val(x_ver)] }
    &&& got == (match x_c { Some(y) => Some(val(y)), None => None })
}
pub type End_G16 = core::result::Result<(Seq<Entry>, Option<Val>), ErrV>;
pub open spec fn start_G16(c: Seq<Entry>, rest: Seq<B>) -> Cur { Cur { c: c.push(entry_G16()), next: 0, rest } }
pub open spec fn sub_G16() -> Option<SubRel> { Some(sub_rel::<E17>()) }
// @owner C05
pub proof fn facts_G16()
    ensures wf_entry(entry_G16()), forall|i: int| 0 <= i < info_G16().subs->0.len() ==> (#[trigger] info_G16().subs->0[i]).1 < <E17 as Subcommand>::count()
{
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(0, (0 + ArgAttrs::REQUIRE_VALUE.0) as u32); assert((0 + ArgAttrs::REQUIRE_VALUE.0) as u32 == (0 + ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32)) as u32) by (compute);
    assert((((0) as u32) & 0xffu32) == 0 && ((0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(1, (0) as u32); assert((1) as u32 == (1 + ((0) as u32)) as u32) by (compute);
    assert(valid_utf8(seq![45u8, 45u8, 114u8, 101u8, 113u8])) by (compute);
    assert(valid_utf8(seq![45u8, 45u8, 118u8, 101u8, 114u8])) by (compute);
    assert(valid_utf8(seq![86u8])) by (compute);
    <E17 as Subcommand>::subs_ok();
}
// @owner C05 C11
pub proof fn table_G16()
    ensures sorted(seq![seq![45u8, 45u8, 114u8, 101u8, 113u8], seq![45u8, 45u8, 118u8, 101u8, 114u8], seq![86u8]]), terminated(seq![45u8, 45u8, 114u8, 101u8, 113u8, 32u8, 60u8, 82u8, 69u8, 81u8, 62u8, 0u8, 45u8, 86u8, 44u8, 32u8, 45u8, 45u8, 118u8, 101u8, 114u8, 0u8]) == info_G16().descs
{
    assert(adjacent(seq![seq![45u8, 45u8, 114u8, 101u8, 113u8], seq![45u8, 45u8, 118u8, 101u8, 114u8], seq![86u8]])) by (compute);
    lemma_adjacent(seq![seq![45u8, 45u8, 114u8, 101u8, 113u8], seq![45u8, 45u8, 118u8, 101u8, 114u8], seq![86u8]]);
    assert(terminated(seq![45u8, 45u8, 114u8, 101u8, 113u8, 32u8, 60u8, 82u8, 69u8, 81u8, 62u8, 0u8, 45u8, 86u8, 44u8, 32u8, 45u8, 45u8, 118u8, 101u8, 114u8, 0u8]) == info_G16().descs) by (compute);
}

@impl gen::<G16 as Args>
    open spec fn rel(c: Seq<Entry>, rest: Seq<B>, r: core::result::Result<(Seq<Entry>, Self), ErrV>) -> bool {
        exists|q: End_G16| #[trigger] run_rel(start_G16(c, rest), sub_G16(), q) && (match q {
        Err(e) => r matches Err(e2) && e2 == e,
        Ok((d, got)) => match r {
            Err(e) => broken_G16(d.last().fields, got, e),
            Ok((c2, x)) => c2 == d.drop_last() && kept_G16(d.last().fields, got) && (value_G16(d.last().fields, got, x.req, x.ver, x.c)),
        } })
    }
    open spec fn info() -> InfoV { info_G16() }
@fn gen::<G16 as Args>::__INFO
@owner C05 C11
@attr #[verifier::spinoff_prover]
@at start
        proof { vx_flags(); table_G16(); }
@at after vx_static
        proof { assert(keys(__vx_tail.named_attrs@) =~= seq![seq![45u8, 45u8, 114u8, 101u8, 113u8], seq![45u8, 45u8, 118u8, 101u8, 114u8], seq![86u8]]); assert(__vx_tail.v().names =~= info_G16().names); }
@fn gen::<G16 as Args>::__parse
@owner C08 C09 C12
@attr #[verifier::spinoff_prover]
@at start
        let ghost (h_c1, h_r1) = (__frame.chain(), __parser.rest());
        let ghost mut h_fld = Seq::<PlaceSt>::empty();
        let ghost mut h_d = Seq::<Entry>::empty();
        let ghost mut h_sgot = None::<Val>;
@at before vx_run
        let ghost (h_f0, h_f1) = (__frame1, __frame1.fields@);
        proof {
            facts_G16(); lemma_wf_push(h_c1, entry_G16());
            assert(sts(h_f1) =~= entry_G16().fields);
            assert(h_f0.entry() =~~= entry_G16()); assert(h_f0.chain() =~~= h_c1.push(entry_G16()));
            assert(cur(h_f0, h_r1) =~~= start_G16(h_c1, h_r1));
        }
@at after vx_run
        let ghost h_g1 = __frame1.fields@;
        proof {
            h_d = __frame1.chain(); h_fld = sts(h_g1);
            if __vx_tail is Ok {
            assert(h_d.drop_last() =~= __frame1.parent.chain());
            assert(has_resolved(__frame1.parent)); assert(has_resolved(__frame1.fields));
            let h_f2 = final(h_f0.fields)@;
            assert(h_f0.fut() == __frame1.fut()); assert(h_f0.fut()->In_3 == h_f0.fin()); assert(__frame1.fut()->In_3 == __frame1.fin());
            assert(ends(h_f1) == ends(h_g1)); assert(ends(h_f1).len() == 2); assert(ends(h_g1).len() == h_g1.len()); assert(ends(h_f2) == ends(h_g1)); assert(ends(h_f2).len() == h_f2.len());
            assert(has_resolved(h_f2[0])); assert(ends(h_f1)[0] == final(h_f1[0]).st());
            assert(has_resolved(h_f2[1])); assert(ends(h_f1)[1] == final(h_f1[1]).st());
            assert(ends(h_f2) =~= sts(h_f2)); assert(sts(h_f2) == h_fld);
            assert(req.st() == h_fld[0]);
            assert(ver.st() == h_fld[1]);
            h_sgot = c.got(); assert(final(h_f0.subcmd->0).got() == h_sgot);
            assert(run_rel(start_G16(h_c1, h_r1), sub_G16(), Ok((h_d, h_sgot))));
        } }
@at end
        proof {
            assert(kept_G16(h_fld, h_sgot)); assert(h_d.drop_last() == __frame.chain());
            let x = (*__out)->0;
            assert(value_G16(h_fld, h_sgot, x.req, x.ver, x.c));
        }

@mod m14
@raw
use super::vals::*;

@raw
// ======== G21 ========

@item gen::G21
@raw
pub open spec fn info_G21() -> InfoV { InfoV {
    names: Seq::<(B, u32)>::empty(),
    pos: seq![(0 + ArgAttrs::REQUIRE_VALUE.0) as u32],
    descs: seq![seq![60u8, 80u8, 79u8, 83u8, 62u8]],
    subs: None } }
pub open spec fn entry_G21() -> Entry { Entry { cmd: false, name: Seq::<char>::empty(), info: info_G21(), fields: seq![PlaceSt { kind: PKind::Set, parse: parse_fn::<VxParser<u8>>(), vals: None }] } }
/// The end of parsing finds constraint broken, and says so.
pub open spec fn broken_G21(f: Seq<PlaceSt>, got: Option<Val>, e: ErrV) -> bool {
    ||| false
    ||| !(f[0].vals is Some) && e == (ErrV { arg: Some(seq![60u8, 80u8, 79u8, 83u8, 62u8]), ..err0(ErrorKind::MissingRequiredArgument) })
}
pub open spec fn kept_G21(f: Seq<PlaceSt>, got: Option<Val>) -> bool {
    &&& true
    &&& !(!(f[0].vals is Some))
}
pub open spec fn value_G21(f: Seq<PlaceSt>, got: Option<Val>, x_pos: u8) -> bool {
    &&& true
    &&& match f[0].vals { None => false, Some(s) => s == seq![val(x_pos)] }
}
pub type End_G21 = core::result::Result<(Seq<Entry>, Option<Val>), ErrV>;
pub open spec fn start_G21(c: Seq<Entry>, rest: Seq<B>) -> Cur { Cur { c: c.push(entry_G21()), next: 0, rest } }
pub open spec fn sub_G21() -> Option<SubRel> { None }
// @owner C05
pub proof fn facts_G21()
    ensures wf_entry(entry_G21())
{
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(0, (0 + ArgAttrs::REQUIRE_VALUE.0) as u32); assert((0 + ArgAttrs::REQUIRE_VALUE.0) as u32 == (0 + ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32)) as u32) by (compute);
}
// @owner C05 C11
pub proof fn table_G21()
    ensures sorted(Seq::<B>::empty()), terminated(seq![60u8, 80u8, 79u8, 83u8, 62u8, 0u8]) == info_G21().descs
{
    assert(adjacent(Seq::<B>::empty())) by (compute);
    lemma_adjacent(Seq::<B>::empty());
    assert(terminated(seq![60u8, 80u8, 79u8, 83u8, 62u8, 0u8]) == info_G21().descs) by (compute);
}

@impl gen::<G21 as Args>
    open spec fn rel(c: Seq<Entry>, rest: Seq<B>, r: core::result::Result<(Seq<Entry>, Self), ErrV>) -> bool {
        exists|q: End_G21| #[trigger] run_rel(start_G21(c, rest), sub_G21(), q) && (match q {
        Err(e) => r matches Err(e2) && e2 == e,
        Ok((d, got)) => match r {
            Err(e) => broken_G21(d.last().fields, got, e),
            Ok((c2, x)) => c2 == d.drop_last() && kept_G21(d.last().fields, got) && (value_G21(d.last().fields, got, x.pos)),
        } })
    }
    open spec fn info() -> InfoV { info_G21() }
@fn gen::<G21 as Args>::__INFO
@owner C05 C11
@attr #[verifier::spinoff_prover]
@at start
        proof { vx_flags(); table_G21(); }
@at after vx_static
        proof { assert(keys(__vx_tail.named_attrs@) =~= Seq::<B>::empty()); assert(__vx_tail.v().names =~= info_G21().names); }
@fn gen::<G21 as Args>::__parse
@owner C08 C09 C12
@attr #[verifier::spinoff_prover]
@at start
        let ghost (h_c1, h_r1) = (__frame.chain(), __parser.rest());
        let ghost mut h_fld = Seq::<PlaceSt>::empty();
        let ghost mut h_d = Seq::<Entry>::empty();
        let ghost mut h_sgot = None::<Val>;
@at before vx_run
        let ghost (h_f0, h_f1) = (__frame1, __frame1.fields@);
        proof {
            facts_G21(); lemma_wf_push(h_c1, entry_G21());
            assert(sts(h_f1) =~= entry_G21().fields);
            assert(h_f0.entry() =~~= entry_G21()); assert(h_f0.chain() =~~= h_c1.push(entry_G21()));
            assert(cur(h_f0, h_r1) =~~= start_G21(h_c1, h_r1));
        }
@at after vx_run
        let ghost h_g1 = __frame1.fields@;
        proof {
            h_d = __frame1.chain(); h_fld = sts(h_g1);
            if __vx_tail is Ok {
            assert(h_d.drop_last() =~= __frame1.parent.chain());
            assert(has_resolved(__frame1.parent)); assert(has_resolved(__frame1.fields));
            let h_f2 = final(h_f0.fields)@;
            assert(h_f0.fut() == __frame1.fut()); assert(h_f0.fut()->In_3 == h_f0.fin()); assert(__frame1.fut()->In_3 == __frame1.fin());
            assert(ends(h_f1) == ends(h_g1)); assert(ends(h_f1).len() == 1); assert(ends(h_g1).len() == h_g1.len()); assert(ends(h_f2) == ends(h_g1)); assert(ends(h_f2).len() == h_f2.len());
            assert(has_resolved(h_f2[0])); assert(ends(h_f1)[0] == final(h_f1[0]).st());
            assert(ends(h_f2) =~= sts(h_f2)); assert(sts(h_f2) == h_fld);
            assert(pos.st() == h_fld[0]);
            h_sgot = None;
            assert(run_rel(start_G21(h_c1, h_r1), sub_G21(), Ok((h_d, h_sgot))));
        } }
@at end
        proof {
            assert(kept_G21(h_fld, h_sgot)); assert(h_d.drop_last() == __frame.chain());
            let x = (*__out)->0;
            assert(value_G21(h_fld, h_sgot, x.pos));
        }

@raw
// ======== E20 ========

@item gen::E20
@fn gen::__VARIANT_INFOS_E20
    ensures r@.len() == 2, r@[0].v() =~= <G21 as Args>::info(), r@[0].ok(), r@[1].v() =~= no_info(), r@[1].ok()
@owner C05 C06 C11
@attr #[verifier::spinoff_prover]
@at start
        proof { vx_flags(); lemma_terminated_empty(); }

@impl gen::<E20 as Subcommand>
    open spec fn rel(idx: usize, c: Seq<Entry>, rest: Seq<B>, r: core::result::Result<(Seq<Entry>, Self), ErrV>) -> bool {
        match idx {
            0usize => match r {
                Err(e) => <G21 as Args>::rel(c, rest, Err(e)),
                Ok((c2, x)) => x matches E20::Deep(y) && <G21 as Args>::rel(c, rest, Ok((c2, y))),
            },
            1usize => match r {
                Err(e) => run_rel(Cur { c: c.push(unit_entry(no_info())), next: 0, rest }, None, Err(e)),
                Ok((c2, x)) => x is Er && exists|d: Seq<Entry>| #[trigger] run_rel(Cur { c: c.push(unit_entry(no_info())), next: 0, rest }, None, Ok((d, None))) && c2 == d.drop_last(),
            },
            _ => false,
        }
    }
    open spec fn subs() -> Seq<(B, usize)> { seq![(seq![100u8, 101u8, 101u8, 112u8], 0usize), (seq![101u8, 114u8], 1usize)] }
    open spec fn count() -> int { 2 }
    proof fn subs_ok() {}
@fn gen::<E20 as Subcommand>::__INFO
@owner C05 C06
@attr #[verifier::spinoff_prover]
@at start
        proof { assert(adjacent(seq![seq![100u8, 101u8, 101u8, 112u8], seq![101u8, 114u8]])) by (compute); lemma_adjacent(seq![seq![100u8, 101u8, 101u8, 112u8], seq![101u8, 114u8]]); }
@fn gen::<E20 as Subcommand>::__parse
@owner C06 C08 C09 C12
@attr #[verifier::spinoff_prover]
@at start
        let ghost (h_c1, h_r1) = (__frame.chain(), __parser.rest());
        let ghost mut h_fld = Seq::<PlaceSt>::empty();
        let ghost mut h_d = Seq::<Entry>::empty();
        let ghost mut h_sgot = None::<Val>;

@raw
// ======== E19 ========

@item gen::E19
@raw
pub open spec fn info_E19_A() -> InfoV { InfoV {
    names: Seq::<(B, u32)>::empty(),
    pos: Seq::<u32>::empty(),
    descs: Seq::<B>::empty(),
    subs: None } }
pub open spec fn entry_E19_A() -> Entry { Entry { cmd: false, name: Seq::<char>::empty(), info: info_E19_A(), fields: Seq::<PlaceSt>::empty() } }
/// The end of parsing finds constraint broken, and says so.
pub open spec fn broken_E19_A(f: Seq<PlaceSt>, got: Option<Val>, e: ErrV) -> bool {
    ||| false
}
pub open spec fn kept_E19_A(f: Seq<PlaceSt>, got: Option<Val>) -> bool {
    &&& true
}
pub open spec fn value_E19_A(f: Seq<PlaceSt>, got: Option<Val>) -> bool {
    &&& true
}
pub type End_E19_A = core::result::Result<(Seq<Entry>, Option<Val>), ErrV>;
pub open spec fn start_E19_A(c: Seq<Entry>, rest: Seq<B>) -> Cur { Cur { c: c.push(entry_E19_A()), next: 0, rest } }
pub open spec fn sub_E19_A() -> Option<SubRel> { None }
// @owner C05
pub proof fn facts_E19_A()
    ensures wf_entry(entry_E19_A())
{
}
// @owner C05 C11
pub proof fn table_E19_A()
    ensures sorted(Seq::<B>::empty()), terminated(Seq::<u8>::empty()) == info_E19_A().descs
{
    assert(adjacent(Seq::<B>::empty())) by (compute);
    lemma_adjacent(Seq::<B>::empty());
    assert(terminated(Seq::<u8>::empty()) == info_E19_A().descs) by (compute);
}

@raw
pub open spec fn info_E19_Bc() -> InfoV { InfoV {
    names: seq![(seq![45u8, 45u8, 103u8], (1 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::GLOBAL.0) as u32), (seq![45u8, 45u8, 110u8], (0 + ArgAttrs::REQUIRE_VALUE.0) as u32)],
    pos: Seq::<u32>::empty(),
    descs: seq![seq![45u8, 45u8, 110u8, 32u8, 60u8, 78u8, 62u8], seq![45u8, 45u8, 103u8, 32u8, 60u8, 71u8, 62u8]],
    subs: Some(<E20 as Subcommand>::subs()) } }
pub open spec fn entry_E19_Bc() -> Entry { Entry { cmd: false, name: Seq::<char>::empty(), info: info_E19_Bc(), fields: seq![PlaceSt { kind: PKind::Set, parse: parse_fn::<VxParser<u8>>(), vals: None }, PlaceSt { kind: PKind::Set, parse: parse_fn::<VxParser<String>>(), vals: None }] } }
/// The end of parsing finds constraint broken, and says so.
pub open spec fn broken_E19_Bc(f: Seq<PlaceSt>, got: Option<Val>, e: ErrV) -> bool {
    ||| false
    ||| f[1].vals is Some && f[0].vals is Some && e == (ErrV { arg: Some(seq![45u8, 45u8, 103u8, 32u8, 60u8, 71u8, 62u8]), ..err0(ErrorKind::ConstraintConflict) })
    ||| got is None && e == (err0(ErrorKind::MissingRequiredSubcommand))
}
pub open spec fn kept_E19_Bc(f: Seq<PlaceSt>, got: Option<Val>) -> bool {
    &&& true
    &&& !(f[1].vals is Some && f[0].vals is Some)
    &&& !(got is None)
}
pub open spec fn value_E19_Bc(f: Seq<PlaceSt>, got: Option<Val>, x_n: u8, x_g: Option<String>, x_s: E20) -> bool {
    &&& true
    &&& match f[0].vals { None => step(f[0], Some(seq![49u8]))->Ok_0.vals == Some(seq![val(x_n)]), Some(s) => s == seq![val(x_n)] }
    &&& match f[1].vals { None => x_g is None, Some(s) => x_g matches Some(y) && s == seq![val(y)] }
    &&& got == Some(val(x_s))
}
pub type End_E19_Bc = core::result::Result<(Seq<Entry>, Option<Val>), ErrV>;
pub open spec fn start_E19_Bc(c: Seq<Entry>, rest: Seq<B>) -> Cur { Cur { c: c.push(entry_E19_Bc()), next: 0, rest } }
pub open spec fn sub_E19_Bc() -> Option<SubRel> { Some(sub_rel::<E20>()) }
// @owner C05
pub proof fn facts_E19_Bc()
    ensures wf_entry(entry_E19_Bc()), forall|i: int| 0 <= i < info_E19_Bc().subs->0.len() ==> (#[trigger] info_E19_Bc().subs->0[i]).1 < <E20 as Subcommand>::count()
{
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(0, (0 + ArgAttrs::REQUIRE_VALUE.0) as u32); assert((0 + ArgAttrs::REQUIRE_VALUE.0) as u32 == (0 + ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32)) as u32) by (compute);
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::GLOBAL.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::GLOBAL.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(1, (0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::GLOBAL.0) as u32); assert((1 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::GLOBAL.0) as u32 == (1 + ((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::GLOBAL.0) as u32)) as u32) by (compute);
    assert(valid_utf8(seq![45u8, 45u8, 103u8])) by (compute);
    assert(valid_utf8(seq![45u8, 45u8, 110u8])) by (compute);
    <E20 as Subcommand>::subs_ok();
}
// @owner C05 C11
pub proof fn table_E19_Bc()
    ensures sorted(seq![seq![45u8, 45u8, 103u8], seq![45u8, 45u8, 110u8]]), terminated(seq![45u8, 45u8, 110u8, 32u8, 60u8, 78u8, 62u8, 0u8, 45u8, 45u8, 103u8, 32u8, 60u8, 71u8, 62u8, 0u8]) == info_E19_Bc().descs
{
    assert(adjacent(seq![seq![45u8, 45u8, 103u8], seq![45u8, 45u8, 110u8]])) by (compute);
    lemma_adjacent(seq![seq![45u8, 45u8, 103u8], seq![45u8, 45u8, 110u8]]);
    assert(terminated(seq![45u8, 45u8, 110u8, 32u8, 60u8, 78u8, 62u8, 0u8, 45u8, 45u8, 103u8, 32u8, 60u8, 71u8, 62u8, 0u8]) == info_E19_Bc().descs) by (compute);
}
/// Assumed: the default text of the definition is a value of its type (documented; it would panic).
#[verifier::external_body]
pub proof fn default_E19_Bc_n()
    ensures step(PlaceSt { kind: PKind::Set, parse: parse_fn::<VxParser<u8>>(), vals: None }, Some(seq![49u8])) is Ok
{}

@fn gen::__VARIANT_INFOS_E19
    ensures r@.len() == 2, r@[0].v() =~= info_E19_A(), r@[0].ok(), r@[1].v() =~= info_E19_Bc(), r@[1].ok()
@owner C05 C06 C11
@attr #[verifier::spinoff_prover]
@at start
        proof { vx_flags(); lemma_terminated_empty(); }
        proof { vx_flags(); table_E19_A(); }
        proof { vx_flags(); table_E19_Bc(); }

@impl gen::<E19 as Subcommand>
    open spec fn rel(idx: usize, c: Seq<Entry>, rest: Seq<B>, r: core::result::Result<(Seq<Entry>, Self), ErrV>) -> bool {
        match idx {
            0usize => exists|q: End_E19_A| #[trigger] run_rel(start_E19_A(c, rest), sub_E19_A(), q) && (match q {
            Err(e) => r matches Err(e2) && e2 == e,
            Ok((d, got)) => match r {
                Err(e) => broken_E19_A(d.last().fields, got, e),
                Ok((c2, x)) => c2 == d.drop_last() && kept_E19_A(d.last().fields, got) && (x matches E19::A {  } && value_E19_A(d.last().fields, got)),
            } }),
            1usize => exists|q: End_E19_Bc| #[trigger] run_rel(start_E19_Bc(c, rest), sub_E19_Bc(), q) && (match q {
            Err(e) => r matches Err(e2) && e2 == e,
            Ok((d, got)) => match r {
                Err(e) => broken_E19_Bc(d.last().fields, got, e),
                Ok((c2, x)) => c2 == d.drop_last() && kept_E19_Bc(d.last().fields, got) && (x matches E19::Bc { n: x_n, g: x_g, s: x_s } && value_E19_Bc(d.last().fields, got, x_n, x_g, x_s)),
            } }),
            _ => false,
        }
    }
    open spec fn subs() -> Seq<(B, usize)> { seq![(seq![97u8], 0usize), (seq![98u8, 99u8], 1usize)] }
    open spec fn count() -> int { 2 }
    proof fn subs_ok() {}
@fn gen::<E19 as Subcommand>::__INFO
@owner C05 C06
@attr #[verifier::spinoff_prover]
@at start
        proof { assert(adjacent(seq![seq![97u8], seq![98u8, 99u8]])) by (compute); lemma_adjacent(seq![seq![97u8], seq![98u8, 99u8]]); }
@fn gen::<E19 as Subcommand>::__parse
@owner C06 C08 C09 C12
@attr #[verifier::spinoff_prover]
@at start
        let ghost (h_c1, h_r1) = (__frame.chain(), __parser.rest());
        let ghost mut h_fld = Seq::<PlaceSt>::empty();
        let ghost mut h_d = Seq::<Entry>::empty();
        let ghost mut h_sgot = None::<Val>;
@at before vx_run 1
        let ghost (h_f0, h_f1) = (__frame1, __frame1.fields@);
        proof {
            facts_E19_A(); lemma_wf_push(h_c1, entry_E19_A());
            assert(sts(h_f1) =~= entry_E19_A().fields);
            assert(h_f0.entry() =~~= entry_E19_A()); assert(h_f0.chain() =~~= h_c1.push(entry_E19_A()));
            assert(cur(h_f0, h_r1) =~~= start_E19_A(h_c1, h_r1));
        }
@at after vx_run 1
        let ghost h_g1 = __frame1.fields@;
        proof {
            h_d = __frame1.chain(); h_fld = sts(h_g1);
            if __vx_tail is Ok {
            assert(h_d.drop_last() =~= __frame1.parent.chain());
            assert(has_resolved(__frame1.parent)); assert(has_resolved(__frame1.fields));
            let h_f2 = final(h_f0.fields)@;
            assert(h_f0.fut() == __frame1.fut()); assert(h_f0.fut()->In_3 == h_f0.fin()); assert(__frame1.fut()->In_3 == __frame1.fin());
            assert(ends(h_f1) == ends(h_g1)); assert(ends(h_f1).len() == 0); assert(ends(h_g1).len() == h_g1.len()); assert(ends(h_f2) == ends(h_g1)); assert(ends(h_f2).len() == h_f2.len());
            assert(ends(h_f2) =~= sts(h_f2)); assert(sts(h_f2) == h_fld);
            h_sgot = None;
            assert(run_rel(start_E19_A(h_c1, h_r1), sub_E19_A(), Ok((h_d, h_sgot))));
        } }
@at before Ok 1
        proof {
            assert(kept_E19_A(h_fld, h_sgot)); assert(h_d.drop_last() == __frame.chain());
            assert(*__out matches Some(E19::A {  }) && value_E19_A(h_fld, h_sgot));
        }
@at before vx_run 2
        let ghost (h_f0, h_f1) = (__frame2, __frame2.fields@);
        proof {
            facts_E19_Bc(); lemma_wf_push(h_c1, entry_E19_Bc());
            assert(sts(h_f1) =~= entry_E19_Bc().fields);
            assert(h_f0.entry() =~~= entry_E19_Bc()); assert(h_f0.chain() =~~= h_c1.push(entry_E19_Bc()));
            assert(cur(h_f0, h_r1) =~~= start_E19_Bc(h_c1, h_r1));
        }
@at after vx_run 2
        let ghost h_g1 = __frame2.fields@;
        proof {
            h_d = __frame2.chain(); h_fld = sts(h_g1);
            if __vx_tail is Ok {
            assert(h_d.drop_last() =~= __frame2.parent.chain());
            assert(has_resolved(__frame2.parent)); assert(has_resolved(__frame2.fields));
            let h_f2 = final(h_f0.fields)@;
            assert(h_f0.fut() == __frame2.fut()); assert(h_f0.fut()->In_3 == h_f0.fin()); assert(__frame2.fut()->In_3 == __frame2.fin());
            assert(ends(h_f1) == ends(h_g1)); assert(ends(h_f1).len() == 2); assert(ends(h_g1).len() == h_g1.len()); assert(ends(h_f2) == ends(h_g1)); assert(ends(h_f2).len() == h_f2.len());
            assert(has_resolved(h_f2[0])); assert(ends(h_f1)[0] == final(h_f1[0]).st());
            assert(has_resolved(h_f2[1])); assert(ends(h_f1)[1] == final(h_f1[1]).st());
            assert(ends(h_f2) =~= sts(h_f2)); assert(sts(h_f2) == h_fld);
            assert(n.st() == h_fld[0]);
            assert(g.st() == h_fld[1]);
            h_sgot = s.got(); assert(final(h_f0.subcmd->0).got() == h_sgot);
            default_E19_Bc_n();
            assert(run_rel(start_E19_Bc(h_c1, h_r1), sub_E19_Bc(), Ok((h_d, h_sgot))));
        } }
@at before Ok 2
        proof {
            assert(kept_E19_Bc(h_fld, h_sgot)); assert(h_d.drop_last() == __frame.chain());
            assert(*__out matches Some(E19::Bc { n: y_n, g: y_g, s: y_s }) && value_E19_Bc(h_fld, h_sgot, y_n, y_g, y_s));
        }

@raw
// ======== G18 ========

@item gen::G18
@raw
pub open spec fn info_G18() -> InfoV { InfoV {
    names: Seq::<(B, u32)>::empty(),
    pos: seq![(0 + ArgAttrs::REQUIRE_VALUE.0) as u32],
    descs: seq![seq![91u8, 79u8, 78u8, 76u8, 89u8, 93u8]],
    subs: Some(<E19 as Subcommand>::subs()) } }
pub open spec fn entry_G18() -> Entry { Entry { cmd: false, name: Seq::<char>::empty(), info: info_G18(), fields: seq![PlaceSt { kind: PKind::Set, parse: parse_fn::<VxParser<String>>(), vals: None }] } }
/// The end of parsing finds constraint broken, and says so.
pub open spec fn broken_G18(f: Seq<PlaceSt>, got: Option<Val>, e: ErrV) -> bool {
    ||| false
    ||| f[0].vals is Some && (got is Some) && e == (ErrV { arg: Some(seq![91u8, 79u8, 78u8, 76u8, 89u8, 93u8]), ..err0(ErrorKind::ConstraintExclusive) })
}
pub open spec fn kept_G18(f: Seq<PlaceSt>, got: Option<Val>) -> bool {
    &&& true
    &&& !(f[0].vals is Some && (got is Some))
}
pub open spec fn value_G18(f: Seq<PlaceSt>, got: Option<Val>, x_only: Option<String>, x_c: Option<E19>) -> bool {
    &&& true
    &&& match f[0].vals { None => x_only is None, Some(s) => x_only matches Some(y) && s == seq![val(y)] }
    &&& got == (match x_c { Some(y) => Some(val(y)), None => None })
}
pub type End_G18 = core::result::Result<(Seq<Entry>, Option<Val>), ErrV>;
pub open spec fn start_G18(c: Seq<Entry>, rest: Seq<B>) -> Cur { Cur { c: c.push(entry_G18()), next: 0, rest } }
pub open spec fn sub_G18() -> Option<SubRel> { Some(sub_rel::<E19>()) }
// @owner C05
pub proof fn facts_G18()
    ensures wf_entry(entry_G18()), forall|i: int| 0 <= i < info_G18().subs->0.len() ==> (#[trigger] info_G18().subs->0[i]).1 < <E19 as Subcommand>::count()
{
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(0, (0 + ArgAttrs::REQUIRE_VALUE.0) as u32); assert((0 + ArgAttrs::REQUIRE_VALUE.0) as u32 == (0 + ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32)) as u32) by (compute);
    <E19 as Subcommand>::subs_ok();
}
// @owner C05 C11
pub proof fn table_G18()
    ensures sorted(Seq::<B>::empty()), terminated(seq![91u8, 79u8, 78u8, 76u8, 89u8, 93u8, 0u8]) == info_G18().descs
{
    assert(adjacent(Seq::<B>::empty())) by (compute);
    lemma_adjacent(Seq::<B>::empty());
    assert(terminated(seq![91u8, 79u8, 78u8, 76u8, 89u8, 93u8, 0u8]) == info_G18().descs) by (compute);
}

@impl gen::<G18 as Args>
    open spec fn rel(c: Seq<Entry>, rest: Seq<B>, r: core::result::Result<(Seq<Entry>, Self), ErrV>) -> bool {
        exists|q: End_G18| #[trigger] run_rel(start_G18(c, rest), sub_G18(), q) && (match q {
        Err(e) => r matches Err(e2) && e2 == e,
        Ok((d, got)) => match r {
            Err(e) => broken_G18(d.last().fields, got, e),
            Ok((c2, x)) => c2 == d.drop_last() && kept_G18(d.last().fields, got) && (value_G18(d.last().fields, got, x.only, x.c)),
        } })
    }
    open spec fn info() -> InfoV { info_G18() }
@fn gen::<G18 as Args>::__INFO
@owner C05 C11
@attr #[verifier::spinoff_prover]
@at start
        proof { vx_flags(); table_G18(); }
@at after vx_static
        proof { assert(keys(__vx_tail.named_attrs@) =~= Seq::<B>::empty()); assert(__vx_tail.v().names =~= info_G18().names); }
@fn gen::<G18 as Args>::__parse
@owner C08 C09 C12
@attr #[verifier::spinoff_prover]
@at start
        let ghost (h_c1, h_r1) = (__frame.chain(), __parser.rest());
        let ghost mut h_fld = Seq::<PlaceSt>::empty();
        let ghost mut h_d = Seq::<Entry>::empty();
        let ghost mut h_sgot = None::<Val>;
@at before vx_run
        let ghost (h_f0, h_f1) = (__frame1, __frame1.fields@);
        proof {
            facts_G18(); lemma_wf_push(h_c1, entry_G18());
            assert(sts(h_f1) =~= entry_G18().fields);
            assert(h_f0.entry() =~~= entry_G18()); assert(h_f0.chain() =~~= h_c1.push(entry_G18()));
            assert(cur(h_f0, h_r1) =~~= start_G18(h_c1, h_r1));
        }
@at after vx_run
        let ghost h_g1 = __frame1.fields@;
        proof {
            h_d = __frame1.chain(); h_fld = sts(h_g1);
            if __vx_tail is Ok {
            assert(h_d.drop_last() =~= __frame1.parent.chain());
            assert(has_resolved(__frame1.parent)); assert(has_resolved(__frame1.fields));
            let h_f2 = final(h_f0.fields)@;
            assert(h_f0.fut() == __frame1.fut()); assert(h_f0.fut()->In_3 == h_f0.fin()); assert(__frame1.fut()->In_3 == __frame1.fin());
            assert(ends(h_f1) == ends(h_g1)); assert(ends(h_f1).len() == 1); assert(ends(h_g1).len() == h_g1.len()); assert(ends(h_f2) == ends(h_g1)); assert(ends(h_f2).len() == h_f2.len());
            assert(has_resolved(h_f2[0])); assert(ends(h_f1)[0] == final(h_f1[0]).st());
            assert(ends(h_f2) =~= sts(h_f2)); assert(sts(h_f2) == h_fld);
            assert(only.st() == h_fld[0]);
            h_sgot = c.got(); assert(final(h_f0.subcmd->0).got() == h_sgot);
            assert(run_rel(start_G18(h_c1, h_r1), sub_G18(), Ok((h_d, h_sgot))));
        } }
@at end
        proof {
            assert(kept_G18(h_fld, h_sgot)); assert(h_d.drop_last() == __frame.chain());
            let x = (*__out)->0;
            assert(value_G18(h_fld, h_sgot, x.only, x.c));
        }

@mod m15
@raw
use super::vals::*;

@raw
// ======== G24 ========

@item gen::G24
@raw
pub open spec fn info_G24() -> InfoV { InfoV {
    names: seq![(seq![45u8, 45u8, 97u8, 108u8, 108u8], (0 + ArgAttrs::GLOBAL.0) as u32), (seq![97u8], (0 + ArgAttrs::GLOBAL.0) as u32)],
    pos: Seq::<u32>::empty(),
    descs: seq![seq![45u8, 97u8, 44u8, 32u8, 45u8, 45u8, 97u8, 108u8, 108u8]],
    subs: None } }
pub open spec fn entry_G24() -> Entry { Entry { cmd: false, name: Seq::<char>::empty(), info: info_G24(), fields: seq![FlagPlace(None).st()] } }
/// The end of parsing finds constraint broken, and says so.
pub open spec fn broken_G24(f: Seq<PlaceSt>, got: Option<Val>, e: ErrV) -> bool {
    ||| false
}
pub open spec fn kept_G24(f: Seq<PlaceSt>, got: Option<Val>) -> bool {
    &&& true
}
pub open spec fn value_G24(f: Seq<PlaceSt>, got: Option<Val>, x_all: bool) -> bool {
    &&& true
    &&& match f[0].vals { None => x_all == false, Some(s) => s == seq![val(x_all)] }
}
pub type End_G24 = core::result::Result<(Seq<Entry>, Option<Val>), ErrV>;
pub open spec fn start_G24(c: Seq<Entry>, rest: Seq<B>) -> Cur { Cur { c: c.push(entry_G24()), next: 0, rest } }
pub open spec fn sub_G24() -> Option<SubRel> { None }
// @owner C05
pub proof fn facts_G24()
    ensures wf_entry(entry_G24())
{
    assert((((0 + ArgAttrs::GLOBAL.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::GLOBAL.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(0, (0 + ArgAttrs::GLOBAL.0) as u32); assert((0 + ArgAttrs::GLOBAL.0) as u32 == (0 + ((0 + ArgAttrs::GLOBAL.0) as u32)) as u32) by (compute);
    assert(valid_utf8(seq![45u8, 45u8, 97u8, 108u8, 108u8])) by (compute);
    assert(valid_utf8(seq![97u8])) by (compute);
}
// @owner C05 C11
pub proof fn table_G24()
    ensures sorted(seq![seq![45u8, 45u8, 97u8, 108u8, 108u8], seq![97u8]]), terminated(seq![45u8, 97u8, 44u8, 32u8, 45u8, 45u8, 97u8, 108u8, 108u8, 0u8]) == info_G24().descs
{
    assert(adjacent(seq![seq![45u8, 45u8, 97u8, 108u8, 108u8], seq![97u8]])) by (compute);
    lemma_adjacent(seq![seq![45u8, 45u8, 97u8, 108u8, 108u8], seq![97u8]]);
    assert(terminated(seq![45u8, 97u8, 44u8, 32u8, 45u8, 45u8, 97u8, 108u8, 108u8, 0u8]) == info_G24().descs) by (compute);
}

@impl gen::<G24 as Args>
    open spec fn rel(c: Seq<Entry>, rest: Seq<B>, r: core::result::Result<(Seq<Entry>, Self), ErrV>) -> bool {
        exists|q: End_G24| #[trigger] run_rel(start_G24(c, rest), sub_G24(), q) && (match q {
        Err(e) => r matches Err(e2) && e2 == e,
        Ok((d, got)) => match r {
            Err(e) => broken_G24(d.last().fields, got, e),
            Ok((c2, x)) => c2 == d.drop_last() && kept_G24(d.last().fields, got) && (value_G24(d.last().fields, got, x.all)),
        } })
    }
    open spec fn info() -> InfoV { info_G24() }
@fn gen::<G24 as Args>::__INFO
@owner C05 C11
@attr #[verifier::spinoff_prover]
@at start
        proof { vx_flags(); table_G24(); }
@at after vx_static
        proof { assert(keys(__vx_tail.named_attrs@) =~= seq![seq![45u8, 45u8, 97u8, 108u8, 108u8], seq![97u8]]); assert(__vx_tail.v().names =~= info_G24().names); }
@fn gen::<G24 as Args>::__parse
@owner C08 C09 C12
@attr #[verifier::spinoff_prover]
@at start
        let ghost (h_c1, h_r1) = (__frame.chain(), __parser.rest());
        let ghost mut h_fld = Seq::<PlaceSt>::empty();
        let ghost mut h_d = Seq::<Entry>::empty();
        let ghost mut h_sgot = None::<Val>;
@at before vx_run
        let ghost (h_f0, h_f1) = (__frame1, __frame1.fields@);
        proof {
            facts_G24(); lemma_wf_push(h_c1, entry_G24());
            assert(sts(h_f1) =~= entry_G24().fields);
            assert(h_f0.entry() =~~= entry_G24()); assert(h_f0.chain() =~~= h_c1.push(entry_G24()));
            assert(cur(h_f0, h_r1) =~~= start_G24(h_c1, h_r1));
        }
@at after vx_run
        let ghost h_g1 = __frame1.fields@;
        proof {
            h_d = __frame1.chain(); h_fld = sts(h_g1);
            if __vx_tail is Ok {
            assert(h_d.drop_last() =~= __frame1.parent.chain());
            assert(has_resolved(__frame1.parent)); assert(has_resolved(__frame1.fields));
            let h_f2 = final(h_f0.fields)@;
            assert(h_f0.fut() == __frame1.fut()); assert(h_f0.fut()->In_3 == h_f0.fin()); assert(__frame1.fut()->In_3 == __frame1.fin());
            assert(ends(h_f1) == ends(h_g1)); assert(ends(h_f1).len() == 1); assert(ends(h_g1).len() == h_g1.len()); assert(ends(h_f2) == ends(h_g1)); assert(ends(h_f2).len() == h_f2.len());
            assert(has_resolved(h_f2[0])); assert(ends(h_f1)[0] == final(h_f1[0]).st());
            assert(ends(h_f2) =~= sts(h_f2)); assert(sts(h_f2) == h_fld);
            assert(all.st() == h_fld[0]);
            h_sgot = None;
            assert(run_rel(start_G24(h_c1, h_r1), sub_G24(), Ok((h_d, h_sgot))));
        } }
@at end
        proof {
            assert(kept_G24(h_fld, h_sgot)); assert(h_d.drop_last() == __frame.chain());
            let x = (*__out)->0;
            assert(value_G24(h_fld, h_sgot, x.all));
        }

@raw
// ======== E25 ========

@item gen::E25
@fn gen::__VARIANT_INFOS_E25
    ensures r@.len() == 1, r@[0].v() =~= no_info(), r@[0].ok()
@owner C05 C06 C11
@attr #[verifier::spinoff_prover]
@at start
        proof { vx_flags(); lemma_terminated_empty(); }

@impl gen::<E25 as Subcommand>
    open spec fn rel(idx: usize, c: Seq<Entry>, rest: Seq<B>, r: core::result::Result<(Seq<Entry>, Self), ErrV>) -> bool {
        match idx {
            0usize => match r {
                Err(e) => run_rel(Cur { c: c.push(unit_entry(no_info())), next: 0, rest }, None, Err(e)),
                Ok((c2, x)) => x is Again && exists|d: Seq<Entry>| #[trigger] run_rel(Cur { c: c.push(unit_entry(no_info())), next: 0, rest }, None, Ok((d, None))) && c2 == d.drop_last(),
            },
            _ => false,
        }
    }
    open spec fn subs() -> Seq<(B, usize)> { seq![(seq![97u8, 103u8, 97u8, 105u8, 110u8], 0usize)] }
    open spec fn count() -> int { 1 }
    proof fn subs_ok() {}
@fn gen::<E25 as Subcommand>::__INFO
@owner C05 C06
@attr #[verifier::spinoff_prover]
@at start
        proof { assert(adjacent(seq![seq![97u8, 103u8, 97u8, 105u8, 110u8]])) by (compute); lemma_adjacent(seq![seq![97u8, 103u8, 97u8, 105u8, 110u8]]); }
@fn gen::<E25 as Subcommand>::__parse
@owner C06 C08 C09 C12
@attr #[verifier::spinoff_prover]
@at start
        let ghost (h_c1, h_r1) = (__frame.chain(), __parser.rest());
        let ghost mut h_fld = Seq::<PlaceSt>::empty();
        let ghost mut h_d = Seq::<Entry>::empty();
        let ghost mut h_sgot = None::<Val>;

@raw
// ======== E23 ========

@item gen::E23
@raw
pub open spec fn info_E23_Ice() -> InfoV { InfoV {
    names: seq![(seq![116u8], (0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::GLOBAL.0) as u32)],
    pos: Seq::<u32>::empty(),
    descs: seq![seq![45u8, 116u8, 32u8, 60u8, 84u8, 62u8]],
    subs: Some(<E25 as Subcommand>::subs()) } }
pub open spec fn entry_E23_Ice() -> Entry { Entry { cmd: false, name: Seq::<char>::empty(), info: info_E23_Ice(), fields: seq![PlaceSt { kind: PKind::Set, parse: parse_fn::<VxParser<u8>>(), vals: None }] } }
/// The end of parsing finds constraint broken, and says so.
pub open spec fn broken_E23_Ice(f: Seq<PlaceSt>, got: Option<Val>, e: ErrV) -> bool {
    ||| false
}
pub open spec fn kept_E23_Ice(f: Seq<PlaceSt>, got: Option<Val>) -> bool {
    &&& true
}
pub open spec fn value_E23_Ice(f: Seq<PlaceSt>, got: Option<Val>, x_t: Option<u8>, x_c: Option<E25>) -> bool {
    &&& true
    &&& match f[0].vals { None => x_t is None, Some(s) => x_t matches Some(y) && s == seq![val(y)] }
    &&& got == (match x_c { Some(y) => Some(val(y)), None => None })
}
pub type End_E23_Ice = core::result::Result<(Seq<Entry>, Option<Val>), ErrV>;
pub open spec fn start_E23_Ice(c: Seq<Entry>, rest: Seq<B>) -> Cur { Cur { c: c.push(entry_E23_Ice()), next: 0, rest } }
pub open spec fn sub_E23_Ice() -> Option<SubRel> { Some(sub_rel::<E25>()) }
// @owner C05
pub proof fn facts_E23_Ice()
    ensures wf_entry(entry_E23_Ice()), forall|i: int| 0 <= i < info_E23_Ice().subs->0.len() ==> (#[trigger] info_E23_Ice().subs->0[i]).1 < <E25 as Subcommand>::count()
{
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::GLOBAL.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::GLOBAL.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(0, (0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::GLOBAL.0) as u32); assert((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::GLOBAL.0) as u32 == (0 + ((0 + ArgAttrs::REQUIRE_VALUE.0 + ArgAttrs::GLOBAL.0) as u32)) as u32) by (compute);
    assert(valid_utf8(seq![116u8])) by (compute);
    <E25 as Subcommand>::subs_ok();
}
// @owner C05 C11
pub proof fn table_E23_Ice()
    ensures sorted(seq![seq![116u8]]), terminated(seq![45u8, 116u8, 32u8, 60u8, 84u8, 62u8, 0u8]) == info_E23_Ice().descs
{
    assert(adjacent(seq![seq![116u8]])) by (compute);
    lemma_adjacent(seq![seq![116u8]]);
    assert(terminated(seq![45u8, 116u8, 32u8, 60u8, 84u8, 62u8, 0u8]) == info_E23_Ice().descs) by (compute);
}

@fn gen::__VARIANT_INFOS_E23
    ensures r@.len() == 3, r@[0].v() =~= no_info(), r@[0].ok(), r@[1].v() =~= <G24 as Args>::info(), r@[1].ok(), r@[2].v() =~= info_E23_Ice(), r@[2].ok()
@owner C05 C06 C11
@attr #[verifier::spinoff_prover]
@at start
        proof { vx_flags(); lemma_terminated_empty(); }
        proof { vx_flags(); table_E23_Ice(); }

@impl gen::<E23 as Subcommand>
    open spec fn rel(idx: usize, c: Seq<Entry>, rest: Seq<B>, r: core::result::Result<(Seq<Entry>, Self), ErrV>) -> bool {
        match idx {
            0usize => match r {
                Err(e) => run_rel(Cur { c: c.push(unit_entry(no_info())), next: 0, rest }, None, Err(e)),
                Ok((c2, x)) => x is IOTest && exists|d: Seq<Entry>| #[trigger] run_rel(Cur { c: c.push(unit_entry(no_info())), next: 0, rest }, None, Ok((d, None))) && c2 == d.drop_last(),
            },
            1usize => match r {
                Err(e) => <G24 as Args>::rel(c, rest, Err(e)),
                Ok((c2, x)) => x matches E23::B2b(y) && <G24 as Args>::rel(c, rest, Ok((c2, y))),
            },
            2usize => exists|q: End_E23_Ice| #[trigger] run_rel(start_E23_Ice(c, rest), sub_E23_Ice(), q) && (match q {
            Err(e) => r matches Err(e2) && e2 == e,
            Ok((d, got)) => match r {
                Err(e) => broken_E23_Ice(d.last().fields, got, e),
                Ok((c2, x)) => c2 == d.drop_last() && kept_E23_Ice(d.last().fields, got) && (x matches E23::Ice { t: x_t, c: x_c } && value_E23_Ice(d.last().fields, got, x_t, x_c)),
            } }),
            _ => false,
        }
    }
    open spec fn subs() -> Seq<(B, usize)> { seq![(seq![98u8, 50u8, 98u8], 1usize), (seq![105u8, 99u8, 101u8], 2usize), (seq![105u8, 111u8, 45u8, 116u8, 101u8, 115u8, 116u8], 0usize)] }
    open spec fn count() -> int { 3 }
    proof fn subs_ok() {}
@fn gen::<E23 as Subcommand>::__INFO
@owner C05 C06
@attr #[verifier::spinoff_prover]
@at start
        proof { assert(adjacent(seq![seq![98u8, 50u8, 98u8], seq![105u8, 99u8, 101u8], seq![105u8, 111u8, 45u8, 116u8, 101u8, 115u8, 116u8]])) by (compute); lemma_adjacent(seq![seq![98u8, 50u8, 98u8], seq![105u8, 99u8, 101u8], seq![105u8, 111u8, 45u8, 116u8, 101u8, 115u8, 116u8]]); }
@fn gen::<E23 as Subcommand>::__parse
@owner C06 C08 C09 C12
@attr #[verifier::spinoff_prover]
@at start
        let ghost (h_c1, h_r1) = (__frame.chain(), __parser.rest());
        let ghost mut h_fld = Seq::<PlaceSt>::empty();
        let ghost mut h_d = Seq::<Entry>::empty();
        let ghost mut h_sgot = None::<Val>;
@at before vx_run 1
        let ghost (h_f0, h_f1) = (__frame1, __frame1.fields@);
        proof {
            facts_E23_Ice(); lemma_wf_push(h_c1, entry_E23_Ice());
            assert(sts(h_f1) =~= entry_E23_Ice().fields);
            assert(h_f0.entry() =~~= entry_E23_Ice()); assert(h_f0.chain() =~~= h_c1.push(entry_E23_Ice()));
            assert(cur(h_f0, h_r1) =~~= start_E23_Ice(h_c1, h_r1));
        }
@at after vx_run 1
        let ghost h_g1 = __frame1.fields@;
        proof {
            h_d = __frame1.chain(); h_fld = sts(h_g1);
            if __vx_tail is Ok {
            assert(h_d.drop_last() =~= __frame1.parent.chain());
            assert(has_resolved(__frame1.parent)); assert(has_resolved(__frame1.fields));
            let h_f2 = final(h_f0.fields)@;
            assert(h_f0.fut() == __frame1.fut()); assert(h_f0.fut()->In_3 == h_f0.fin()); assert(__frame1.fut()->In_3 == __frame1.fin());
            assert(ends(h_f1) == ends(h_g1)); assert(ends(h_f1).len() == 1); assert(ends(h_g1).len() == h_g1.len()); assert(ends(h_f2) == ends(h_g1)); assert(ends(h_f2).len() == h_f2.len());
            assert(has_resolved(h_f2[0])); assert(ends(h_f1)[0] == final(h_f1[0]).st());
            assert(ends(h_f2) =~= sts(h_f2)); assert(sts(h_f2) == h_fld);
            assert(t.st() == h_fld[0]);
            h_sgot = c.got(); assert(final(h_f0.subcmd->0).got() == h_sgot);
            assert(run_rel(start_E23_Ice(h_c1, h_r1), sub_E23_Ice(), Ok((h_d, h_sgot))));
        } }
@at before Ok 3
        proof {
            assert(kept_E23_Ice(h_fld, h_sgot)); assert(h_d.drop_last() == __frame.chain());
            assert(*__out matches Some(E23::Ice { t: y_t, c: y_c }) && value_E23_Ice(h_fld, h_sgot, y_t, y_c));
        }

@raw
// ======== G22 ========

@item gen::G22
@raw
pub open spec fn info_G22() -> InfoV { InfoV {
    names: Seq::<(B, u32)>::empty(),
    pos: Seq::<u32>::empty(),
    descs: Seq::<B>::empty(),
    subs: Some(<E23 as Subcommand>::subs()) } }
pub open spec fn entry_G22() -> Entry { Entry { cmd: false, name: Seq::<char>::empty(), info: info_G22(), fields: Seq::<PlaceSt>::empty() } }
/// The end of parsing finds constraint broken, and says so.
pub open spec fn broken_G22(f: Seq<PlaceSt>, got: Option<Val>, e: ErrV) -> bool {
    ||| false
    ||| got is None && e == (err0(ErrorKind::MissingRequiredSubcommand))
}
pub open spec fn kept_G22(f: Seq<PlaceSt>, got: Option<Val>) -> bool {
    &&& true
    &&& !(got is None)
}
pub open spec fn value_G22(f: Seq<PlaceSt>, got: Option<Val>, x_c: E23) -> bool {
    &&& true
    &&& got == Some(val(x_c))
}
pub type End_G22 = core::result::Result<(Seq<Entry>, Option<Val>), ErrV>;
pub open spec fn start_G22(c: Seq<Entry>, rest: Seq<B>) -> Cur { Cur { c: c.push(entry_G22()), next: 0, rest } }
pub open spec fn sub_G22() -> Option<SubRel> { Some(sub_rel::<E23>()) }
// @owner C05
pub proof fn facts_G22()
    ensures wf_entry(entry_G22()), forall|i: int| 0 <= i < info_G22().subs->0.len() ==> (#[trigger] info_G22().subs->0[i]).1 < <E23 as Subcommand>::count()
{
    <E23 as Subcommand>::subs_ok();
}
// @owner C05 C11
pub proof fn table_G22()
    ensures sorted(Seq::<B>::empty()), terminated(Seq::<u8>::empty()) == info_G22().descs
{
    assert(adjacent(Seq::<B>::empty())) by (compute);
    lemma_adjacent(Seq::<B>::empty());
    assert(terminated(Seq::<u8>::empty()) == info_G22().descs) by (compute);
}

@impl gen::<G22 as Args>
    open spec fn rel(c: Seq<Entry>, rest: Seq<B>, r: core::result::Result<(Seq<Entry>, Self), ErrV>) -> bool {
        exists|q: End_G22| #[trigger] run_rel(start_G22(c, rest), sub_G22(), q) && (match q {
        Err(e) => r matches Err(e2) && e2 == e,
        Ok((d, got)) => match r {
            Err(e) => broken_G22(d.last().fields, got, e),
            Ok((c2, x)) => c2 == d.drop_last() && kept_G22(d.last().fields, got) && (value_G22(d.last().fields, got, x.c)),
        } })
    }
    open spec fn info() -> InfoV { info_G22() }
@fn gen::<G22 as Args>::__INFO
@owner C05 C11
@attr #[verifier::spinoff_prover]
@at start
        proof { vx_flags(); table_G22(); }
@at after vx_static
        proof { assert(keys(__vx_tail.named_attrs@) =~= Seq::<B>::empty()); assert(__vx_tail.v().names =~= info_G22().names); }
@fn gen::<G22 as Args>::__parse
@owner C08 C09 C12
@attr #[verifier::spinoff_prover]
@at start
        let ghost (h_c1, h_r1) = (__frame.chain(), __parser.rest());
        let ghost mut h_fld = Seq::<PlaceSt>::empty();
        let ghost mut h_d = Seq::<Entry>::empty();
        let ghost mut h_sgot = None::<Val>;
@at before vx_run
        let ghost (h_f0, h_f1) = (__frame1, __frame1.fields@);
        proof {
            facts_G22(); lemma_wf_push(h_c1, entry_G22());
            assert(sts(h_f1) =~= entry_G22().fields);
            assert(h_f0.entry() =~~= entry_G22()); assert(h_f0.chain() =~~= h_c1.push(entry_G22()));
            assert(cur(h_f0, h_r1) =~~= start_G22(h_c1, h_r1));
        }
@at after vx_run
        let ghost h_g1 = __frame1.fields@;
        proof {
            h_d = __frame1.chain(); h_fld = sts(h_g1);
            if __vx_tail is Ok {
            assert(h_d.drop_last() =~= __frame1.parent.chain());
            assert(has_resolved(__frame1.parent)); assert(has_resolved(__frame1.fields));
            let h_f2 = final(h_f0.fields)@;
            assert(h_f0.fut() == __frame1.fut()); assert(h_f0.fut()->In_3 == h_f0.fin()); assert(__frame1.fut()->In_3 == __frame1.fin());
            assert(ends(h_f1) == ends(h_g1)); assert(ends(h_f1).len() == 0); assert(ends(h_g1).len() == h_g1.len()); assert(ends(h_f2) == ends(h_g1)); assert(ends(h_f2).len() == h_f2.len());
            assert(ends(h_f2) =~= sts(h_f2)); assert(sts(h_f2) == h_fld);
            h_sgot = c.got(); assert(final(h_f0.subcmd->0).got() == h_sgot);
            assert(run_rel(start_G22(h_c1, h_r1), sub_G22(), Ok((h_d, h_sgot))));
        } }
@at end
        proof {
            assert(kept_G22(h_fld, h_sgot)); assert(h_d.drop_last() == __frame.chain());
            let x = (*__out)->0;
            assert(value_G22(h_fld, h_sgot, x.c));
        }

@mod m16
@raw
use super::vals::*;

@raw
// ======== G26 ========

@item gen::G26
@raw
pub open spec fn info_G26() -> InfoV { InfoV {
    names: Seq::<(B, u32)>::empty(),
    pos: seq![(0 + ArgAttrs::REQUIRE_VALUE.0) as u32],
    descs: seq![seq![60u8, 79u8, 78u8, 76u8, 89u8, 62u8]],
    subs: None } }
pub open spec fn entry_G26() -> Entry { Entry { cmd: false, name: Seq::<char>::empty(), info: info_G26(), fields: seq![PlaceSt { kind: PKind::Set, parse: parse_fn::<VxParser<String>>(), vals: None }] } }
/// The end of parsing finds constraint broken, and says so.
pub open spec fn broken_G26(f: Seq<PlaceSt>, got: Option<Val>, e: ErrV) -> bool {
    ||| false
    ||| !(f[0].vals is Some) && e == (ErrV { arg: Some(seq![60u8, 79u8, 78u8, 76u8, 89u8, 62u8]), ..err0(ErrorKind::MissingRequiredArgument) })
}
pub open spec fn kept_G26(f: Seq<PlaceSt>, got: Option<Val>) -> bool {
    &&& true
    &&& !(!(f[0].vals is Some))
}
pub open spec fn value_G26(f: Seq<PlaceSt>, got: Option<Val>, x_only: String) -> bool {
    &&& true
    &&& match f[0].vals { None => false, Some(s) => s == seq![val(x_only)] }
}
pub type End_G26 = core::result::Result<(Seq<Entry>, Option<Val>), ErrV>;
pub open spec fn start_G26(c: Seq<Entry>, rest: Seq<B>) -> Cur { Cur { c: c.push(entry_G26()), next: 0, rest } }
pub open spec fn sub_G26() -> Option<SubRel> { None }
// @owner C05
pub proof fn facts_G26()
    ensures wf_entry(entry_G26())
{
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(0, (0 + ArgAttrs::REQUIRE_VALUE.0) as u32); assert((0 + ArgAttrs::REQUIRE_VALUE.0) as u32 == (0 + ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32)) as u32) by (compute);
}
// @owner C05 C11
pub proof fn table_G26()
    ensures sorted(Seq::<B>::empty()), terminated(seq![60u8, 79u8, 78u8, 76u8, 89u8, 62u8, 0u8]) == info_G26().descs
{
    assert(adjacent(Seq::<B>::empty())) by (compute);
    lemma_adjacent(Seq::<B>::empty());
    assert(terminated(seq![60u8, 79u8, 78u8, 76u8, 89u8, 62u8, 0u8]) == info_G26().descs) by (compute);
}

@impl gen::<G26 as Args>
    open spec fn rel(c: Seq<Entry>, rest: Seq<B>, r: core::result::Result<(Seq<Entry>, Self), ErrV>) -> bool {
        exists|q: End_G26| #[trigger] run_rel(start_G26(c, rest), sub_G26(), q) && (match q {
        Err(e) => r matches Err(e2) && e2 == e,
        Ok((d, got)) => match r {
            Err(e) => broken_G26(d.last().fields, got, e),
            Ok((c2, x)) => c2 == d.drop_last() && kept_G26(d.last().fields, got) && (value_G26(d.last().fields, got, x.only)),
        } })
    }
    open spec fn info() -> InfoV { info_G26() }
@fn gen::<G26 as Args>::__INFO
@owner C05 C11
@attr #[verifier::spinoff_prover]
@at start
        proof { vx_flags(); table_G26(); }
@at after vx_static
        proof { assert(keys(__vx_tail.named_attrs@) =~= Seq::<B>::empty()); assert(__vx_tail.v().names =~= info_G26().names); }
@fn gen::<G26 as Args>::__parse
@owner C08 C09 C12
@attr #[verifier::spinoff_prover]
@at start
        let ghost (h_c1, h_r1) = (__frame.chain(), __parser.rest());
        let ghost mut h_fld = Seq::<PlaceSt>::empty();
        let ghost mut h_d = Seq::<Entry>::empty();
        let ghost mut h_sgot = None::<Val>;
@at before vx_run
        let ghost (h_f0, h_f1) = (__frame1, __frame1.fields@);
        proof {
            facts_G26(); lemma_wf_push(h_c1, entry_G26());
            assert(sts(h_f1) =~= entry_G26().fields);
            assert(h_f0.entry() =~~= entry_G26()); assert(h_f0.chain() =~~= h_c1.push(entry_G26()));
            assert(cur(h_f0, h_r1) =~~= start_G26(h_c1, h_r1));
        }
@at after vx_run
        let ghost h_g1 = __frame1.fields@;
        proof {
            h_d = __frame1.chain(); h_fld = sts(h_g1);
            if __vx_tail is Ok {
            assert(h_d.drop_last() =~= __frame1.parent.chain());
            assert(has_resolved(__frame1.parent)); assert(has_resolved(__frame1.fields));
            let h_f2 = final(h_f0.fields)@;
            assert(h_f0.fut() == __frame1.fut()); assert(h_f0.fut()->In_3 == h_f0.fin()); assert(__frame1.fut()->In_3 == __frame1.fin());
            assert(ends(h_f1) == ends(h_g1)); assert(ends(h_f1).len() == 1); assert(ends(h_g1).len() == h_g1.len()); assert(ends(h_f2) == ends(h_g1)); assert(ends(h_f2).len() == h_f2.len());
            assert(has_resolved(h_f2[0])); assert(ends(h_f1)[0] == final(h_f1[0]).st());
            assert(ends(h_f2) =~= sts(h_f2)); assert(sts(h_f2) == h_fld);
            assert(only.st() == h_fld[0]);
            h_sgot = None;
            assert(run_rel(start_G26(h_c1, h_r1), sub_G26(), Ok((h_d, h_sgot))));
        } }
@at end
        proof {
            assert(kept_G26(h_fld, h_sgot)); assert(h_d.drop_last() == __frame.chain());
            let x = (*__out)->0;
            assert(value_G26(h_fld, h_sgot, x.only));
        }

@mod m17
@raw
use super::vals::*;

@raw
// ======== G27 ========

@item gen::G27
@raw
pub open spec fn info_G27() -> InfoV { InfoV {
    names: Seq::<(B, u32)>::empty(),
    pos: Seq::<u32>::empty(),
    descs: Seq::<B>::empty(),
    subs: None } }
pub open spec fn entry_G27() -> Entry { Entry { cmd: false, name: Seq::<char>::empty(), info: info_G27(), fields: Seq::<PlaceSt>::empty() } }
/// The end of parsing finds constraint broken, and says so.
pub open spec fn broken_G27(f: Seq<PlaceSt>, got: Option<Val>, e: ErrV) -> bool {
    ||| false
}
pub open spec fn kept_G27(f: Seq<PlaceSt>, got: Option<Val>) -> bool {
    &&& true
}
pub open spec fn value_G27(f: Seq<PlaceSt>, got: Option<Val>) -> bool {
    &&& true
}
pub type End_G27 = core::result::Result<(Seq<Entry>, Option<Val>), ErrV>;
pub open spec fn start_G27(c: Seq<Entry>, rest: Seq<B>) -> Cur { Cur { c: c.push(entry_G27()), next: 0, rest } }
pub open spec fn sub_G27() -> Option<SubRel> { None }
// @owner C05
pub proof fn facts_G27()
    ensures wf_entry(entry_G27())
{
}
// @owner C05 C11
pub proof fn table_G27()
    ensures sorted(Seq::<B>::empty()), terminated(Seq::<u8>::empty()) == info_G27().descs
{
    assert(adjacent(Seq::<B>::empty())) by (compute);
    lemma_adjacent(Seq::<B>::empty());
    assert(terminated(Seq::<u8>::empty()) == info_G27().descs) by (compute);
}

@impl gen::<G27 as Args>
    open spec fn rel(c: Seq<Entry>, rest: Seq<B>, r: core::result::Result<(Seq<Entry>, Self), ErrV>) -> bool {
        exists|q: End_G27| #[trigger] run_rel(start_G27(c, rest), sub_G27(), q) && (match q {
        Err(e) => r matches Err(e2) && e2 == e,
        Ok((d, got)) => match r {
            Err(e) => broken_G27(d.last().fields, got, e),
            Ok((c2, x)) => c2 == d.drop_last() && kept_G27(d.last().fields, got) && (value_G27(d.last().fields, got)),
        } })
    }
    open spec fn info() -> InfoV { info_G27() }
@fn gen::<G27 as Args>::__INFO
@owner C05 C11
@attr #[verifier::spinoff_prover]
@at start
        proof { vx_flags(); table_G27(); }
@at after vx_static
        proof { assert(keys(__vx_tail.named_attrs@) =~= Seq::<B>::empty()); assert(__vx_tail.v().names =~= info_G27().names); }
@fn gen::<G27 as Args>::__parse
@owner C08 C09 C12
@attr #[verifier::spinoff_prover]
@at start
        let ghost (h_c1, h_r1) = (__frame.chain(), __parser.rest());
        let ghost mut h_fld = Seq::<PlaceSt>::empty();
        let ghost mut h_d = Seq::<Entry>::empty();
        let ghost mut h_sgot = None::<Val>;
@at before vx_run
        let ghost (h_f0, h_f1) = (__frame1, __frame1.fields@);
        proof {
            facts_G27(); lemma_wf_push(h_c1, entry_G27());
            assert(sts(h_f1) =~= entry_G27().fields);
            assert(h_f0.entry() =~~= entry_G27()); assert(h_f0.chain() =~~= h_c1.push(entry_G27()));
            assert(cur(h_f0, h_r1) =~~= start_G27(h_c1, h_r1));
        }
@at after vx_run
        let ghost h_g1 = __frame1.fields@;
        proof {
            h_d = __frame1.chain(); h_fld = sts(h_g1);
            if __vx_tail is Ok {
            assert(h_d.drop_last() =~= __frame1.parent.chain());
            assert(has_resolved(__frame1.parent)); assert(has_resolved(__frame1.fields));
            let h_f2 = final(h_f0.fields)@;
            assert(h_f0.fut() == __frame1.fut()); assert(h_f0.fut()->In_3 == h_f0.fin()); assert(__frame1.fut()->In_3 == __frame1.fin());
            assert(ends(h_f1) == ends(h_g1)); assert(ends(h_f1).len() == 0); assert(ends(h_g1).len() == h_g1.len()); assert(ends(h_f2) == ends(h_g1)); assert(ends(h_f2).len() == h_f2.len());
            assert(ends(h_f2) =~= sts(h_f2)); assert(sts(h_f2) == h_fld);
            h_sgot = None;
            assert(run_rel(start_G27(h_c1, h_r1), sub_G27(), Ok((h_d, h_sgot))));
        } }
@at end
        proof {
            assert(kept_G27(h_fld, h_sgot)); assert(h_d.drop_last() == __frame.chain());
            let x = (*__out)->0;
            assert(value_G27(h_fld, h_sgot));
        }

@mod m18
@raw
use super::vals::*;

@raw
// ======== G28 ========

@item gen::G28
@raw
pub open spec fn info_G28() -> InfoV { InfoV {
    names: seq![(seq![45u8, 45u8, 97u8, 97u8], (0) as u32), (seq![45u8, 45u8, 98u8, 98u8], (1) as u32), (seq![45u8, 45u8, 99u8, 99u8], (2) as u32), (seq![45u8, 45u8, 100u8, 100u8], (3) as u32), (seq![45u8, 45u8, 101u8, 101u8], (4) as u32), (seq![45u8, 45u8, 102u8, 102u8], (5) as u32), (seq![45u8, 45u8, 103u8, 103u8], (6) as u32), (seq![45u8, 45u8, 104u8, 104u8], (7) as u32), (seq![45u8, 45u8, 105u8, 105u8], (8) as u32), (seq![97u8], (0) as u32), (seq![98u8], (1) as u32), (seq![99u8], (2) as u32), (seq![100u8], (3) as u32), (seq![101u8], (4) as u32), (seq![102u8], (5) as u32), (seq![103u8], (6) as u32), (seq![104u8], (7) as u32), (seq![105u8], (8) as u32), (seq![106u8], (9 + ArgAttrs::REQUIRE_VALUE.0) as u32)],
    pos: Seq::<u32>::empty(),
    descs: seq![seq![45u8, 97u8, 44u8, 32u8, 45u8, 45u8, 97u8, 97u8], seq![45u8, 98u8, 44u8, 32u8, 45u8, 45u8, 98u8, 98u8], seq![45u8, 99u8, 44u8, 32u8, 45u8, 45u8, 99u8, 99u8], seq![45u8, 100u8, 44u8, 32u8, 45u8, 45u8, 100u8, 100u8], seq![45u8, 101u8, 44u8, 32u8, 45u8, 45u8, 101u8, 101u8], seq![45u8, 102u8, 44u8, 32u8, 45u8, 45u8, 102u8, 102u8], seq![45u8, 103u8, 44u8, 32u8, 45u8, 45u8, 103u8, 103u8], seq![45u8, 104u8, 44u8, 32u8, 45u8, 45u8, 104u8, 104u8], seq![45u8, 105u8, 44u8, 32u8, 45u8, 45u8, 105u8, 105u8], seq![45u8, 106u8, 32u8, 60u8, 74u8, 62u8]],
    subs: None } }
pub open spec fn entry_G28() -> Entry { Entry { cmd: false, name: Seq::<char>::empty(), info: info_G28(), fields: seq![FlagPlace(None).st(), FlagPlace(None).st(), FlagPlace(None).st(), FlagPlace(None).st(), FlagPlace(None).st(), FlagPlace(None).st(), FlagPlace(None).st(), FlagPlace(None).st(), FlagPlace(None).st(), PlaceSt { kind: PKind::Set, parse: parse_fn::<VxParser<u8>>(), vals: None }] } }
/// The end of parsing finds constraint broken, and says so.
pub open spec fn broken_G28(f: Seq<PlaceSt>, got: Option<Val>, e: ErrV) -> bool {
    ||| false
    ||| f[0].vals is Some && f[9].vals is Some && e == (ErrV { arg: Some(seq![45u8, 97u8, 44u8, 32u8, 45u8, 45u8, 97u8, 97u8]), ..err0(ErrorKind::ConstraintConflict) })
    ||| f[9].vals is Some && (f[0].vals is Some || f[1].vals is Some || f[2].vals is Some || f[3].vals is Some || f[4].vals is Some || f[5].vals is Some || f[6].vals is Some || f[7].vals is Some || f[8].vals is Some) && e == (ErrV { arg: Some(seq![45u8, 106u8, 32u8, 60u8, 74u8, 62u8]), ..err0(ErrorKind::ConstraintExclusive) })
}
pub open spec fn kept_G28(f: Seq<PlaceSt>, got: Option<Val>) -> bool {
    &&& true
    &&& !(f[0].vals is Some && f[9].vals is Some)
    &&& !(f[9].vals is Some && (f[0].vals is Some || f[1].vals is Some || f[2].vals is Some || f[3].vals is Some || f[4].vals is Some || f[5].vals is Some || f[6].vals is Some || f[7].vals is Some || f[8].vals is Some))
}
pub open spec fn value_G28(f: Seq<PlaceSt>, got: Option<Val>, x_a: bool, x_b: bool, x_c: bool, x_d: bool, x_e: bool, x_f: bool, x_g: bool, x_h: bool, x_i: bool, x_j: Option<u8>) -> bool {
    &&& true
    &&& match f[0].vals { None => x_a == false, Some(s) => s == seq![val(x_a)] }
    &&& match f[1].vals { None => x_b == false, Some(s) => s == seq![val(x_b)] }
    &&& match f[2].vals { None => x_c == false, Some(s) => s == seq![val(x_c)] }
    &&& match f[3].vals { None => x_d == false, Some(s) => s == seq![val(x_d)] }
    &&& match f[4].vals { None => x_e == false, Some(s) => s == seq![val(x_e)] }
    &&& match f[5].vals { None => x_f == false, Some(s) => s == seq![val(x_f)] }
    &&& match f[6].vals { None => x_g == false, Some(s) => s == seq![val(x_g)] }
    &&& match f[7].vals { None => x_h == false, Some(s) => s == seq![val(x_h)] }
    &&& match f[8].vals { None => x_i == false, Some(s) => s == seq![val(x_i)] }
    &&& match f[9].vals { None => x_j is None, Some(s) => x_j matches Some(y) && s == seq![val(y)] }
}
pub type End_G28 = core::result::Result<(Seq<Entry>, Option<Val>), ErrV>;
pub open spec fn start_G28(c: Seq<Entry>, rest: Seq<B>) -> Cur { Cur { c: c.push(entry_G28()), next: 0, rest } }
pub open spec fn sub_G28() -> Option<SubRel> { None }
// @owner C05
pub proof fn facts_G28()
    ensures wf_entry(entry_G28())
{
    assert((((0) as u32) & 0xffu32) == 0 && ((0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(0, (0) as u32); assert((0) as u32 == (0 + ((0) as u32)) as u32) by (compute);
    assert((((0) as u32) & 0xffu32) == 0 && ((0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(1, (0) as u32); assert((1) as u32 == (1 + ((0) as u32)) as u32) by (compute);
    assert((((0) as u32) & 0xffu32) == 0 && ((0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(2, (0) as u32); assert((2) as u32 == (2 + ((0) as u32)) as u32) by (compute);
    assert((((0) as u32) & 0xffu32) == 0 && ((0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(3, (0) as u32); assert((3) as u32 == (3 + ((0) as u32)) as u32) by (compute);
    assert((((0) as u32) & 0xffu32) == 0 && ((0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(4, (0) as u32); assert((4) as u32 == (4 + ((0) as u32)) as u32) by (compute);
    assert((((0) as u32) & 0xffu32) == 0 && ((0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(5, (0) as u32); assert((5) as u32 == (5 + ((0) as u32)) as u32) by (compute);
    assert((((0) as u32) & 0xffu32) == 0 && ((0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(6, (0) as u32); assert((6) as u32 == (6 + ((0) as u32)) as u32) by (compute);
    assert((((0) as u32) & 0xffu32) == 0 && ((0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(7, (0) as u32); assert((7) as u32 == (7 + ((0) as u32)) as u32) by (compute);
    assert((((0) as u32) & 0xffu32) == 0 && ((0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(8, (0) as u32); assert((8) as u32 == (8 + ((0) as u32)) as u32) by (compute);
    assert((((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) & 0xffu32) == 0 && ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32) < 0x8000_0000u32) by (compute); lemma_idx(9, (0 + ArgAttrs::REQUIRE_VALUE.0) as u32); assert((9 + ArgAttrs::REQUIRE_VALUE.0) as u32 == (9 + ((0 + ArgAttrs::REQUIRE_VALUE.0) as u32)) as u32) by (compute);
    assert(valid_utf8(seq![45u8, 45u8, 97u8, 97u8])) by (compute);
    assert(valid_utf8(seq![45u8, 45u8, 98u8, 98u8])) by (compute);
    assert(valid_utf8(seq![45u8, 45u8, 99u8, 99u8])) by (compute);
    assert(valid_utf8(seq![45u8, 45u8, 100u8, 100u8])) by (compute);
    assert(valid_utf8(seq![45u8, 45u8, 101u8, 101u8])) by (compute);
    assert(valid_utf8(seq![45u8, 45u8, 102u8, 102u8])) by (compute);
    assert(valid_utf8(seq![45u8, 45u8, 103u8, 103u8])) by (compute);
    assert(valid_utf8(seq![45u8, 45u8, 104u8, 104u8])) by (compute);
    assert(valid_utf8(seq![45u8, 45u8, 105u8, 105u8])) by (compute);
    assert(valid_utf8(seq![97u8])) by (compute);
    assert(valid_utf8(seq![98u8])) by (compute);
    assert(valid_utf8(seq![99u8])) by (compute);
    assert(valid_utf8(seq![100u8])) by (compute);
    assert(valid_utf8(seq![101u8])) by (compute);
    assert(valid_utf8(seq![102u8])) by (compute);
    assert(valid_utf8(seq![103u8])) by (compute);
    assert(valid_utf8(seq![104u8])) by (compute);
    assert(valid_utf8(seq![105u8])) by (compute);
    assert(valid_utf8(seq![106u8])) by (compute);
}
// @owner C05 C11
pub proof fn table_G28()
    ensures sorted(seq![seq![45u8, 45u8, 97u8, 97u8], seq![45u8, 45u8, 98u8, 98u8], seq![45u8, 45u8, 99u8, 99u8], seq![45u8, 45u8, 100u8, 100u8], seq![45u8, 45u8, 101u8, 101u8], seq![45u8, 45u8, 102u8, 102u8], seq![45u8, 45u8, 103u8, 103u8], seq![45u8, 45u8, 104u8, 104u8], seq![45u8, 45u8, 105u8, 105u8], seq![97u8], seq![98u8], seq![99u8], seq![100u8], seq![101u8], seq![102u8], seq![103u8], seq![104u8], seq![105u8], seq![106u8]]), terminated(seq![45u8, 97u8, 44u8, 32u8, 45u8, 45u8, 97u8, 97u8, 0u8, 45u8, 98u8, 44u8, 32u8, 45u8, 45u8, 98u8, 98u8, 0u8, 45u8, 99u8, 44u8, 32u8, 45u8, 45u8, 99u8, 99u8, 0u8, 45u8, 100u8, 44u8, 32u8, 45u8, 45u8, 100u8, 100u8, 0u8, 45u8, 101u8, 44u8, 32u8, 45u8, 45u8, 101u8, 101u8, 0u8, 45u8, 102u8, 44u8, 32u8, 45u8, 45u8, 102u8, 102u8, 0u8, 45u8, 103u8, 44u8, 32u8, 45u8, 45u8, 103u8, 103u8, 0u8, 45u8, 104u8, 44u8, 32u8, 45u8, 45u8, 104u8, 104u8, 0u8, 45u8, 105u8, 44u8, 32u8, 45u8, 45u8, 105u8, 105u8, 0u8, 45u8, 106u8, 32u8, 60u8, 74u8, 62u8, 0u8]) == info_G28().descs
{
    assert(adjacent(seq![seq![45u8, 45u8, 97u8, 97u8], seq![45u8, 45u8, 98u8, 98u8], seq![45u8, 45u8, 99u8, 99u8], seq![45u8, 45u8, 100u8, 100u8], seq![45u8, 45u8, 101u8, 101u8], seq![45u8, 45u8, 102u8, 102u8], seq![45u8, 45u8, 103u8, 103u8], seq![45u8, 45u8, 104u8, 104u8], seq![45u8, 45u8, 105u8, 105u8], seq![97u8], seq![98u8], seq![99u8], seq![100u8], seq![101u8], seq![102u8], seq![103u8], seq![104u8], seq![105u8], seq![106u8]])) by (compute);
    lemma_adjacent(seq![seq![45u8, 45u8, 97u8, 97u8], seq![45u8, 45u8, 98u8, 98u8], seq![45u8, 45u8, 99u8, 99u8], seq![45u8, 45u8, 100u8, 100u8], seq![45u8, 45u8, 101u8, 101u8], seq![45u8, 45u8, 102u8, 102u8], seq![45u8, 45u8, 103u8, 103u8], seq![45u8, 45u8, 104u8, 104u8], seq![45u8, 45u8, 105u8, 105u8], seq![97u8], seq![98u8], seq![99u8], seq![100u8], seq![101u8], seq![102u8], seq![103u8], seq![104u8], seq![105u8], seq![106u8]]);
    assert(terminated(seq![45u8, 97u8, 44u8, 32u8, 45u8, 45u8, 97u8, 97u8, 0u8, 45u8, 98u8, 44u8, 32u8, 45u8, 45u8, 98u8, 98u8, 0u8, 45u8, 99u8, 44u8, 32u8, 45u8, 45u8, 99u8, 99u8, 0u8, 45u8, 100u8, 44u8, 32u8, 45u8, 45u8, 100u8, 100u8, 0u8, 45u8, 101u8, 44u8, 32u8, 45u8, 45u8, 101u8, 101u8, 0u8, 45u8, 102u8, 44u8, 32u8, 45u8, 45u8, 102u8, 102u8, 0u8, 45u8, 103u8, 44u8, 32u8, 45u8, 45u8, 103u8, 103u8, 0u8, 45u8, 104u8, 44u8, 32u8, 45u8, 45u8, 104u8, 104u8, 0u8, 45u8, 105u8, 44u8, 32u8, 45u8, 45u8, 105u8, 105u8, 0u8, 45u8, 106u8, 32u8, 60u8, 74u8, 62u8, 0u8]) == info_G28().descs) by (compute);
}

@impl gen::<G28 as Args>
    open spec fn rel(c: Seq<Entry>, rest: Seq<B>, r: core::result::Result<(Seq<Entry>, Self), ErrV>) -> bool {
        exists|q: End_G28| #[trigger] run_rel(start_G28(c, rest), sub_G28(), q) && (match q {
        Err(e) => r matches Err(e2) && e2 == e,
        Ok((d, got)) => match r {
            Err(e) => broken_G28(d.last().fields, got, e),
            Ok((c2, x)) => c2 == d.drop_last() && kept_G28(d.last().fields, got) && (value_G28(d.last().fields, got, x.a, x.b, x.c, x.d, x.e, x.f, x.g, x.h, x.i, x.j)),
        } })
    }
    open spec fn info() -> InfoV { info_G28() }
@fn gen::<G28 as Args>::__INFO
@owner C05 C11
@attr #[verifier::spinoff_prover]
@at start
        proof { vx_flags(); table_G28(); }
@at after vx_static
        proof { assert(keys(__vx_tail.named_attrs@) =~= seq![seq![45u8, 45u8, 97u8, 97u8], seq![45u8, 45u8, 98u8, 98u8], seq![45u8, 45u8, 99u8, 99u8], seq![45u8, 45u8, 100u8, 100u8], seq![45u8, 45u8, 101u8, 101u8], seq![45u8, 45u8, 102u8, 102u8], seq![45u8, 45u8, 103u8, 103u8], seq![45u8, 45u8, 104u8, 104u8], seq![45u8, 45u8, 105u8, 105u8], seq![97u8], seq![98u8], seq![99u8], seq![100u8], seq![101u8], seq![102u8], seq![103u8], seq![104u8], seq![105u8], seq![106u8]]); assert(__vx_tail.v().names =~= info_G28().names); }
@fn gen::<G28 as Args>::__parse
@owner C08 C09 C12
@attr #[verifier::spinoff_prover]
@at start
        let ghost (h_c1, h_r1) = (__frame.chain(), __parser.rest());
        let ghost mut h_fld = Seq::<PlaceSt>::empty();
        let ghost mut h_d = Seq::<Entry>::empty();
        let ghost mut h_sgot = None::<Val>;
@at before vx_run
        let ghost (h_f0, h_f1) = (__frame1, __frame1.fields@);
        proof {
            facts_G28(); lemma_wf_push(h_c1, entry_G28());
            assert(sts(h_f1) =~= entry_G28().fields);
            assert(h_f0.entry() =~~= entry_G28()); assert(h_f0.chain() =~~= h_c1.push(entry_G28()));
            assert(cur(h_f0, h_r1) =~~= start_G28(h_c1, h_r1));
        }
@at after vx_run
        let ghost h_g1 = __frame1.fields@;
        proof {
            h_d = __frame1.chain(); h_fld = sts(h_g1);
            if __vx_tail is Ok {
            assert(h_d.drop_last() =~= __frame1.parent.chain());
            assert(has_resolved(__frame1.parent)); assert(has_resolved(__frame1.fields));
            let h_f2 = final(h_f0.fields)@;
            assert(h_f0.fut() == __frame1.fut()); assert(h_f0.fut()->In_3 == h_f0.fin()); assert(__frame1.fut()->In_3 == __frame1.fin());
            assert(ends(h_f1) == ends(h_g1)); assert(ends(h_f1).len() == 10); assert(ends(h_g1).len() == h_g1.len()); assert(ends(h_f2) == ends(h_g1)); assert(ends(h_f2).len() == h_f2.len());
            assert(has_resolved(h_f2[0])); assert(ends(h_f1)[0] == final(h_f1[0]).st());
            assert(has_resolved(h_f2[1])); assert(ends(h_f1)[1] == final(h_f1[1]).st());
            assert(has_resolved(h_f2[2])); assert(ends(h_f1)[2] == final(h_f1[2]).st());
            assert(has_resolved(h_f2[3])); assert(ends(h_f1)[3] == final(h_f1[3]).st());
            assert(has_resolved(h_f2[4])); assert(ends(h_f1)[4] == final(h_f1[4]).st());
            assert(has_resolved(h_f2[5])); assert(ends(h_f1)[5] == final(h_f1[5]).st());
            assert(has_resolved(h_f2[6])); assert(ends(h_f1)[6] == final(h_f1[6]).st());
            assert(has_resolved(h_f2[7])); assert(ends(h_f1)[7] == final(h_f1[7]).st());
            assert(has_resolved(h_f2[8])); assert(ends(h_f1)[8] == final(h_f1[8]).st());
            assert(has_resolved(h_f2[9])); assert(ends(h_f1)[9] == final(h_f1[9]).st());
            assert(ends(h_f2) =~= sts(h_f2)); assert(sts(h_f2) == h_fld);
            assert(a.st() == h_fld[0]);
            assert(b.st() == h_fld[1]);
            assert(c.st() == h_fld[2]);
            assert(d.st() == h_fld[3]);
            assert(e.st() == h_fld[4]);
            assert(f.st() == h_fld[5]);
            assert(g.st() == h_fld[6]);
            assert(h.st() == h_fld[7]);
            assert(i.st() == h_fld[8]);
            assert(j.st() == h_fld[9]);
            h_sgot = None;
            assert(run_rel(start_G28(h_c1, h_r1), sub_G28(), Ok((h_d, h_sgot))));
        } }
@at end
        proof {
            assert(kept_G28(h_fld, h_sgot)); assert(h_d.drop_last() == __frame.chain());
            let x = (*__out)->0;
            assert(value_G28(h_fld, h_sgot, x.a, x.b, x.c, x.d, x.e, x.f, x.g, x.h, x.i, x.j));
        }
