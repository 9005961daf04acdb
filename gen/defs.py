#!/usr/bin/env python3
"""Definitions whose derived code is put under contract.  Writes src/lib.rs (the definitions, for the macros) and
gen.vc (what they say, for the verifier).  The contracts come from the description of the definition, not from
what the macros write; the macros' names for locals appear in proof text only."""
import os, sys
D = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(D, '..', 'corpus'))
sys.dont_write_bytecode = True
from lang import F, Cmd, Sub, rs, unraw, kebab, docjoin

LIB, VC = [], []
def seqb(s):
    b = s.encode() if isinstance(s, str) else s
    return 'seq![' + ', '.join(f'{x}u8' for x in b) + ']' if b else 'Seq::<u8>::empty()'
def seq(l, ty=''):
    return 'seq![' + ', '.join(l) + ']' if l else f'Seq::<{ty}>::empty()'
def ch(c): return "'\\''" if c == "'" else f"'{c}'"

def order(fields):
    named = [f for f in fields if f.named]
    single = [f for f in fields if not f.named and not f.multi]
    var = [f for f in fields if not f.named and f.multi and not f.last]
    last = [f for f in fields if not f.named and f.last]
    return named, single + var + last

def flags(f):
    """The attributes of a field, from the documentation of the options."""
    r = []
    if f.takes: r.append('REQUIRE_VALUE')
    if f.eq: r.append('REQUIRE_EQ')
    if f.hy: r.append('ACCEPT_HYPHEN_ANY')
    if f.neg: r.append('ACCEPT_HYPHEN_NUM')
    if f.glob: r.append('GLOBAL')
    if f.icase: r.append('MAKE_LOWERCASE')
    if not f.named:
        if f.multi: r.append('VAR_ARG')
        if f.trailing or f.last: r.append('GREEDY')
        if f.last: r.append('LAST')
    return r
def attr(i, f): return '(' + ' + '.join([str(i)] + [f'ArgAttrs::{x}.0' for x in flags(f)]) + ') as u32'
def encs(f):
    r = ['--' + a for a in f.alias]
    if f.plong() is not None: r.append('--' + f.plong())
    r += list(f.salias)
    if f.pshort() is not None: r.append(f.pshort())
    return r
def place(f):
    k = {'Bool': 'Flag', 'Value': 'Set', 'Opt': 'Set', 'OptOpt': 'OptSet'}.get(f.kind)
    if f.multi: k = 'Many' if not f.delim else f'Delim({ch(f.delim)})'
    if f.kind == 'Bool': return 'FlagPlace(None).st()'
    return f'PlaceSt {{ kind: PKind::{k}, parse: parse_fn::<VxParser<{f.base}>>(), vals: None }}'
def field_rel(f, i, x):
    """What the place `f[i]` means for the field's value `x`."""
    p = f'f[{i}]'
    none = None
    if f.default is not None:
        d = f'step({p}, Some({seqb(f.default)}))'
        st = f'{d}->Ok_0.vals'
    k = f.kind
    if k == 'Bool': return f'match {p}.vals {{ None => {x} == false, Some(s) => s == seq![val({x})] }}'
    if k == 'Value':
        if f.default is not None: none = f'{st} == Some(seq![val({x})])'
        elif f.dt is not None: none = f'seq![val({x})] == seq![val::<{f.base}>({f.dt[0]})]'
        else: none = 'false'
        return f'match {p}.vals {{ None => {none}, Some(s) => s == seq![val({x})] }}'
    if k == 'Opt':
        if f.default is not None: none = f'{x} matches Some(y) && {st} == Some(seq![val(y)])'
        elif f.dt is not None: none = f'{x} matches Some(y) && seq![val(y)] == seq![val::<{f.base}>({f.dt[0]})]'
        else: none = f'{x} is None'
        return f'match {p}.vals {{ None => {none}, Some(s) => {x} matches Some(y) && s == seq![val(y)] }}'
    if k == 'OptOpt':
        return f'match {p}.vals {{ None => {x} is None, Some(s) => match {x} {{ None => false, Some(None) => s == Seq::<Val>::empty(), Some(Some(y)) => s == seq![val(y)] }} }}'
    if k == 'Vec':
        none = f'{x}@ == Seq::<{f.base}>::empty()' if f.default is None else f'{st} == Some(vals({x}@))'
        return f'match {p}.vals {{ None => {none}, Some(s) => s == vals({x}@) }}'
    if k == 'OptVec':
        none = f'{x} is None' if f.default is None else f'{x} matches Some(y) && {st} == Some(vals(y@))'
        return f'match {p}.vals {{ None => {none}, Some(s) => {x} matches Some(y) && s == vals(y@) }}'
def err(kind, f=None): return f'ErrV {{ arg: Some({seqb(f.desc())}), ..err0(ErrorKind::{kind}) }}' if f else f'err0(ErrorKind::{kind})'

class Group:
    variant = None
    """The arguments of a struct or of a struct-like variant, called `k` in the contracts."""
    def __init__(s, k, cmd, self_ty):
        s.k, s.cmd = k, cmd
        s.named, s.pos = order(cmd.fields)
        s.fs = s.named + s.pos
        s.idx = {f.name: i for i, f in enumerate(s.fs)}
        s.sub = cmd.sub
        s.st = cmd.sub[2].done if cmd.sub else None
    def specs(s):
        k = s.k
        names = sorted(((n, i) for i, f in enumerate(s.named) for n in encs(f)), key=lambda x: x[0].encode())
        s.names = names
        nm = seq([f'({seqb(n)}, {attr(i, s.fs[i])})' for n, i in names], '(B, u32)')
        ps = seq([attr(s.idx[f.name], f) for f in s.pos], 'u32')
        ds = seq([seqb(f.desc()) for f in s.fs], 'B')
        subs = f'Some(<{s.st} as Subcommand>::subs())' if s.sub else 'None'
        o = f'pub open spec fn info_{k}() -> InfoV {{ InfoV {{\n    names: {nm},\n    pos: {ps},\n    descs: {ds},\n    subs: {subs} }} }}\n'
        o += f'pub open spec fn entry_{k}() -> Entry {{ Entry {{ cmd: false, name: Seq::<char>::empty(), info: info_{k}(), fields: {seq([place(f) for f in s.fs], "PlaceSt")} }} }}\n'
        # Constraints.
        on = lambda i: f'f[{i}].vals is Some'
        errs = []
        for i, f in enumerate(s.fs):
            if f.exclusive:
                oth = [on(j) for j in range(len(s.fs)) if j != i] + (['got is Some'] if s.sub else [])
                if oth: errs.append((f'{on(i)} && ({" || ".join(oth)})', err('ConstraintExclusive', f)))
            for r in f.requires: errs.append((f'{on(i)} && !({on(s.idx[r])})', err('ConstraintRequired', s.fs[s.idx[r]])))
            for r in f.conflicts: errs.append((f'{on(i)} && {on(s.idx[r])}', err('ConstraintConflict', f)))
            if f.req: errs.append((f'!({on(i)})', err('MissingRequiredArgument', f)))
        if s.sub and not s.sub[1]: errs.append(('got is None', err('MissingRequiredSubcommand')))
        s.errs = errs
        o += f'/// The end of parsing finds constraint broken, and says so.\npub open spec fn broken_{k}(f: Seq<PlaceSt>, got: Option<Val>, e: ErrV) -> bool {{\n    ||| false\n' + ''.join(f'    ||| {c} && e == ({e})\n' for c, e in errs) + '}\n'
        o += f'pub open spec fn kept_{k}(f: Seq<PlaceSt>, got: Option<Val>) -> bool {{\n    &&& true\n' + ''.join(f'    &&& !({c})\n' for c, e in errs) + '}\n'
        # Values.
        parts = [f'    &&& {field_rel(f, i, "x_" + unraw(f.name))}\n' for i, f in enumerate(s.fs)]
        par = ''.join(f', x_{unraw(f.name)}: {f.ty}' for f in s.fs)
        if s.sub:
            n, opt, sub = s.sub
            par += f', x_{n}: ' + (f'Option<{s.st}>' if opt else s.st)
            parts.append(f'    &&& got == ' + (f'(match x_{n} {{ Some(y) => Some(val(y)), None => None }})' if opt else f'Some(val(x_{n}))') + '\n')
        o += f'pub open spec fn value_{k}(f: Seq<PlaceSt>, got: Option<Val>{par}) -> bool {{\n    &&& true\n' + ''.join(parts) + '}\n'
        o += f'pub type End_{k} = core::result::Result<(Seq<Entry>, Option<Val>), ErrV>;\n'
        o += f'pub open spec fn start_{k}(c: Seq<Entry>, rest: Seq<B>) -> Cur {{ Cur {{ c: c.push(entry_{k}()), next: 0, rest }} }}\n'
        o += f'pub open spec fn sub_{k}() -> Option<SubRel> {{ ' + (f'Some(sub_rel::<{s.st}>())' if s.sub else 'None') + ' }\n'
        # Proofs about the tables.
        o += f'// @owner C05\npub proof fn facts_{k}()\n    ensures wf_entry(entry_{k}())' + (f', forall|i: int| 0 <= i < info_{k}().subs->0.len() ==> (#[trigger] info_{k}().subs->0[i]).1 < <{s.st} as Subcommand>::count()' if s.sub else '') + '\n{\n'
        for i, f in enumerate(s.fs):
            fl = '(' + ' + '.join(['0'] + [f'ArgAttrs::{x}.0' for x in flags(f)]) + ') as u32'
            o += f'    assert((({fl}) & 0xffu32) == 0 && ({fl}) < 0x8000_0000u32) by (compute); lemma_idx({i}, {fl}); assert({attr(i, f)} == ({i} + ({fl})) as u32) by (compute);\n'
        for n, _ in names: o += f'    assert(valid_utf8({seqb(n)})) by (compute);\n'
        if s.sub: o += f'    <{s.st} as Subcommand>::subs_ok();\n'
        o += '}\n'
        o += s.table_lemma()
        for f in s.fs:
            if f.default is not None:
                o += f'/// Assumed: the default text of the definition is a value of its type (documented; it would panic).\n#[verifier::external_body]\npub proof fn default_{k}_{unraw(f.name)}()\n    ensures step({place(f)}, Some({seqb(f.default)})) is Ok\n{{}}\n'
        return o
    def ctor_args(s, x):
        r = ''.join(f', {x}{f.name if x.endswith(".") else unraw(f.name)}' for f in s.fs)
        if s.sub: r += f', {x}{s.sub[0]}'
        return r
    def rel(s, c, rest, x_pat, r='r'):
        """The result `r` of running the group below `c`; `x_pat` binds the fields x_*."""
        k = s.k
        return (f'exists|q: End_{k}| #[trigger] run_rel(start_{k}({c}, {rest}), sub_{k}(), q) && (match q {{\n'
                f'        Err(e) => {r} matches Err(e2) && e2 == e,\n'
                f'        Ok((d, got)) => match {r} {{\n'
                f'            Err(e) => broken_{k}(d.last().fields, got, e),\n'
                f'            Ok((c2, x)) => c2 == d.drop_last() && kept_{k}(d.last().fields, got) && ({x_pat}),\n'
                f'        }} }})')
    def table_proof(s):
        """For the function that makes the table."""
        return f'        proof {{ vx_flags(); table_{s.k}(); }}\n'
    def table_lemma(s):
        ks = seq([seqb(n) for n, _ in s.names], 'B')
        return (f'// @owner C05 C11\npub proof fn table_{s.k}()\n    ensures sorted({ks}), terminated({seqb("".join(f.desc() + chr(0) for f in s.fs))}) == info_{s.k}().descs\n{{\n'
                f'    assert(adjacent({ks})) by (compute);\n    lemma_adjacent({ks});\n'
                f'    assert(terminated({seqb("".join(f.desc() + chr(0) for f in s.fs))}) == info_{s.k}().descs) by (compute);\n}}\n')
    def pat(s, pre):
        """A pattern that binds the fields of a struct-like variant."""
        l = [f.name for f in s.fs] + ([s.sub[0]] if s.sub else [])
        return f'{s.variant} {{ ' + ', '.join(f'{n}: {pre}{unraw(n)}' for n in l) + ' }'
    def parse_ats(s, nth='', arm=None):
        """Proof text around the `nth` run of the parser in a function."""
        k = s.k
        n = len(s.fs)
        I = '            '
        o = f'@at before vx_run{nth}\n        let ghost (h_f0, h_f1) = (__frame1, __frame1.fields@);\n        proof {{\n'
        o += f'{I}facts_{k}(); lemma_wf_push(h_c1, entry_{k}());\n{I}assert(sts(h_f1) =~= entry_{k}().fields);\n'
        o += f'{I}assert(h_f0.entry() =~~= entry_{k}()); assert(h_f0.chain() =~~= h_c1.push(entry_{k}()));\n'
        o += f'{I}assert(cur(h_f0, h_r1) =~~= start_{k}(h_c1, h_r1));\n        }}\n'
        o += f'@at after vx_run{nth}\n        let ghost h_g1 = __frame1.fields@;\n        proof {{\n            h_d = __frame1.chain(); h_fld = sts(h_g1);\n            if __vx_tail is Ok {{\n'
        o += f'{I}assert(h_d.drop_last() =~= __frame1.parent.chain());\n{I}assert(has_resolved(__frame1.parent)); assert(has_resolved(__frame1.fields));\n'
        o += f'{I}let h_f2 = final(h_f0.fields)@;\n'
        o += f'{I}assert(h_f0.fut() == __frame1.fut()); assert(h_f0.fut()->In_3 == h_f0.fin()); assert(__frame1.fut()->In_3 == __frame1.fin());\n'
        o += f'{I}assert(ends(h_f1) == ends(h_g1)); assert(ends(h_f1).len() == {n}); assert(ends(h_g1).len() == h_g1.len()); assert(ends(h_f2) == ends(h_g1)); assert(ends(h_f2).len() == h_f2.len());\n'
        for i in range(n): o += f'{I}assert(has_resolved(h_f2[{i}])); assert(ends(h_f1)[{i}] == final(h_f1[{i}]).st());\n'
        o += f'{I}assert(ends(h_f2) =~= sts(h_f2)); assert(sts(h_f2) == h_fld);\n'
        for i, f in enumerate(s.fs): o += f'{I}assert({f.name}.st() == h_fld[{i}]);\n'
        if s.sub: o += f'{I}h_sgot = {s.sub[0]}.got(); assert(final(h_f0.subcmd->0).got() == h_sgot);\n'
        else: o += f'{I}h_sgot = None;\n'
        for f in s.fs:
            if f.default is not None: o += f'{I}default_{k}_{unraw(f.name)}();\n'
        o += f'{I}assert(run_rel(start_{k}(h_c1, h_r1), sub_{k}(), Ok((h_d, h_sgot))));\n'
        o += '        } }\n'
        o += ('@at end' if arm is None else f'@at before Ok {arm}') + '\n        proof {\n'
        o += f'{I}assert(kept_{k}(h_fld, h_sgot)); assert(h_d.drop_last() == __frame.chain());\n'
        if s.variant: o += f'{I}assert(*__out matches Some({s.pat("y_")}) && value_{k}(h_fld, h_sgot{s.ctor_args("y_")}));\n'
        else: o += f'{I}let x = (*__out)->0;\n{I}assert(value_{k}(h_fld, h_sgot{s.ctor_args("x.")}));\n'
        o += '        }\n'
        return o.replace('__frame1', f'__frame{nth or 1}'.replace(' ', ''))

START = """@at start
        let ghost (h_c1, h_r1) = (__frame.chain(), __parser.rest());
        let ghost mut h_fld = Seq::<PlaceSt>::empty();
        let ghost mut h_d = Seq::<Entry>::empty();
        let ghost mut h_sgot = None::<Val>;
"""

def emit_cmd(cmd, derive):
    """A struct."""
    if cmd.done: return cmd.done
    cmd.done = name = f'G{len(names) + 1}'
    names.append(name)
    if cmd.sub: emit_sub(cmd.sub[2])
    LIB.append(f'#[derive({derive})]\n{cmd.meta()}pub struct {name} {{\n{body(cmd)}}}')
    g = Group(name, cmd, name)
    VC.append(f'@raw\n// ======== {name} ========\n')
    VC.append(f'@item gen::{name}')
    VC.append('@raw\n' + g.specs())
    x = f'value_{name}(d.last().fields, got' + g.ctor_args('x.') + ')'
    VC.append(f'''@impl gen::<{name} as Args>
    open spec fn rel(c: Seq<Entry>, rest: Seq<B>, r: core::result::Result<(Seq<Entry>, Self), ErrV>) -> bool {{
        {g.rel('c', 'rest', x)}
    }}
    open spec fn info() -> InfoV {{ info_{name}() }}
@fn gen::<{name} as Args>::__INFO
@owner C05 C11
@attr #[verifier::spinoff_prover]
@at start
{g.table_proof()}@at after vx_static
        proof {{ assert(keys(__vx_tail.named_attrs@) =~= {seq([seqb(n) for n, _ in g.names], 'B')}); assert(__vx_tail.v().names =~= info_{name}().names); }}
@fn gen::<{name} as Args>::__parse
@owner C08 C09 C12
@attr #[verifier::spinoff_prover]
{START}{g.parse_ats()}''')
    return name
def body(cmd):
    o = ''.join(f.decl() for f in cmd.fields)
    if cmd.sub:
        n, opt, sub = cmd.sub
        t = sub.done
        o += f"    #[command(subcommand)]\n    {n}: " + (f"Option<{t}>" if opt else t) + ",\n"
    return o
def emit_sub(sub):
    """An enum of subcommands."""
    if sub.done: return sub.done
    sub.done = name = f'E{len(names) + 1}'
    names.append(name)
    lib, vars = '', []
    for i, (id, cli, sh, c) in enumerate(sub.variants):
        if sh == 'Unit':
            lib += '    ' + c.meta() + f'    {id},\n'
            vars.append((i, id, cli, sh, None))
        elif sh == 'New':
            lib += f"    {id}({emit_cmd(c, 'Args')}),\n"
            vars.append((i, id, cli, sh, c.done))
        else:
            if c.sub: emit_sub(c.sub[2])
            lib += '    ' + c.meta() + f'    {id} {{\n{body(c)}    }},\n'
            g = Group(f'{name}_{id}', c, name)
            g.variant = f'{name}::{id}'
            vars.append((i, id, cli, sh, g))
    LIB.append(f'#[derive(Subcommand)]\npub enum {name} {{\n{lib}}}')
    VC.append(f'@raw\n// ======== {name} ========\n')
    VC.append(f'@item gen::{name}')
    for v in vars:
        if v[3] == 'Struct': VC.append('@raw\n' + v[4].specs())
    srt = sorted(vars, key=lambda v: v[2].encode())
    subs = seq([f'({seqb(v[2])}, {v[0]}usize)' for v in srt], '(B, usize)')
    rel = ''
    for i, id, cli, sh, g in vars:
        if sh == 'Unit':
            st = 'Cur { c: c.push(unit_entry(no_info())), next: 0, rest }'
            rel += f"""            {i}usize => match r {{
                Err(e) => run_rel({st}, None, Err(e)),
                Ok((c2, x)) => x is {id} && exists|d: Seq<Entry>| #[trigger] run_rel({st}, None, Ok((d, None))) && c2 == d.drop_last(),
            }},\n"""
        elif sh == 'New':
            rel += f"""            {i}usize => match r {{
                Err(e) => <{g} as Args>::rel(c, rest, Err(e)),
                Ok((c2, x)) => x matches {name}::{id}(y) && <{g} as Args>::rel(c, rest, Ok((c2, y))),
            }},\n"""
        else:
            rel += f'            {i}usize => ' + g.rel('c', 'rest', f'x matches {g.pat("x_")} && value_{g.k}(d.last().fields, got{g.ctor_args("x_")})').replace('\n', '\n    ') + ',\n'
    vi = f"""@fn gen::__VARIANT_INFOS_{name}
    ensures r@.len() == {len(vars)}""" + ''.join(f', r@[{v[0]}].v() =~= {"no_info()" if v[3] == "Unit" else "<%s as Args>::info()" % v[4] if v[3] == "New" else "info_%s()" % v[4].k}, r@[{v[0]}].ok()' for v in vars) + '\n@owner C05 C06 C11\n@attr #[verifier::spinoff_prover]\n@at start\n        proof { vx_flags(); lemma_terminated_empty(); }\n'
    for v in vars:
        if v[3] == 'Struct': vi += v[4].table_proof()
    ks = seq([seqb(v[2]) for v in srt], 'B')
    VC.append(vi)
    o = f"""@impl gen::<{name} as Subcommand>
    open spec fn rel(idx: usize, c: Seq<Entry>, rest: Seq<B>, r: core::result::Result<(Seq<Entry>, Self), ErrV>) -> bool {{
        match idx {{
{rel}            _ => false,
        }}
    }}
    open spec fn subs() -> Seq<(B, usize)> {{ {subs} }}
    open spec fn count() -> int {{ {len(vars)} }}
    proof fn subs_ok() {{}}
@fn gen::<{name} as Subcommand>::__INFO
@owner C05 C06
@attr #[verifier::spinoff_prover]
@at start
        proof {{ assert(adjacent({ks})) by (compute); lemma_adjacent({ks}); }}
@fn gen::<{name} as Subcommand>::__parse
@owner C06 C08 C09 C12
@attr #[verifier::spinoff_prover]
{START}"""
    nth = 0
    for i, id, cli, sh, g in vars:
        if sh == 'Struct':
            nth += 1
            o += g.parse_ats(f' {nth}', i + 1)
    VC.append(o)
    return name
def venum(name, variants, rename=None):
    """An enum of values."""
    o = '#[derive(ValueEnum)]\n' + (f'#[value(rename_all = {rs(rename)})]\n' if rename else '') + f'pub enum {name} {{\n'
    for id, ex, eff in variants: o += (f'    #[value(name = {rs(ex)})]\n' if ex is not None else '') + f'    {id},\n'
    LIB.append(o + '}')
    of = ''.join(f'if v == {seqb(eff)} {{ Some({name}::{id}) }} else ' for id, _, eff in variants)
    VC.append(f'''@raw
// ======== {name} ========
@item gen::{name}
@drop gen::<{name} as ValueEnum>::POSSIBLE_INPUTS_NUL
@drop gen::<{name} as ValueEnum>::NO_UPPER_CASE
@impl gen::<{name} as ValueEnum>
    open spec fn of(v: B) -> Option<Self> {{ {of}{{ None }} }}
@fn gen::<{name} as ValueEnum>::parse_value
@owner C10
@fn gen::<{name} as ValueEnum>::display_value
@owner C10 C16
''')
names = []

def top(c):
    VC.append(f'@mod m{len(MODS)}\n@raw\nuse super::vals::*;\n'); MODS.append(f'm{len(MODS)}')
    emit_cmd(c, 'Parser')
MODS = ['vals']
VC.append('@mod vals\n')
exec(open(os.path.join(D, 'list.py')).read())

open(os.path.join(D, 'src/lib.rs'), 'w').write('//! @generated by defs.py\nuse palc::{Args, Parser, Subcommand, ValueEnum};\nuse std::ffi::OsString;\n' + '\n'.join(LIB) + '\n')
out = open(os.path.join(D, 'gen.vc'), 'w')
out.write('\n'.join(VC))
