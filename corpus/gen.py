#!/usr/bin/env python3
"""Generates src/clis.rs: command definitions (through the public derive API) and,
independently, their descriptions for the oracle.  Deterministic; the output is committed."""
import random, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lang import *
from lang import OUT, N
CLIS = []
def cli(label, cmd): CLIS.append((label, cmd))

w("// @generated by gen.py")
w("#![allow(dead_code, unused, clippy::all)]")
w("use crate::base::*;\nuse crate::desc::*;\nuse palc::{Args, Parser, Subcommand, ValueEnum};\nuse std::ffi::OsString;\nuse std::path::PathBuf;")

enum('Color', [('Auto', None, 'auto'), ('Never', None, 'never'), ('Always', None, 'always')])
enum('Mode', [('FastMode', None, 'fast-mode'), ('Slow', 'SLOW', 'SLOW'), ('Other', 'x y', 'x y'), ('Uni', 'é', 'é'), ('Fast', None, 'fast')])
enum('Lvl', [('Low', None, 'LOW'), ('MidHigh', None, 'MID_HIGH'), ('Odd', 'low', 'low')], 'SCREAMING_SNAKE_CASE')
enum('Low', [('Ab', None, 'ab'), ('Abc', None, 'abc'), ('A', None, 'a'), ('Zz', 'é1', 'é1')])
enum('Camel', [('OneTwo', None, 'oneTwo'), ('One', None, 'one'), ('Three', None, 'three')], 'camelCase')
enum('Verb', [('OneTwo', None, 'OneTwo'), ('One', None, 'One'), ('Emp', '', '')], 'verbatim')

enum('OddV', [('Ab', 'ab', 'ab'), ('AB', 'AB', 'AB'), ('Aa', 'a b', 'a b'), ('A', 'a', 'a'), ('A2', 'é', 'é'), ('A3', 'É', 'É'), ('B', 'aB', 'aB'), ('Dash', '-', '-'), ('Dd', '--', '--'), ('Eq', 'a=b', 'a=b'), ('Sp', ' ', ' '), ('Comma', 'a,b', 'a,b')])
enum('Nest', [('IOTest', None, 'io-test'), ('Ice', None, 'ice'), ('Dz', 'ß', 'ß'), ('Ed', 'é', 'é')])

# ---- hand-designed definitions -------------------------------------------------
S = F
cli('flags', Cmd([F('aa', 'bool', short='a', long=True), F('bb', 'bool', short='b'), F('cc', 'bool', long=True)]))
cli('one_value', Cmd([F('file', 'String', long=True, short=True)]))
cli('values', Cmd([F('file', 'Option<String>', long=True, short='f'), F('verbose', 'bool', short='v'), F('num', 'Option<i32>', short='n', long='number')]))
cli('os_values', Cmd([F('p', 'Option<PathBuf>', long='path', short='p'), F('o', 'Option<OsString>', long='os', short='o'), F('rest', 'Vec<OsString>')]))
cli('req_eq', Cmd([F('color', 'Option<String>', long=True, short='c', eq=True), F('x', 'bool', short='x'), F('pos', 'Option<String>')]))
cli('optopt', Cmd([F('color', 'Option<Option<String>>', long=True, short='c', eq=True), F('x', 'bool', short='x'), F('pos', 'Option<String>')]))
cli('optopt_num', Cmd([F('jobs', 'Option<Option<u8>>', long=True, short='j', eq=True), F('a', 'bool', short='a'), F('b', 'Option<String>', short='b')]))
cli('optopt_long', Cmd([F('tint', 'Option<Option<String>>', long=True, alias=['hue'], eq=True), F('y', 'bool', long='yes')]))
cli('optopt_unit', Cmd([F('mode', 'Option<Option<Color>>', long=True, short='m', eq=True)]))
cli('hyphen_any', Cmd([F('any', 'Option<String>', long=True, short='a', hy=True), F('plain', 'Option<String>', long=True, short='p'), F('x', 'bool', short='x')]))
cli('hyphen_num', Cmd([F('num', 'Option<i32>', long=True, short='n', neg=True), F('s', 'Option<String>', long=True, short='s', neg=True), F('one', 'bool', short='1')]))
cli('hyphen_num_plain', Cmd([F('num', 'Option<i32>', long=True, short='n'), F('rest', 'Vec<i32>')]))
cli('vecs', Cmd([F('inc', 'Vec<String>', long='include', short='I'), F('lib', 'Option<Vec<String>>', short='l'), F('q', 'bool', short='q')]))
cli('vec_num', Cmd([F('n', 'Vec<u8>', long='num', short='n'), F('rest', 'Vec<u8>')]))
cli('delim', Cmd([F('list', 'Vec<String>', long=True, short='l', delim=','), F('nums', 'Option<Vec<u8>>', long=True, delim=':'), F('d', 'bool', short='d')]))
cli('delim2', Cmd([F('list', 'Vec<OsString>', long=True, short='l', delim=',', use_delim=True), F('uni', 'Vec<String>', short='u', delim='é'), F('pos', 'Vec<String>', delim=';')]))
cli('delim_enum', Cmd([F('cols', 'Vec<Color>', long=True, short='c', delim=','), F('eqs', 'Vec<u8>', long=True, short='e', delim='=', eq=True)]))
cli('bundle', Cmd([F('a', 'bool', short='a'), F('b', 'bool', short='b'), F('c', 'Option<String>', short='c'), F('d', 'Vec<String>', short='d'), F('e', 'Option<Option<String>>', short='e', eq=True), F('f', 'Option<String>', short='f', eq=True)]))
cli('bundle_uni', Cmd([F('a', 'bool', short='é'), F('b', 'bool', short='文'), F('c', 'Option<OsString>', short='😀'), F('d', 'bool', short='d', salias=['δ', 'D'])]))
cli('bundle_digits', Cmd([F('one', 'bool', short='1'), F('two', 'Option<i32>', short='2'), F('dot', 'bool', short='.'), F('plus', 'bool', short='+')]))
cli('aliases', Cmd([F('long_name', 'Option<String>', long=True, alias=['ln', 'long'], short='l', salias=['L', 'x']), F('longer', 'bool', long=True, alias=['lon'])]))
cli('prefixes', Cmd([F('a', 'bool', long='a'), F('ab', 'bool', long='ab'), F('abc', 'bool', long='abc'), F('abd', 'Option<String>', long='a-b'), F('b', 'bool', long='b', short='b'), F('upper', 'bool', long='A', short='B'), F('uni', 'bool', long='é'), F('sp', 'bool', long='a b'), F('sl', 'Option<String>', long='a/b')]))
cli('pos_single', Cmd([F('one', 'String'), F('two', 'Option<String>'), F('three', 'Option<i32>')]))
cli('pos_opt2', Cmd([F('x', 'bool', short='x'), F('one', 'Option<String>'), F('two', 'Option<u8>')]))
cli('pos_var', Cmd([F('first', 'String'), F('rest', 'Vec<String>'), F('v', 'bool', short='v', long='verb')]))
cli('pos_var_first', Cmd([F('rest', 'Option<Vec<u8>>'), F('v', 'Option<String>', short='v')]))
cli('pos_mixed_decl', Cmd([F('more', 'Option<String>'), F('opt', 'bool', short='o'), F('again', 'Option<String>'), F('val', 'Option<String>', long=True), F('third', 'Option<OsString>')]))
cli('trailing', Cmd([F('v', 'bool', short='v'), F('cmd', 'String'), F('args', 'Vec<OsString>', trailing=True)]))
cli('trailing_only', Cmd([F('v', 'bool', short='v', long='verbose'), F('args', 'Vec<String>', trailing=True)]))
cli('trailing_opt', Cmd([F('o', 'Option<String>', short='o', long='out'), F('args', 'Option<Vec<u8>>', trailing=True)]))
cli('trailing_last', Cmd([F('args', 'Vec<String>', trailing=True), F('tail', 'Vec<String>', last=True), F('q', 'bool', short='q')]))
cli('last', Cmd([F('x', 'Option<String>'), F('v', 'bool', short='v'), F('rest', 'Vec<String>', last=True)]))
cli('last_var', Cmd([F('files', 'Vec<String>'), F('cmd', 'Option<Vec<OsString>>', last=True), F('v', 'Option<String>', short='v', long='val')]))
cli('last_first', Cmd([F('cmd', 'Vec<u8>', last=True), F('one', 'Option<String>'), F('two', 'Option<String>')]))
cli('last_req', Cmd([F('cmd', 'Vec<String>', last=True, required=True), F('a', 'bool', short='a')]))
cli('var_req', Cmd([F('files', 'Vec<String>', required=True), F('o', 'Option<Vec<String>>', long='oo', required=True)]))
cli('no_args', Cmd())
cli('typed', Cmd([F('u', 'Option<u8>', long='u8', short='u'), F('i', 'Option<i64>', long='i64', short='i', hy=True), F('c', 'Option<char>', long='char', short='c'), F('e', 'Option<Even>', long='even'), F('t', 'Option<Tag>', long='tag', short='t')]))
cli('enums', Cmd([F('color', 'Option<Color>', long=True, short='c'), F('mode', 'Vec<Mode>', long=True, short='m'), F('lvl', 'Option<Lvl>', long=True), F('cam', 'Option<Camel>', long=True), F('verb', 'Option<Verb>', long=True)]))
cli('enum_icase', Cmd([F('low', 'Option<Low>', long=True, short='l', icase=True), F('many', 'Vec<Low>', long=True, short='m', icase=True, delim=','), F('exact', 'Option<Low>', long=True, short='e'), F('opt', 'Option<Option<Color>>', long=True, short='o', eq=True, icase=True)]))
cli('enum_pos', Cmd([F('c', 'Color'), F('ms', 'Vec<Mode>')]))
cli('defaults', Cmd([F('num', 'i32', long=True, short='n', default='42'), F('name', 'String', long=True, dt=('"bob".into()', 'Val::s("bob")', 'bob')), F('flag', 'bool', short='f', dt=('true', 'Val::B(true)', 'true')), F('col', 'Color', long=True, dt=('Color::Never', 'Val::T("Never")', 'never')), F('path', 'PathBuf', long=True, default='/x y')]))
cli('defaults2', Cmd([F('z', 'u8', long=True, short='z', dt=(None, 'Val::N(0)', '0')), F('list', 'Vec<String>', long=True, short='l', default='a,b', delim=','), F('one', 'Vec<u8>', short='o', default='7'), F('pos', 'Option<String>', default='dp'), F('more', 'Option<i32>', default='-5'), F('oo', 'Option<Option<String>>', long=True, eq=True, default='dd')]))
cli('defaults_pos', Cmd([F('x', 'bool', short='x'), F('a', 'u8', default='3'), F('b', 'String', default='bee'), F('rest', 'Vec<String>', default='r')]))
cli('req_flag', Cmd([F('a', 'bool', short='a', required=True), F('b', 'Option<String>', short='b', long='bb', required=True), F('c', 'bool', long='cc')]))
cli('conflicts', Cmd([F('a', 'bool', short='a', long='aa', conflicts=['b']), F('b', 'Option<String>', short='b'), F('c', 'Vec<String>', short='c', conflicts=['a', 'pos']), F('pos', 'Option<String>')]))
cli('conflicts_all', Cmd([F('a', 'bool', short='a', conflicts=['b', 'c', 'd'], conflicts_all=True), F('b', 'bool', short='b'), F('c', 'Option<Option<String>>', short='c', eq=True), F('d', 'Option<u8>', short='d', dt=None, default='4')]))
cli('requires', Cmd([F('a', 'bool', short='a', requires=['b', 'c']), F('b', 'Option<String>', short='b'), F('c', 'Vec<String>', short='c', requires=['d']), F('d', 'bool', short='d'), F('e', 'Option<u8>', short='e', requires=['pos']), F('pos', 'Option<String>', requires=['d'])]))
cli('requires_default', Cmd([F('a', 'bool', short='a', requires=['b']), F('b', 'u8', short='b', default='9', conflicts=['c']), F('c', 'Option<String>', short='c', default='cc', requires=['d']), F('d', 'bool', short='d', dt=('true', 'Val::B(true)', 'true'))]))
cli('exclusive', Cmd([F('a', 'bool', short='a', long='aa', exclusive=True), F('b', 'Option<String>', short='b'), F('c', 'Vec<String>', short='c'), F('d', 'u8', short='d', default='1'), F('pos', 'Option<String>')]))
cli('exclusive_vec', Cmd([F('v', 'Vec<String>', short='v', exclusive=True), F('w', 'Option<Option<u8>>', short='w', eq=True, exclusive=True), F('p', 'Vec<String>', exclusive=True), F('f', 'bool', short='f')]))
cli('exclusive_req', Cmd([F('a', 'bool', short='a', exclusive=True), F('n', 'Option<String>', short='n', conflicts=['m']), F('m', 'Option<String>', short='m', requires=['a'])]))
cli('mixed_constraints', Cmd([F('inp', 'String'), F('out', 'Option<String>', long=True, short='o', conflicts=['dry']), F('dry', 'bool', long='dry-run', short='n', conflicts=['out']), F('force', 'bool', short='f', requires=['out']), F('lvl', 'Option<u8>', long=True, requires=['force', 'out'], conflicts=['extra']), F('extra', 'Vec<String>', last=True)]))
big = [F(f'opt_{i}', 'Option<u8>' if i % 3 else 'bool', long=True, short=(chr(ord('a')+i) if i < 26 else (chr(ord('A')+i-26) if i < 52 else None)), alias=([f'al-{i*7%60}'] if i % 2 else [])) for i in range(60)]
cli('big', Cmd(big + [F('p0', 'Option<String>'), F('p1', 'Option<String>'), F('pv', 'Vec<String>')]))
cli('huge', Cmd([F(f'o{i}', 'Option<u8>' if i % 2 else 'bool', long=True) for i in range(250)] + [F('p0', 'Option<u8>'), F('p1', 'Option<u8>'), F('p2', 'Option<u8>'), F('p3', 'Vec<u8>')]))
cli('many_pos', Cmd([F('v', 'bool', short='v')] + [F(f'p{i}', 'Option<String>') for i in range(12)]))
cli('max_pos', Cmd([F(f'p{i}', 'Option<u8>') for i in range(254)]))
cli('max_pos_last', Cmd([F(f'p{i}', 'Option<u8>') for i in range(253)] + [F('tl', 'Vec<u8>', last=True)]))
cli('help_short', Cmd([F('host', 'Option<String>', short='h', long='host'), F('v', 'bool', short='v')]))
cli('help_long', Cmd([F('help', 'bool', long='help'), F('v', 'bool', short='v'), F('req', 'String')]))
cli('help_flag_both', Cmd([F('help', 'Option<Option<String>>', long='help', short='h', eq=True), F('pos', 'Vec<String>')]))

# ---- flatten -------------------------------------------------------------------
G1 = Cmd([F('cfg', 'Option<String>', long=True, short='c', doc='Config file.'), F('g1', 'bool', short='g')])
G2 = Cmd([F('lvl', 'u8', long=True, short='l', default='1'), F('tags', 'Vec<String>', long='tag', short='t', conflicts=['quiet']), F('quiet', 'bool', short='q', long=True)])
G3 = Cmd([F('need', 'String', long=True, short='n'), F('deps', 'Option<String>', long=True, requires=['dep2']), F('dep2', 'bool', short='d')])
GN = Cmd([F('inner', 'Option<u8>', long=True, short='i')], flats=[('g1', G1)])
cli('flatten1', Cmd([F('v', 'bool', short='v', long=True), F('pos', 'Vec<String>')], flats=[('g', G1)]))
cli('flatten2', Cmd([F('v', 'bool', short='v'), F('o', 'Option<String>', short='o')], flats=[('ga', G1), ('gb', G2)]))
cli('flatten3', Cmd([F('x', 'Option<String>'), F('o', 'Option<String>', short='o')], flats=[('ga', G2), ('gb', G3), ('gc', GN)]))
cli('flatten_only', Cmd([], flats=[('ga', G3)]))
cli('flatten_nested', Cmd([F('z', 'bool', short='z')], flats=[('n', GN), ('m', G2)]))

# ---- subcommands ---------------------------------------------------------------
RUN = Cmd([F('fast', 'bool', long=True, short='f'), F('target', 'Option<String>')], about='Run it.')
ADD = Cmd([F('files', 'Vec<String>'), F('msg', 'Option<String>', short='m', long=True)], about='Add files.\n\nSecond paragraph\ncontinued.', after='after add')
sub1 = Sub(('Run', 'run', 'Struct', RUN), ('Add', 'add', 'New', ADD), ('ListAll', 'list-all', 'Unit', Cmd(about='List all.')), ('Ad', 'ad', 'Unit', None))
cli('sub_req', Cmd([F('v', 'bool', short='v')], sub=('cmd', False, sub1), about='Top.'))
cli('sub_opt', Cmd([F('v', 'bool', short='v'), F('name', 'Option<String>', long=True, short='n')], sub=('cmd', True, Sub(('Run', 'run', 'Struct', Cmd([F('fast', 'bool', long=True, short='f'), F('target', 'Option<String>')])), ('Stop', 'stop', 'Unit', None)))))
cli('sub_pos', Cmd([F('file', 'Option<String>'), F('more', 'Option<String>')], sub=('cmd', True, Sub(('Run', 'run', 'Unit', None), ('R', 'r', 'Struct', Cmd([F('x', 'Option<String>')]))))))
cli('sub_var', Cmd([F('files', 'Vec<String>'), F('v', 'bool', short='v')], sub=('cmd', True, Sub(('Go', 'go', 'Struct', Cmd([F('w', 'Vec<String>')])), ('Empty', 'empty', 'New', Cmd())))))
cli('sub_trailing', Cmd([F('v', 'bool', short='v'), F('t', 'Vec<String>', trailing=True)], sub=('cmd', True, Sub(('Go', 'go', 'Unit', None), ('Exec', 'exec', 'Struct', Cmd([F('argv', 'Vec<OsString>', trailing=True), F('e', 'bool', short='e')]))))))
cli('sub_last', Cmd([F('l', 'Vec<String>', last=True), F('x', 'Option<String>', short='x')], sub=('cmd', True, Sub(('Go', 'go', 'Struct', Cmd([F('l', 'Vec<String>', last=True)])), ('G', 'g', 'Unit', None)))))
L3 = Cmd([F('leaf', 'Option<String>', long=True, short='l'), F('v', 'Option<String>', short='v'), F('w', 'Vec<String>')])
L2 = Cmd([F('mid', 'Option<String>', long=True, short='m', glob=True), F('loc', 'bool', long='loc', short='L'), F('dup', 'bool', long='dup', short='D', glob=True)], sub=('c2', True, Sub(('Leaf', 'leaf', 'New', L3), ('Unit', 'unit', 'Unit', None))))
cli('globals', Cmd([F('v', 'bool', short='v', glob=True), F('conf', 'Option<String>', long=True, short='c', glob=True), F('dup', 'Option<String>', long='dup', glob=True), F('privy', 'bool', long='private', short='p'), F('many', 'Vec<u8>', long=True, short='M', glob=True)], sub=('c1', False, Sub(('Mid', 'mid', 'New', L2), ('Plain', 'plain', 'Unit', None), ('Own', 'own', 'Struct', Cmd([F('conf', 'bool', long=True), F('p', 'Option<String>')]))))))
GG = Cmd([F('gcfg', 'Option<String>', long=True, short='g', glob=True), F('gloc', 'bool', long=True), F('gv', 'Vec<String>', short='V', glob=True)])
cli('globals_flat', Cmd([F('req', 'String', long=True, short='r', glob=True), F('def', 'u8', short='d', glob=True, default='3')], flats=[('g', GG)], sub=('c', True, Sub(('A', 'a', 'Struct', Cmd([F('loc', 'bool', long='gloc')], flats=[('h', G1)])), ('B', 'b', 'Unit', None)))))
cli('globals_constr', Cmd([F('a', 'bool', short='a', glob=True, conflicts=['b']), F('b', 'bool', short='b', glob=True), F('x', 'bool', short='x', exclusive=True, glob=True), F('r', 'bool', short='r', requires=['a'])], sub=('c', True, Sub(('S', 's', 'Struct', Cmd([F('n', 'Option<u8>', short='n'), F('q', 'String', short='q')])), ('T', 't', 'Unit', None)))))
D4 = Cmd([F('d', 'Vec<String>')]); 
D3 = Cmd([F('c', 'bool', short='c')], sub=('s', True, Sub(('Four', 'four', 'New', D4))))
D2 = Cmd([F('b', 'bool', short='b', glob=True)], sub=('s', False, Sub(('Three', 'three', 'New', D3), ('Two', 'two', 'Unit', None))))
cli('deep', Cmd([F('a', 'bool', short='a', glob=True), F('n', 'Option<u8>', short='n', glob=True)], sub=('s', False, Sub(('Two', 'two', 'New', D2), ('One', 'one', 'Unit', None)))))
cli('sub_names', Cmd([], sub=('c', False, Sub(*[(i, n, 'Unit', None) for i, n in [('A', 'a'), ('Ab', 'ab'), ('AbC', 'ab-c'), ('Abc', 'abc'), ('B', 'b'), ('Zed', 'zed'), ('FooBarBaz', 'foo-bar-baz'), ('Foo', 'foo'), ('FooBar', 'foo-bar'), ('X1', 'x1'), ('C', 'c'), ('D', 'd'), ('E', 'e'), ('Test', 'test'), ('Tes', 'tes')]]))))
cli('sub_many', Cmd([F('v', 'bool', short='v', glob=True)], sub=('c', True, Sub(*[(f'Cmd{chr(65+(i*11)%26)}{chr(97+i%26)}', None, 'Struct', Cmd([F('n', 'Option<u8>', short='n'), F('p', 'Option<String>')])) for i in range(26)]))))
for lab, c in CLIS:
    if lab == 'sub_many':
        vs = c.sub[2].variants
        c.sub[2].variants = [(id, 'cmd-' + id[3].lower() + id[4] , sh, k) for id, nm, sh, k in vs]
        # heck splits at case boundaries: CmdAb -> cmd-ab
cli('sub_excl', Cmd([F('a', 'bool', short='a', exclusive=True), F('b', 'bool', short='b')], sub=('c', True, Sub(('Go', 'go', 'Unit', None), ('On', 'on', 'Struct', Cmd([F('x', 'bool', short='x', exclusive=True), F('y', 'bool', short='y')]))))))
cli('sub_none', Cmd([F('a', 'bool', short='a')], sub=('c', True, Sub())))
cli('sub_flat', Cmd([F('a', 'bool', short='a')], flats=[('g', G1), ('k', G2)], sub=('c', False, Sub(('One', 'one', 'Struct', Cmd([F('x', 'bool', short='x')], flats=[('g', G3)])), ('Two', 'two', 'New', Cmd([F('c', 'Option<u8>', short='c')], flats=[('z', GN)]))))))
cli('shadow_help', Cmd([F('help', 'bool', long=True, short='h', glob=True)], sub=('c', True, Sub(('In', 'in', 'Struct', Cmd([F('x', 'bool', short='x')])), ('Own', 'own', 'Struct', Cmd([F('help', 'Option<String>', long=True)]))))))
cli('docs', Cmd([F('alpha', 'Option<String>', long=True, short='a', doc='Alpha doc.\n\nMore alpha.'), F('hid', 'bool', long='hidden', hide=True), F('beta', 'String', short='b', vname='BE-TA', doc='Beta.'), F('out', 'String', vname='OUT FILE', doc='Output.'), F('hp', 'Option<String>', hide=True), F('rest', 'Vec<String>', doc='Rest.')], flats=[('g', G1)], about='About text.\n\nDetails.', after='Trailer.'))
cli('raw_ident', Cmd([F('kind', 'Option<String>', long='type'), F('in_', 'bool', long='in', short='i')]))

enum('RawV', [('r#type', None, 'TYPE'), ('r#match', None, 'MATCH'), ('Plain', None, 'PLAIN')], 'SCREAMING_SNAKE_CASE')
cli('raw_names', Cmd([F('r#type', 'Option<RawV>', long=True, short=True, glob=True, conflicts=['r#loop']), F('r#loop', 'bool', long=True, glob=True), F('r#as', 'Option<String>')],
    sub=('r#use', True, Sub(('r#move', 'move', 'Unit', None), ('r#fn', 'fn', 'Struct', Cmd([F('r#in', 'Vec<RawV>', short=True), F('r#for', 'String')]))))))

# ---- names whose order under other keys differs from their byte order -------------
ODD = ['ab', 'a-b', 'a_b', 'aB', 'AB', 'Ab', 'a.b', 'a', 'A', 'a1', 'a10', 'a2', 'é', 'e', 'f', 'zz', 'ZZ', '_', 'b', 'ba', 'b-', 'b-a', 'B', '文', 'ｚ', '😀', '~']
cli('odd_longs', Cmd([F(f'f{i}', 'bool' if i % 2 else 'Option<String>', long=n) for i, n in enumerate(ODD)]))
cli('odd_longs2', Cmd([F(f'f{i}', 'bool' if i % 2 else 'Option<String>', long=n, short=c) for i, (n, c) in enumerate(zip(reversed(ODD), 'zyxwvutsrqZYXWVUTSRQ9876543'))]))
cli('odd_aliases', Cmd([F(f'f{i}', 'bool' if i % 2 else 'Option<String>', long=f'l{i}', alias=ODD[i::5], salias=list('qQpPaAzZé文0')[i::5]) for i in range(5)]))
cli('odd_shorts', Cmd([F(f'f{i}', 'bool' if i % 3 else 'Option<String>', short=c) for i, c in enumerate('aAbBzZ019.,+/:@_~éßδΔ文字😀')]))
SUBODD = [('IOTest', 'io-test'), ('Ice', 'ice'), ('Zap', 'zap'), ('ABTest', 'ab-test'), ('Abc', 'abc'), ('ABC', None), ('Ab', 'ab'), ('AB2', None), ('XMLHttp', 'xml-http'), ('Xm', 'xm'), ('XmlA', 'xml-a'), ('Xmla', 'xmla'), ('HTTPServer', 'http-server'), ('Http', 'http'), ('Été', 'été'), ('Ete', 'ete'), ('A_B', 'a-b'), ('AC', 'ac')]
SUBODD = [(i, n) for i, n in SUBODD if n]
cli('odd_subs', Cmd([], sub=('c', False, Sub(*[(i, n, 'Unit', None) for i, n in SUBODD]))))
cli('odd_subs2', Cmd([F('v', 'bool', short='v', glob=True)], sub=('c', True, Sub(*[(i, n, ['Struct', 'New', 'Unit'][k % 3], None if k % 3 == 2 else Cmd([F('n', 'Option<String>', short='n')])) for k, (i, n) in enumerate(reversed(SUBODD))]))))
cli('odd_values', Cmd([F('a', 'Vec<OddV>', short='a'), F('b', 'Option<Nest>', short='b', icase=True), F('c', 'Vec<OddV>', delim='|')]))

# ---- long and short names next to each other -------------------------------------
LONG = 'x' * 300
cli('sub_pad', Cmd([F('o', 'Option<String>', long=LONG, short='o', doc='Long one.')], sub=('c', True, Sub(
    ('G', 'g', 'Unit', Cmd(about='Go.')), ('Mid', 'mid', 'Struct', Cmd([F('p', 'Option<String>', doc='P.')])), ('AVeryLongSubcommandNameThatIsHardlyEverTyped', 'a-very-long-subcommand-name-that-is-hardly-ever-typed', 'Unit', Cmd(about='Long.\n\nMore.')),
    ('TwentyTwoBytesLongName', 'twenty-two-bytes-long-name', 'New', Cmd([F('q', 'bool', short='q')], about='Not shown for newtypes?')), ('K', 'k', 'Unit', None)))))
cli('sub_pad2', Cmd([], sub=('c', False, Sub(('Éé', 'éé', 'Unit', Cmd(about='É.')), ('AVeryLongSubcommandNameThatIsHardlyEverTyped', 'a-very-long-subcommand-name-that-is-hardly-ever-typed', 'Unit', None)))))

# ---- pseudo-random definitions -------------------------------------------------
rng = random.Random(20240607)
LN = ['alpha', 'al', 'alp', 'beta', 'be', 'bet-a', 'zeta', 'Z', 'x', 'xy', 'x-y', 'x1', 'Ünï', 'key', 'keys', 'out', 'output', 'no-out', 'help-me', 'n']
SN = list('abcdefgijklmnopqrstuvwxyzABCDEFGHIJ0129') + ['é', 'ß', '文', '?', '@', '/', ':', ',']
def rand_cmd(depth, glob_ok, used=None, allow_pos=True, allow_sub=True, label=''):
    ln = LN[:]; rng.shuffle(ln); sn = SN[:]; rng.shuffle(sn)
    if used is None: used = set()
    ln = [x for x in ln if x not in used]; sn = [x for x in sn if x not in used]
    def take(l):
        x = l.pop(); used.add(x); return x
    fs = []; n = rng.randint(1, 5)
    for i in range(n):
        if not ln or not sn: break
        ty = rng.choice(['bool', 'bool', 'String', 'Option<String>', 'Option<String>', 'Option<u8>', 'Vec<String>', 'Option<Vec<u8>>', 'Option<Option<String>>', 'Option<OsString>', 'Option<Color>', 'Vec<Low>', 'i32'])
        kw = {}
        m = rng.randint(0, 3)
        if m != 1: kw['long'] = take(ln)
        if m != 0: kw['short'] = take(sn)
        if 'long' not in kw and 'short' not in kw: kw['short'] = take(sn)
        if rng.random() < .3 and ln: kw['alias'] = [take(ln)]
        if rng.random() < .2 and sn: kw['salias'] = [take(sn)]
        f = F(f'f{i}', ty, **kw)
        if f.kind == 'OptOpt': kw['eq'] = True
        elif f.takes:
            r = rng.random()
            if r < .2: kw['eq'] = True
            elif r < .4: kw['hy'] = True
            elif r < .6: kw['neg'] = True
        if f.multi and rng.random() < .4: kw['delim'] = rng.choice([',', ':', ';'])
        if f.base == 'Low' and rng.random() < .6: kw['icase'] = True
        r = rng.random()
        if f.kind == 'Value' or (f.kind in ('Opt', 'Vec', 'OptVec') and r < .15):
            if r < .6 and f.base in ('String', 'u8', 'i32', 'Low', 'Color'):
                kw['default'] = {'String': 'dflt', 'u8': '7', 'i32': '-3', 'Low': 'abc', 'Color': 'auto'}[f.base]
        if 'default' not in kw and rng.random() < .12: kw['required'] = True
        if glob_ok and rng.random() < .5: kw['glob'] = True
        if rng.random() < .1: kw['hide'] = True
        fs.append(F(f'f{i}', ty, **kw))
    if allow_pos and rng.random() < .75:
        k = rng.randint(0, 2)
        for i in range(k):
            ty = rng.choice(['Option<String>', 'Option<u8>', 'Option<OsString>', 'String'])
            kw = {}
            if ty == 'String' and rng.random() < .5: kw['default'] = 'pd'
            fs.insert(rng.randint(0, len(fs)), F(f'p{i}', ty, **kw))
        r = rng.random()
        if r < .35: fs.append(F('va', rng.choice(['Vec<String>', 'Option<Vec<u8>>', 'Vec<OsString>']), **({'trailing': True} if rng.random() < .35 else {})))
        if rng.random() < .25: fs.append(F('la', rng.choice(['Vec<String>', 'Vec<u8>']), last=True))
    names = [f.name for f in fs]
    for f in fs:
        if rng.random() < .25 and len(names) > 1:
            o = rng.choice([x for x in names if x != f.name]); f.conflicts = [o]
        if rng.random() < .25 and len(names) > 1:
            o = rng.sample([x for x in names if x != f.name], min(len(names)-1, rng.choice([1, 1, 2]))); f.requires = [x for x in o if x not in f.conflicts]
    flats = []
    if depth > 0 and rng.random() < .4:
        for i in range(rng.choice([1, 1, 2])):
            flats.append((f'fl{i}', rand_cmd(0, glob_ok, used, allow_pos=False, allow_sub=False)))
    if not flats and fs and rng.random() < .15: rng.choice(fs).exclusive = True
    sub = None
    if allow_sub and depth > 0 and rng.random() < .6:
        vs = []
        pool = [('Go', 'go'), ('Gone', 'gone'), ('GoOn', 'go-on'), ('A', 'a'), ('Status', 'status'), ('Sta', 'sta')]
        rng.shuffle(pool)
        for id, nm in pool[:rng.randint(1, 4)]:
            sh = rng.choice(['Unit', 'New', 'Struct', 'Struct'])
            vs.append((id, nm, sh, None if sh == 'Unit' else rand_cmd(depth-1, rng.random() < .5)))
        sub = ('sub', rng.random() < .5, Sub(*vs))
    return Cmd(fs, flats, sub)
def fix_trailing_sub(c):
    pass
for i in range(36):
    d = rng.choice([0, 1, 1, 2, 2])
    cli(f'rand{i}', rand_cmd(d, d > 0))

# ---- dense constraints ----------------------------------------------------------
crng = random.Random(77)
def constr_cmd(depth, glob):
    fs = []
    for i in range(crng.randint(2, 6)):
        ty = crng.choice(['bool', 'bool', 'bool', 'Option<String>', 'Option<u8>', 'Vec<String>', 'Option<Option<u8>>', 'Option<Vec<String>>'])
        kw = dict(short='abcdef'[i] if depth else 'uvwxyz'[i])
        if crng.random() < .3: kw['long'] = ('in' if depth else 'out') + str(i)
        if ty == 'Option<Option<u8>>': kw['eq'] = True
        r = crng.random()
        if r < .15: kw['required'] = True
        elif r < .35 and ty in ('Option<String>', 'Vec<String>', 'Option<u8>'): kw['default'] = '5'
        elif r < .45 and ty == 'bool': kw['dt'] = ('true', 'Val::B(true)', 'true')
        if crng.random() < .15: kw['exclusive'] = True
        if glob and crng.random() < .4: kw['glob'] = True
        fs.append(F('abcdef'[i], ty, **kw))
    if crng.random() < .5:
        fs.insert(crng.randint(0, len(fs)), F('pos', crng.choice(['Option<String>', 'Vec<String>']), **(dict(required=True) if crng.random() < .3 else {}), **(dict(exclusive=True) if crng.random() < .2 else {})))
    for f in fs:
        others = [x.name for x in fs if x.name != f.name]
        if crng.random() < .55: f.conflicts = crng.sample(others, min(len(others), crng.choice([1, 1, 2, 3]))); f.conflicts_all = crng.random() < .5
        if crng.random() < .4: f.requires = [x for x in crng.sample(others, min(len(others), crng.choice([1, 1, 2]))) if x not in f.conflicts]
    sub = None
    if depth:
        sub = ('sub', crng.random() < .5, Sub(('Go', 'go', 'Unit', None), ('On', 'on', 'Struct', constr_cmd(0, False))))
    return Cmd(fs, [], sub)
for i in range(32):
    cli(f'constr{i}', constr_cmd(i % 2, i % 4 == 3))

w("")
reg = []
for label, c in CLIS:
    n = c.emit('Parser')
    reg.append((label, n, c))
for i, (label, n, c) in enumerate(reg):
    w(f"fn d{i}() -> CmdD {{ {c.rust()} }}")
w("pub fn all() -> Vec<Cli> { vec![")
for i, (label, n, c) in enumerate(reg):
    w(f"    Cli {{ label: {rs(label)}, desc: d{i}(), run: run::<{n}> }},")
w("] }")
open(sys.argv[1] if len(sys.argv) > 1 else 'src/clis.rs', 'w').write('\n'.join(OUT) + '\n')
