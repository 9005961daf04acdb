#!/usr/bin/env python3
"""Command definitions, and what they say: written as Rust for the derive macros, and described independently of them."""
import random, sys, json
OUT = []
def w(s): OUT.append(s)
def rs(s): # rust string literal
    o = '"'
    for ch in s:
        if ch in '"\\': o += '\\' + ch
        elif ch == '\n': o += '\\n'
        elif ch == '\0': o += '\\0'
        else: o += ch
    return o + '"'
def rc(c):
    return "'\\''" if c == "'" else ("'\\\\'" if c == '\\' else f"'{c}'")

def unraw(n): return n[2:] if n.startswith('r#') else n
def kebab(n): return unraw(n).replace('_', '-')
def shouty(n): return unraw(n).upper()

class F:
    def __init__(s, name, ty, long=None, short=None, alias=(), salias=(), vname=None, eq=False, glob=False,
                 hy=False, neg=False, icase=False, trailing=False, last=False, default=None, dt=None, delim=None,
                 required=False, exclusive=False, requires=(), conflicts=(), hide=False, doc=None, use_delim=False, conflicts_all=False):
        s.__dict__.update(locals()); del s.__dict__['s']
        s.alias = list(alias); s.salias = list(salias); s.requires = list(requires); s.conflicts = list(conflicts)
        t = ty
        def strip(t, c):
            return t[len(c)+1:-1] if t.startswith(c + '<') else None
        if t == 'bool': s.kind, s.base = 'Bool', 'bool'
        elif strip(t, 'Option'):
            i = strip(t, 'Option')
            if strip(i, 'Option'): s.kind, s.base = 'OptOpt', strip(i, 'Option')
            elif strip(i, 'Vec'): s.kind, s.base = 'OptVec', strip(i, 'Vec')
            else: s.kind, s.base = 'Opt', i
        elif strip(t, 'Vec'): s.kind, s.base = 'Vec', strip(t, 'Vec')
        else: s.kind, s.base = 'Value', t
    @property
    def named(s): return s.long is not None or s.short is not None
    @property
    def multi(s): return s.kind in ('Vec', 'OptVec')
    @property
    def takes(s): return s.kind not in ('Bool', 'OptOpt')
    @property
    def req(s): return False if (s.default is not None or s.dt is not None) else (s.required or s.kind == 'Value')
    def plong(s): return None if s.long is None else (kebab(s.name) if s.long is True else s.long)
    def pshort(s): return None if s.short is None else (unraw(s.name)[0] if s.short is True else s.short)
    def desc(s):
        vn = s.vname or shouty(s.name)
        if s.named:
            l, c = s.plong(), s.pshort()
            if l is not None and c is not None: b = f"-{c}, --{l}"
            elif l is not None: b = f"--{l}"
            else: b = f"-{c}"
            if s.kind == 'OptOpt': b += f"[=<{vn}>]"
            elif s.takes: b += ('=' if s.eq else ' ') + f"<{vn}>"
            return b
        b = f"<{vn}>" if s.req else f"[{vn}]"
        return b + ('...' if s.multi else '')
    def attr(s):
        a = []
        if s.long is True: a.append('long')
        elif s.long is not None: a.append(f'long = {rs(s.long)}')
        if s.short is True: a.append('short')
        elif s.short is not None: a.append(f'short = {rc(s.short)}')
        if len(s.alias) == 1: a.append(f'alias = {rs(s.alias[0])}')
        elif s.alias: a.append('aliases = [' + ', '.join(map(rs, s.alias)) + ']')
        if len(s.salias) == 1: a.append(f'short_alias = {rc(s.salias[0])}')
        elif s.salias: a.append('short_aliases = [' + ', '.join(map(rc, s.salias)) + ']')
        if s.vname: a.append(f'value_name = {rs(s.vname)}')
        for k, n in (('eq', 'require_equals'), ('glob', 'global'), ('hy', 'allow_hyphen_values'), ('neg', 'allow_negative_numbers'),
                     ('icase', 'ignore_case'), ('trailing', 'trailing_var_arg'), ('last', 'last'), ('required', 'required'),
                     ('exclusive', 'exclusive'), ('hide', 'hide')):
            if getattr(s, k): a.append(f'{n} = true')
        if s.default is not None: a.append(f'default_value = {rs(s.default)}')
        if s.dt is not None: a.append('default_value_t' + ('' if s.dt[0] is None else f' = {s.dt[0]}'))
        if s.use_delim: a.append('use_value_delimiter = true')
        elif s.delim: a.append(f'value_delimiter = {rc(s.delim)}')
        for r in s.requires: a.append(f'requires = {rs(r)}')
        if s.conflicts_all: a.append('conflicts_with_all = [' + ', '.join(map(rs, s.conflicts)) + ']')
        else:
            for r in s.conflicts: a.append(f'conflicts_with = {rs(r)}')
        return a
    def decl(s):
        d = ''
        if s.doc: d += ''.join(f'    /// {l}\n' for l in s.doc.split('\n'))
        a = s.attr()
        if a: d += f"    #[arg({', '.join(a)})]\n"
        return d + f"    {s.name}: {s.ty},\n"
    def rust(s):
        names = [f'Name::Long({rs("--"+n)}.into())' for n in s.alias + ([s.plong()] if s.plong() is not None else [])]
        names += [f'Name::Short({rc(c)})' for c in s.salias + ([s.pshort()] if s.pshort() is not None else [])]
        dfl = 'Dflt::None'
        if s.default is not None: dfl = f'Dflt::Text({rs(s.default)})'
        elif s.dt is not None: dfl = f'Dflt::Val({s.dt[1]})'
        shown = 'None'
        if s.default is not None: shown = f'Some({rs(s.default)})'
        elif s.dt is not None and s.dt[2] is not None: shown = f'Some({rs(s.dt[2])})'
        return (f'ArgD{{field:{rs(unraw(s.name))},kind:Kind::{s.kind},ty:Ty::{tyname(s.base)},names:vec![{", ".join(names)}],'
                f'desc:{rs(s.desc())},eq:{b(s.eq)},hy:{b(s.hy)},neg:{b(s.neg)},glob:{b(s.glob)},icase:{b(s.icase)},'
                f'trailing:{b(s.trailing)},last:{b(s.last)},delim:{("Some(%s)" % rc(s.delim)) if s.delim else "None"},'
                f'required:{b(s.req)},default:{dfl},shown:{shown},exclusive:{b(s.exclusive)},'
                f'requires:vec![{",".join(rs(unraw(x)) for x in s.requires)}],conflicts:vec![{",".join(rs(unraw(x)) for x in s.conflicts)}],'
                f'hide:{b(s.hide)},doc:{rs(docjoin(s.doc))}}}')
def docjoin(d):
    if not d: return ''
    out = ''
    for l in d.split('\n'):
        l = l.strip()
        if not l:
            if not out.endswith('\n'): out += '\n'
        else:
            if out and not out.endswith('\n'): out += ' '
            out += l
    return out.rstrip()
def b(x): return 'true' if x else 'false'
ENUMS = {}
def tyname(t):
    m = {'bool': 'Bool', 'String': 'Str', 'OsString': 'Os', 'PathBuf': 'Os', 'u8': 'U8', 'i32': 'I32', 'i64': 'I64', 'char': 'Char', 'Even': 'Even', 'Tag': 'Tag'}
    return m[t] if t in m else f'Enum({t}_NAMES)'

class Enum: pass
def enum(name, variants, rename=None):
    """variants: list of (ident, explicit_name or None, effective name)"""
    ENUMS[name] = variants
    w(f"#[derive(Debug, Clone, PartialEq, ValueEnum)]")
    if rename: w(f'#[value(rename_all = {rs(rename)})]')
    w(f"pub enum {name} {{")
    for i, (id, ex, eff) in enumerate(variants):
        if ex is not None: w(f'    #[value(name = {rs(ex)})]')
        w(f"    {id},")
    w("}")
    w(f"pub const {name}_NAMES: &[(&str, &str)] = &[" + ', '.join(f'({rs(eff)}, {rs(id)})' for id, ex, eff in variants) + "];")
    w(f"impl Show for {name} {{ fn show(&self) -> Val {{ Val::T(match self {{ " + ', '.join(f'{name}::{id} => {rs(id)}' for id, _, _ in variants) + " }) } }")

N = [0]
class Cmd:
    """A struct of arguments."""
    def __init__(s, fields=(), flats=(), sub=None, about=None, after=None, positions=None):
        s.fields, s.flats, s.sub, s.about, s.after = list(fields), list(flats), sub, about, after
        # flats: (field name, Cmd); sub: (field name, optional, Sub)
        s.done = None
        s.order = positions
    def body(s):
        items = [f.decl() for f in s.fields]
        o = ''.join(items)
        for n, c in s.flats: o += f"    #[command(flatten)]\n    {n}: {c.emit('Args')},\n"
        if s.sub:
            n, opt, sub = s.sub
            t = sub.emit()
            o += f"    #[command(subcommand)]\n    {n}: " + (f"Option<{t}>" if opt else t) + ",\n"
        return o
    def meta(s):
        o = ''
        if s.about: o += ''.join(f'/// {l}\n' for l in s.about.split('\n'))
        if s.after: o += f'#[command(after_long_help = {rs(s.after)})]\n'
        return o
    def showfields(s, pre):
        return 'vec![' + ', '.join(f'({rs(unraw(n))}, {pre}{n}.show())' for n in
              [f.name for f in s.fields] + [n for n, _ in s.flats] + ([s.sub[0]] if s.sub else [])) + ']'
    def emit(s, derive):
        if s.done: return s.done
        N[0] += 1
        s.done = name = f"S{N[0]}"
        body = s.body()
        w(f"#[derive(Debug, {derive})]\n{s.meta()}pub struct {name} {{\n{body}}}")
        w(f"impl Show for {name} {{ fn show(&self) -> Val {{ Val::Rec({s.showfields('self.')}) }} }}")
        return name
    def rust(s, ):
        fl = ', '.join(f'({rs(unraw(n))}, {c.rust()})' for n, c in s.flats)
        if s.sub:
            n, opt, sub = s.sub
            sb = f'Some(SubD{{field:{rs(unraw(n))},optional:{b(opt)},variants:vec![' + ', '.join(
                f'VarD{{ident:{rs(id)},name:{rs(nm)},shape:Shape::{sh},cmd:{c.rust()}}}' for id, nm, sh, c in sub.variants) + ']})'
        else: sb = 'None'
        return (f'CmdD{{args:vec![{", ".join(f.rust() for f in s.fields)}],flats:vec![{fl}],sub:{sb},about:{rs(docjoin(s.about))},after:{rs(s.after or "")}}}')
class Sub:
    def __init__(s, *variants):
        # (ident, cliname, shape Unit|New|Struct, Cmd)
        s.variants = [(id, nm, sh, c or Cmd()) for id, nm, sh, c in variants]
        s.done = None
    def emit(s):
        if s.done: return s.done
        N[0] += 1
        s.done = name = f"E{N[0]}"
        o = ''; arms = ''
        for id, nm, sh, c in s.variants:
            if sh == 'Unit':
                o += '    ' + c.meta() + f"    {id},\n"; arms += f'{name}::{id} => Val::Var({rs(id)}, Box::new(Val::U)), '
            elif sh == 'New':
                o += f"    {id}({c.emit('Args')}),\n"; arms += f'{name}::{id}(x) => Val::Var({rs(id)}, Box::new(x.show())), '
            else:
                o += '    ' + c.meta() + f"    {id} {{\n{c.body()}    }},\n"
                names = [f.name for f in c.fields] + [n for n, _ in c.flats] + ([c.sub[0]] if c.sub else [])
                arms += f'{name}::{id} {{ {", ".join(names)} }} => Val::Var({rs(id)}, Box::new(Val::Rec({c.showfields("")}))), '
        w(f"#[derive(Debug, Subcommand)]\npub enum {name} {{\n{o}}}")
        if s.variants:
            w(f"impl Show for {name} {{ fn show(&self) -> Val {{ match self {{ {arms} }} }} }}")
        else:
            w(f"impl Show for {name} {{ fn show(&self) -> Val {{ match *self {{}} }} }}")
        return name
