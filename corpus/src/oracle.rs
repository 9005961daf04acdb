//! Independent reading of a command line against a definition.  Written from the
//! properties (not from palc's code): words are consumed one by one into "given"
//! occurrences; constraints and defaults are applied afterwards.
use crate::base::Val;
use crate::desc::*;
use std::collections::BTreeSet;
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;

pub type Tags = BTreeSet<&'static str>;
pub type Bytes = Vec<u8>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum EK {
    Unknown, UnknownSub, Dup, ExtraPos, UnexpVal, MissingVal, InvalidVal, MissingEq,
    ReqArg, ReqSub, Dep, Excl, Conf, Arg0,
}
#[derive(Clone, Debug)]
pub struct ErrExp { pub kind: EK, pub desc: &'static str, pub input: Bytes }
impl ErrExp {
    /// The start of the message the user must see.
    pub fn text(&self) -> String {
        let i = format!("{:?}", OsStr::from_bytes(&self.input));
        let d = self.desc;
        match self.kind {
            EK::Unknown | EK::ExtraPos => format!("unexpected argument {i}"),
            EK::UnknownSub => format!("unrecognized subcommand {i}"),
            EK::Dup => format!("the argument '{d}' cannot be used multiple times"),
            EK::UnexpVal => format!("unexpected value {i} for '{d}'"),
            EK::MissingVal => format!("a value is required for '{d}' but none was supplied"),
            EK::InvalidVal => format!("invalid value {i} for '{d}'"),
            EK::MissingEq => format!("equal sign is needed when assigning values for '{d}'"),
            EK::ReqArg => format!("the argument '{d}' is required but not provided"),
            EK::ReqSub => "the subcommand is required but not provided".into(),
            EK::Dep => format!("the argument '{d}' is required because some dependency arguments are provided"),
            EK::Excl => format!("the argument '{d}' cannot be used with one or more of the other specified arguments"),
            EK::Conf => format!("the argument '{d}' cannot be used with some other arguments"),
            EK::Arg0 => "missing executable argument (argv[0])".into(),
        }
    }
    pub fn matches(&self, msg: &str) -> bool {
        match msg.strip_prefix(&*self.text()) {
            None => false,
            Some("") => true,
            // A source error or a context note may follow for invalid values only.
            Some(rest) => self.kind == EK::InvalidVal && (rest.starts_with(": ") || rest.starts_with('\n')),
        }
    }
}
/// The kind a message claims, by its fixed wording.
pub fn kind_of(msg: &str) -> Option<EK> {
    let l = msg;
    Some(if l.starts_with("unexpected argument ") { EK::Unknown }
    else if l.starts_with("unrecognized subcommand ") { EK::UnknownSub }
    else if l.starts_with("unexpected value ") { EK::UnexpVal }
    else if l.starts_with("invalid value ") { EK::InvalidVal }
    else if l.starts_with("a value is required") { EK::MissingVal }
    else if l.starts_with("equal sign is needed") { EK::MissingEq }
    else if l.starts_with("the subcommand is required") { EK::ReqSub }
    else if l.starts_with("missing executable") { EK::Arg0 }
    else if l.starts_with("the argument ") {
        if l.contains("cannot be used multiple times") { EK::Dup }
        else if l.contains("is required but not provided") { EK::ReqArg }
        else if l.contains("is required because") { EK::Dep }
        else if l.contains("one or more of the other specified") { EK::Excl }
        else if l.contains("with some other arguments") { EK::Conf }
        else { return None }
    } else { return None })
}
pub fn is_constraint(k: EK) -> bool { matches!(k, EK::ReqArg | EK::ReqSub | EK::Dep | EK::Excl | EK::Conf) }

#[derive(Clone, Debug)]
pub enum Exp {
    Ok(Val),
    Err(Vec<ErrExp>),
    /// Path of subcommand names entered; `or` lists errors that are acceptable as well.
    Help { path: Vec<&'static str>, or: Vec<ErrExp> },
}

#[derive(Clone, Debug)]
enum Given { Flag, One(Val), Maybe(Option<Val>), Many(Vec<Val>) }

#[derive(Clone)]
struct Group<'d> { cmd: &'d CmdD, given: Vec<Option<Given>>, flats: Vec<Group<'d>> }
impl<'d> Group<'d> {
    fn new(cmd: &'d CmdD) -> Self {
        Group { cmd, given: vec![None; cmd.args.len()], flats: cmd.flats.iter().map(|f| Group::new(&f.1)).collect() }
    }
    fn lookup(&self, n: &Name, glob_only: bool) -> Option<(Vec<usize>, usize)> {
        for (i, a) in self.cmd.args.iter().enumerate() {
            if a.names.contains(n) && (!glob_only || a.glob) { return Some((vec![], i)); }
        }
        for (k, f) in self.flats.iter().enumerate() {
            if let Some((mut p, i)) = f.lookup(n, glob_only) { p.insert(0, k); return Some((p, i)); }
        }
        None
    }
    fn at(&mut self, p: &[usize], i: usize) -> (&'d ArgD, &mut Option<Given>) {
        match p { [] => (&self.cmd.args[i], &mut self.given[i]), [h, t @ ..] => self.flats[*h].at(t, i) }
    }
}
struct Level<'d> { g: Group<'d>, pos: Vec<usize>, next: usize, variant: Option<&'d VarD> }
impl<'d> Level<'d> {
    fn new(cmd: &'d CmdD, variant: Option<&'d VarD>) -> Self {
        let mut pos: Vec<usize> = (0..cmd.args.len()).filter(|&i| !cmd.args[i].named()).collect();
        // Single-valued ones in order, then the variable one, then the `last` one.
        pos.sort_by_key(|&i| { let a = &cmd.args[i]; if a.last { 2 } else if a.multi() { 1 } else { 0 } });
        Level { g: Group::new(cmd), pos, next: 0, variant }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum EvK { Opt(Vec<(usize, Vec<usize>, usize)>), Pos { greedy: bool, field: usize }, Sub, Term, Bad }
#[derive(Clone, Debug)]
pub struct Ev { pub kind: EvK, pub start: usize, pub end: usize, pub level: usize, pub tags: Tags,
    /// Path of field names touched.
    pub fields: Vec<Vec<&'static str>> }

pub struct Trace { pub exp: Exp, pub evs: Vec<Ev>, pub final_phase: bool,
    pub ctags: Tags }

pub fn convert(ty: Ty, b: &[u8]) -> Result<Val, ()> {
    let s = || std::str::from_utf8(b).map_err(|_| ());
    Ok(match ty {
        Ty::Bool => unreachable!(),
        Ty::Str => Val::S(s()?.as_bytes().to_vec()),
        Ty::Os => Val::S(b.to_vec()),
        Ty::U8 => Val::N(s()?.parse::<u8>().map_err(|_| ())? as i64),
        Ty::I32 => Val::N(s()?.parse::<i32>().map_err(|_| ())? as i64),
        Ty::I64 => Val::N(s()?.parse::<i64>().map_err(|_| ())?),
        Ty::Char => Val::C(s()?.parse::<char>().map_err(|_| ())?),
        Ty::Even => { let n = s()?.parse::<u32>().map_err(|_| ())?; if n % 2 == 0 { Val::N(n as i64) } else { return Err(()) } }
        Ty::Tag => match b { [b'#', r @ ..] => Val::S(r.to_vec()), _ => return Err(()) },
        Ty::Enum(t) => { let s = s()?; Val::T(t.iter().find(|x| x.0 == s).ok_or(())?.1) }
    })
}
fn pieces(b: &[u8], d: Option<char>) -> Vec<Bytes> {
    let Some(d) = d else { return vec![b.to_vec()] };
    let mut buf = [0; 4];
    let d = d.encode_utf8(&mut buf).as_bytes();
    let (mut out, mut cur, mut i) = (vec![], vec![], 0);
    while i < b.len() {
        if b[i..].starts_with(d) { out.push(std::mem::take(&mut cur)); i += d.len(); } else { cur.push(b[i]); i += 1; }
    }
    out.push(cur);
    out
}
/// Add one occurrence.  `Err` lists every error that is justified.
fn give(a: &'static ArgDRef, slot: &mut Option<Given>, val: Option<&[u8]>, tags: &mut Tags) -> Result<(), Vec<ErrExp>> {
    let e = |kind, input: &[u8]| ErrExp { kind, desc: a.desc, input: input.to_vec() };
    let mut errs = vec![];
    if slot.is_some() { tags.insert("C07"); if !a.multi() { errs.push(e(EK::Dup, b"")); } }
    if val.is_some() { tags.insert("C10"); }
    match a.kind {
        Kind::Bool => {
            if let Some(v) = val { errs.insert(0, e(EK::UnexpVal, v)); }
            if errs.is_empty() { *slot = Some(Given::Flag); }
        }
        Kind::Value | Kind::Opt | Kind::OptOpt => {
            let v = match val {
                None if a.kind == Kind::OptOpt => None,
                None => unreachable!("value acquired before"),
                Some(raw) => {
                    let low = if a.icase { raw.to_ascii_lowercase() } else { raw.to_vec() };
                    match convert(a.ty, &low) {
                        Ok(v) => Some(v),
                        Err(()) => { errs.push(e(EK::InvalidVal, raw)); errs.push(e(EK::InvalidVal, &low)); None }
                    }
                }
            };
            if errs.is_empty() { *slot = Some(if a.kind == Kind::OptOpt { Given::Maybe(v) } else { Given::One(v.unwrap()) }); }
        }
        Kind::Vec | Kind::OptVec => {
            tags.insert("C07");
            let raw = val.unwrap();
            let mut new = match slot { Some(Given::Many(v)) => v.clone(), _ => vec![] };
            for p in pieces(raw, a.delim) {
                let low = if a.icase { p.to_ascii_lowercase() } else { p.clone() };
                match convert(a.ty, &low) {
                    Ok(v) => new.push(v),
                    Err(()) => { errs.push(e(EK::InvalidVal, &p)); errs.push(e(EK::InvalidVal, &low)); break }
                }
            }
            if errs.is_empty() { *slot = Some(Given::Many(new)); }
        }
    }
    if errs.is_empty() { Ok(()) } else { Err(errs) }
}
pub type ArgDRef = ArgD;

fn find(h: &[u8], n: u8) -> Option<usize> { h.iter().position(|&b| b == n) }
fn may_be_value(a: &ArgD, w: &[u8]) -> bool {
    !w.starts_with(b"-") || w == b"-" || a.hy || (a.neg && w[1..].iter().all(|b| b.is_ascii_digit()))
}
/// The first character of `b` if it is valid UTF-8 there.
fn first_char(b: &[u8]) -> Option<(char, usize)> {
    for n in 1..=4.min(b.len()) {
        if let Ok(s) = std::str::from_utf8(&b[..n]) { return s.chars().next().map(|c| (c, n)); }
    }
    None
}

struct M<'d> { levels: Vec<Level<'d>>, words: &'d [Bytes], i: usize, help: bool, evs: Vec<Ev> }
enum Stop { Errs(Vec<ErrExp>), Help(Vec<ErrExp>) }

impl<'d> M<'d> {
    /// Handle one named occurrence.  `glued` is the text after the name in the same word for a
    /// short option (None: nothing follows), `eq` the explicit `=value`.
    fn named(&mut self, n: &Name, word_start: usize, eq: Option<&[u8]>, glued: Option<&[u8]>, ev: &mut Ev) -> Result<bool, Stop> {
        let short = matches!(n, Name::Short(_));
        ev.tags.insert("C05");
        if short { ev.tags.insert("C03"); }
        let mut hit = None;
        let top = self.levels.len() - 1;
        for l in (0..=top).rev() {
            if let Some((p, i)) = self.levels[l].g.lookup(n, l != top) { hit = Some((l, p, i)); break; }
        }
        let Some((l, p, i)) = hit else {
            let shown: Bytes = match n { Name::Long(s) => s.as_bytes().to_vec(), Name::Short(c) => format!("-{c}").into_bytes() };
            let unk = ErrExp { kind: EK::Unknown, desc: "", input: shown };
            let is_help = match n { Name::Long(s) => s == "--help", Name::Short(c) => *c == 'h' };
            if is_help {
                ev.tags.insert("C13");
                if self.help { return Err(Stop::Help(if eq.is_some() { vec![unk] } else { vec![] })); }
            }
            ev.tags.insert("C11");
            return Err(Stop::Errs(vec![unk]));
        };
        let words = self.words;
        let (a, slot) = self.levels[l].g.at(&p, i);
        if n == &Name::Short('h') || n == &Name::Long("--help".into()) { ev.tags.insert("C13"); }
        if let EvK::Opt(ids) = &mut ev.kind { ids.push((l, p.clone(), i)); }
        ev.fields.push(vec![a.field]);
        if l != top || !p.is_empty() { ev.tags.insert("C05"); }
        let dup = |v: &mut Vec<ErrExp>, slot: &Option<Given>| if slot.is_some() && !a.multi() { v.push(ErrExp { kind: EK::Dup, desc: a.desc, input: vec![] }) };
        let fail = |kind, slot: &Option<Given>| { let mut v = vec![ErrExp { kind, desc: a.desc, input: vec![] }]; dup(&mut v, slot); Err(Stop::Errs(v)) };
        if a.takes() || a.kind == Kind::OptOpt || eq.is_some() { ev.tags.insert("C02"); }
        let (val, used_rest): (Option<&[u8]>, bool) = if let Some(v) = eq {
            (Some(v), true)
        } else if let Some(g) = glued {
            if a.eq { ev.tags.insert("C11"); return fail(EK::MissingEq, slot); }
            if a.takes() { (Some(g), true) } else { (None, false) }
        } else if !a.takes() {
            (None, false)
        } else if a.eq {
            ev.tags.insert("C11");
            return fail(EK::MissingEq, slot);
        } else {
            match words.get(self.i) {
                Some(w) if may_be_value(a, w) => { self.i += 1; (Some(&w[..]), false) }
                _ => { ev.tags.insert("C11"); return fail(EK::MissingVal, slot); }
            }
        };
        let _ = word_start;
        // SAFETY of lifetimes: descriptions outlive the run.
        let a: &'static ArgD = unsafe { &*(a as *const ArgD) };
        match give(a, slot, val, &mut ev.tags) {
            Ok(()) => Ok(used_rest),
            Err(e) => { ev.tags.insert("C11"); Err(Stop::Errs(e)) }
        }
    }
    fn positional(&mut self, w: &'d [u8], after: bool, ev: &mut Ev) -> Result<(), Stop> {
        ev.tags.insert("C04");
        ev.tags.insert("C01");
        let lv = self.levels.last_mut().unwrap();
        let cmd = lv.g.cmd;
        let target = lv.pos.get(lv.next).copied().filter(|&i| after || !cmd.args[i].last);
        let Some(i) = target else {
            ev.tags.insert("C11");
            let mut v = vec![];
            if cmd.sub.is_some() { ev.tags.insert("C06"); v.push(ErrExp { kind: EK::UnknownSub, desc: "", input: w.to_vec() }); }
            if cmd.sub.is_none() || after { v.push(ErrExp { kind: EK::ExtraPos, desc: "", input: w.to_vec() }); }
            return Err(Stop::Errs(v));
        };
        let a: &'static ArgD = unsafe { &*(&cmd.args[i] as *const ArgD) };
        if !a.multi() { lv.next += 1; }
        let greedy = a.trailing || a.last;
        ev.kind = EvK::Pos { greedy, field: i };
        ev.fields.push(vec![a.field]);
        let slot = &mut lv.g.given[i];
        let r = give(a, slot, Some(w), &mut ev.tags);
        if let Err(e) = r { ev.tags.insert("C11"); return Err(Stop::Errs(e)); }
        if greedy {
            while let Some(w) = self.words.get(self.i) {
                self.i += 1;
                if let Err(e) = give(a, slot, Some(w), &mut ev.tags) { ev.tags.insert("C11"); return Err(Stop::Errs(e)); }
            }
        }
        Ok(())
    }
    fn step(&mut self, after: &mut bool, ev: &mut Ev) -> Result<(), Stop> {
        let words = self.words;
        let w = &words[self.i][..];
        self.i += 1;
        if *after { return self.positional(w, true, ev); }
        if w == b"--" {
            ev.kind = EvK::Term;
            ev.tags.insert("C01"); ev.tags.insert("C04");
            *after = true;
            let lv = self.levels.last_mut().unwrap();
            if let Some(k) = lv.pos.iter().position(|&i| lv.g.cmd.args[i].last) { lv.next = k; }
            return Ok(());
        }
        if w.starts_with(b"--") {
            ev.kind = EvK::Opt(vec![]);
            ev.tags.insert("C01");
            let (n, eq) = match find(w, b'=') { Some(k) => (&w[..k], Some(&w[k + 1..])), None => (w, None) };
            return match std::str::from_utf8(n) {
                Ok(s) => self.named(&Name::Long(s.into()), self.i - 1, eq, None, ev).map(|_| ()),
                Err(_) => {
                    ev.tags.insert("C05"); ev.tags.insert("C11");
                    Err(Stop::Errs(vec![ErrExp { kind: EK::Unknown, desc: "", input: n.to_vec() }]))
                }
            };
        }
        if w.starts_with(b"-") && w.len() > 1 {
            ev.kind = EvK::Opt(vec![]);
            ev.tags.insert("C01");
            let mut k = 1;
            while k < w.len() {
                let Some((c, n)) = first_char(&w[k..]) else {
                    ev.tags.insert("C03"); ev.tags.insert("C11");
                    let mut junk = b"-".to_vec(); junk.extend(&w[k..]);
                    return Err(Stop::Errs(vec![ErrExp { kind: EK::Unknown, desc: "", input: junk }]));
                };
                k += n;
                let rest = &w[k..];
                let eq = rest.strip_prefix(b"=");
                let glued = if rest.is_empty() { None } else { Some(rest) };
                if self.named(&Name::Short(c), self.i - 1, eq, if eq.is_some() { None } else { glued }, ev)? { break; }
            }
            return Ok(());
        }
        let lv = self.levels.last_mut().unwrap();
        let cmd: &'d CmdD = lv.g.cmd;
        if let Some(sub) = &cmd.sub {
            ev.tags.insert("C06");
            if let Some(v) = sub.variants.iter().find(|v| v.name.as_bytes() == w) {
                ev.kind = EvK::Sub;
                ev.fields.push(vec![sub.field]);
                self.levels.push(Level::new(&v.cmd, Some(v)));
                return Ok(());
            }
        }
        self.positional(w, false, ev)
    }
}

fn check(g: &Group, has_sub: Option<bool>, sub_required: bool, errs: &mut Vec<ErrExp>, tags: &mut Tags) {
    let isset = |f: &str| g.cmd.args.iter().position(|a| a.field == f).map(|i| g.given[i].is_some()).unwrap_or(false);
    let desc = |f: &str| g.cmd.args.iter().find(|a| a.field == f).unwrap().desc;
    let total = g.given.iter().filter(|x| x.is_some()).count() + has_sub.unwrap_or(false) as usize;
    let mut e = |kind, desc| errs.push(ErrExp { kind, desc, input: vec![] });
    for (i, a) in g.cmd.args.iter().enumerate() {
        if g.given[i].is_some() {
            if a.exclusive { tags.insert("C08"); if total > 1 { e(EK::Excl, a.desc); } }
            for r in &a.requires { tags.insert("C08"); if !isset(r) { e(EK::Dep, desc(r)); } }
            for c in &a.conflicts { tags.insert("C08"); if isset(c) { e(EK::Conf, a.desc); } }
        } else if a.required { tags.insert("C08"); e(EK::ReqArg, a.desc); }
        else if !matches!(a.default, Dflt::None) { tags.insert("C09"); }
    }
    if sub_required && has_sub == Some(false) { tags.insert("C06"); tags.insert("C08"); e(EK::ReqSub, ""); }
    for f in &g.flats { check(f, None, false, errs, tags); }
}
fn wrap(v: Option<Val>) -> Val { match v { None => Val::Nil, Some(v) => Val::Some(Box::new(v)) } }
fn value(g: &Group, sub: Option<Val>) -> Val {
    let mut out = vec![];
    for (i, a) in g.cmd.args.iter().enumerate() {
        let given = g.given[i].clone();
        let dv = |text: &str| -> Val { // a textual default is parsed like a given value
            let mut slot = None;
            let a: &'static ArgD = unsafe { &*(a as *const ArgD) };
            give(a, &mut slot, Some(text.as_bytes()), &mut Tags::new()).expect("valid default in corpus");
            match slot.unwrap() { Given::Flag => Val::B(true), Given::One(v) => v, Given::Maybe(v) => wrap(v), Given::Many(v) => Val::L(v) }
        };
        let inner = match (given, &a.default) {
            (Some(Given::Flag), _) => Some(Val::B(true)),
            (Some(Given::One(v)), _) => Some(v),
            (Some(Given::Maybe(v)), _) => Some(wrap(v)),
            (Some(Given::Many(v)), _) => Some(Val::L(v)),
            (None, Dflt::Text(t)) => Some(dv(t)),
            (None, Dflt::Val(v)) => Some(v.clone()),
            (None, Dflt::None) => None,
        };
        out.push((a.field, match a.kind {
            Kind::Bool => inner.unwrap_or(Val::B(false)),
            Kind::Value => inner.unwrap(),
            Kind::Vec => inner.unwrap_or(Val::L(vec![])),
            Kind::Opt | Kind::OptOpt | Kind::OptVec => wrap(inner),
        }));
    }
    for (k, f) in g.cmd.flats.iter().enumerate() { out.push((f.0, value(&g.flats[k], None))); }
    if let Some(s) = &g.cmd.sub {
        out.push((s.field, if s.optional { match sub { None => Val::Nil, Some(v) => Val::Some(Box::new(v)) } } else { sub.unwrap() }));
    }
    Val::Rec(out)
}

pub fn run(d: &CmdD, words: &[Bytes], help: bool) -> Trace {
    let mut m = M { levels: vec![Level::new(d, None)], words, i: 0, help, evs: vec![] };
    let mut after = false;
    while m.i < words.len() {
        let mut ev = Ev { kind: EvK::Bad, start: m.i, end: m.i, level: m.levels.len() - 1, tags: Tags::new(), fields: vec![] };
        let r = m.step(&mut after, &mut ev);
        ev.end = m.i;
        if after && ev.kind != EvK::Term { ev.tags.insert("C01"); }
        m.evs.push(ev);
        match r {
            Ok(()) => {}
            Err(Stop::Errs(e)) => return Trace { exp: Exp::Err(e), evs: m.evs, final_phase: false, ctags: Tags::new() },
            Err(Stop::Help(or)) => {
                let path = m.levels.iter().filter_map(|l| l.variant.map(|v| v.name)).collect();
                return Trace { exp: Exp::Help { path, or }, evs: m.evs, final_phase: false, ctags: Tags::new() };
            }
        }
    }
    let mut errs = vec![];
    let mut tags = Tags::new();
    for k in (0..m.levels.len()).rev() {
        let l = &m.levels[k];
        let sub = l.g.cmd.sub.as_ref();
        check(&l.g, sub.map(|_| k + 1 < m.levels.len()), sub.is_some_and(|s| !s.optional), &mut errs, &mut tags);
    }
    if !errs.is_empty() {
        return Trace { exp: Exp::Err(errs), evs: m.evs, final_phase: true, ctags: tags };
    }
    let mut sub = None;
    while let Some(l) = m.levels.pop() {
        let v = value(&l.g, sub.take());
        sub = Some(match l.variant {
            None => v,
            Some(var) => Val::Var(var.ident, Box::new(if var.shape == Shape::Unit { Val::U } else { v })),
        });
    }
    Trace { exp: Exp::Ok(sub.unwrap()), evs: m.evs, final_phase: true, ctags: tags }
}
