//! Witness search: runs the real parser (through the public derive API) against the oracle.
//!   engine all  --jobs N --seed S --scale K        every definition, children in parallel
//!   engine cli K --seed S --scale K --skip N       one definition (child)
//!   engine one LABEL HEXWORD...                    a single command line, verbose
//! Output: one JSON object per line.
mod base;
mod clis;
mod desc;
mod gen_argv;
mod helptext;
mod oracle;

use base::{Real, Val};
use desc::*;
use gen_argv::*;
use oracle::*;
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::OsString;
use std::io::Write;
use std::os::unix::ffi::OsStringExt;
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};

pub const HELP: bool = cfg!(feature = "help");
static CUR: Mutex<(u64, Vec<Bytes>)> = Mutex::new((0, Vec::new()));
static TAGS: Mutex<String> = Mutex::new(String::new());
static TICK: AtomicU64 = AtomicU64::new(0);

pub fn show_word(w: &[u8]) -> String {
    let mut s = String::new();
    for c in w.utf8_chunks() {
        s.push_str(&c.valid().escape_debug().to_string());
        for b in c.invalid() { s.push_str(&format!("\\x{b:02x}")); }
    }
    format!("'{s}'")
}
pub fn show_argv(ws: &[Bytes]) -> String { ws.iter().map(|w| show_word(w)).collect::<Vec<_>>().join(" ") }
pub fn hex(w: &[u8]) -> String { if w.is_empty() { "-".into() } else { w.iter().map(|b| format!("{b:02x}")).collect() } }
fn unhex(s: &str) -> Bytes { if s == "-" { vec![] } else { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() } }
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"');
    o
}

/// Passes words on; counts reads so that over-reading is visible.
struct Words<'a> { it: std::slice::Iter<'a, Bytes>, first: Option<OsString> }
impl Iterator for Words<'_> {
    type Item = OsString;
    fn next(&mut self) -> Option<OsString> {
        if let Some(f) = self.first.take() { return Some(f); }
        self.it.next().map(|w| OsString::from_vec(w.clone()))
    }
}
pub fn real(cli: &Cli, words: &[Bytes]) -> Real { real_as(cli, words, "prog") }
pub fn real_as(cli: &Cli, words: &[Bytes], prog: &str) -> Real {
    {
        let mut c = CUR.lock().unwrap();
        c.1.clear();
        c.1.extend_from_slice(words);
    }
    TICK.fetch_add(1, Ordering::Relaxed);
    (cli.run)(&mut Words { it: words.iter(), first: Some(prog.into()) })
}

fn find_usage<'a>(h: &'a str) -> Option<&'a str> { h.lines().find_map(|l| l.strip_prefix("Usage:")) }

/// None: as expected.  Some: the properties this outcome breaks, and the difference in words.
pub fn judge(cli: &Cli, words: &[Bytes], t: &Trace, r: &Real) -> Option<(Tags, String)> {
    let mut tags = Tags::new();
    let all = |t: &Trace| t.evs.iter().flat_map(|e| e.tags.iter().copied()).filter(|x| *x != "C11").collect::<Tags>();
    let last = |t: &Trace| t.evs.last().map(|e| e.tags.iter().copied().filter(|x| *x != "C11").collect::<Tags>()).unwrap_or_default();
    let _ = words;
    let why;
    match (&t.exp, r) {
        (Exp::Ok(v), Real::Ok(w)) => {
            if v == w { return None; }
            let mut diffs = vec![];
            diff(v, w, &mut vec![], &mut diffs);
            for d in &diffs {
                let mut touched = false;
                for e in &t.evs {
                    if e.fields.iter().any(|f| d.iter().any(|x| f.last() == Some(x))) { touched = true; tags.extend(e.tags.iter().copied()); }
                }
                if d.contains(&"<variant>") { tags.insert("C06"); }
                if !touched {
                    let has_default = any_arg(&cli.desc, &mut |a| d.last() == Some(&a.field) && !matches!(a.default, Dflt::None));
                    tags.insert(if has_default { "C09" } else { "C07" });
                }
            }
            tags.remove("C11");
            if tags.is_empty() { tags.insert("C07"); }
            why = format!("values differ at {diffs:?}: expected {v:?}, got {w:?}");
        }
        (Exp::Ok(v), Real::Err { msg, help }) => {
            if help.is_some() { tags.insert("C13"); }
            match kind_of(msg) {
                Some(k) if is_constraint(k) => {
                    tags.insert("C08");
                    if k == EK::ReqSub { tags.insert("C06"); }
                    if t.ctags.contains("C09") { tags.insert("C09"); }
                    // The word that should have supplied it may have been lost.
                    if k == EK::ReqArg || k == EK::Dep || k == EK::ReqSub { tags.extend(all(t)); }
                }
                _ => tags.extend(all(t)),
            }
            if tags.is_empty() { tags.insert("C12"); }
            why = format!("expected success {v:?}, got error {msg:?}");
        }
        (Exp::Err(es), Real::Ok(w)) => {
            if t.final_phase {
                tags.extend(t.ctags.iter().copied().filter(|x| *x != "C09" && (*x != "C06" || es.iter().any(|e| e.kind == EK::ReqSub))));
                tags.insert("C08");
                if t.ctags.contains("C09") { tags.insert("C09"); }
            } else { tags.extend(last(t)); if es.iter().any(|e| e.kind == EK::Unknown) && tags.contains("C13") { tags.insert("C13"); } }
            why = format!("expected error {:?}, got success {w:?}", es.iter().map(|e| e.text()).collect::<Vec<_>>());
        }
        (Exp::Err(es), Real::Err { msg, help }) => {
            if help.is_none() && es.iter().any(|e| e.matches(msg)) { return None; }
            if help.is_some() { tags.insert("C13"); }
            let rk = kind_of(msg);
            let same_kind = es.iter().any(|e| Some(e.kind) == rk || (e.kind == EK::ExtraPos && rk == Some(EK::Unknown)) || (e.kind == EK::Unknown && rk == Some(EK::ExtraPos)));
            if help.is_none() {
                if same_kind || rk.is_none() {
                    tags.insert("C11");
                    if !t.final_phase && t.evs.last().is_some_and(|e| e.tags.contains("C03")) && rk == Some(EK::Unknown) { tags.insert("C03"); }
                } else if t.final_phase {
                    tags.insert("C11");
                    if rk.is_some_and(is_constraint) { tags.insert("C08"); } else { tags.extend(all(t)); }
                } else { tags.extend(last(t)); tags.insert("C11"); }
            }
            why = format!("expected error {:?}, got {:?}{}", es.iter().map(|e| e.text()).collect::<Vec<_>>(), msg, if help.is_some() { " as a help outcome" } else { "" });
        }
        (Exp::Help { path, or }, r) => {
            match r {
                Real::Err { msg, help: None } if or.iter().any(|e| e.matches(msg)) => return None,
                Real::Err { help: Some(h), msg } => {
                    let mut want = String::from(" prog");
                    for p in path { want.push(' '); want.push_str(p); }
                    match find_usage(h) {
                        Some(u) if u == want || u.strip_prefix(&*want).is_some_and(|r| r.starts_with(' ')) => {
                            if msg == h { return None; }
                            why = format!("help outcome is displayed as {msg:?}");
                        }
                        u => why = format!("expected help for{want}, got usage line {u:?}"),
                    }
                }
                Real::Err { msg, .. } => why = format!("expected a help outcome, got error {msg:?}"),
                Real::Ok(v) => why = format!("expected a help outcome, got success {v:?}"),
            }
            tags.insert("C13");
        }
    }
    Some((tags, why))
}
fn any_arg(c: &CmdD, f: &mut dyn FnMut(&ArgD) -> bool) -> bool {
    c.args.iter().any(|a| f(a)) || c.flats.iter().any(|x| any_arg(&x.1, f)) || c.sub.as_ref().is_some_and(|s| s.variants.iter().any(|v| any_arg(&v.cmd, f)))
}
fn diff(a: &Val, b: &Val, path: &mut Vec<&'static str>, out: &mut Vec<Vec<&'static str>>) {
    if a == b { return; }
    match (a, b) {
        (Val::Rec(x), Val::Rec(y)) if x.len() == y.len() => {
            for ((n, u), (_, v)) in x.iter().zip(y) { path.push(n); diff(u, v, path, out); path.pop(); }
        }
        (Val::Var(n, u), Val::Var(m, v)) if n == m => diff(u, v, path, out),
        (Val::Some(u), Val::Some(v)) if matches!((&**u, &**v), (Val::Var(..), Val::Var(..))) => diff(u, v, path, out),
        (Val::Var(..), _) | (_, Val::Var(..)) => { let mut p = path.clone(); p.push("<variant>"); out.push(p) }
        (Val::Some(u), _) if matches!(**u, Val::Var(..)) => { let mut p = path.clone(); p.push("<variant>"); out.push(p) }
        (_, Val::Some(u)) if matches!(**u, Val::Var(..)) => { let mut p = path.clone(); p.push("<variant>"); out.push(p) }
        _ => out.push(path.clone()),
    }
}

fn examine(cli: &Cli, words: &[Bytes]) -> Option<(Tags, String)> {
    let t = oracle::run(&cli.desc, words, HELP);
    judge(cli, words, &t, &real(cli, words))
}
/// Greedy minimisation keeping `keep` satisfied.
fn shrink(words: &[Bytes], keep: &mut dyn FnMut(&[Bytes]) -> bool) -> Vec<Bytes> {
    let mut cur = words.to_vec();
    let mut budget = 600;
    loop {
        let mut better = None;
        let mut cands: Vec<Vec<Bytes>> = vec![];
        for i in 0..cur.len() { let mut c = cur.clone(); c.remove(i); cands.push(c); }
        for i in 0..cur.len() {
            let w = &cur[i];
            if w.len() > 1 {
                for k in 0..w.len().min(24) { let mut v = w.clone(); v.remove(k); let mut c = cur.clone(); c[i] = v; cands.push(c); }
            }
        }
        for c in cands {
            if budget == 0 { return cur; }
            budget -= 1;
            if keep(&c) { better = Some(c); break; }
        }
        match better { Some(b) => cur = b, None => return cur }
    }
}

fn swap_check(cli: &Cli, words: &[Bytes], t: &Trace) -> (u64, Option<(Vec<Bytes>, String)>) {
    let mut n = 0;
    let Exp::Ok(_) = t.exp else { return (0, None) };
    for k in 1..t.evs.len() {
        let (a, b) = (&t.evs[k - 1], &t.evs[k]);
        if a.level != b.level { continue; }
        let ok = match (&a.kind, &b.kind) {
            (EvK::Opt(x), EvK::Opt(y)) => !x.iter().any(|i| y.contains(i)),
            (EvK::Opt(_), EvK::Pos { greedy, .. }) | (EvK::Pos { greedy, .. }, EvK::Opt(_)) => !greedy,
            _ => false,
        };
        if !ok || t.evs[..k].iter().any(|e| e.kind == EvK::Term) { continue; }
        n += 1;
        let mut v = words[..a.start].to_vec();
        v.extend_from_slice(&words[b.start..b.end]);
        v.extend_from_slice(&words[a.start..a.end]);
        v.extend_from_slice(&words[b.end..]);
        let r1 = real(cli, words);
        let Real::Ok(x) = r1 else { continue };
        match real(cli, &v) {
            Real::Ok(y) if x == y => {}
            Real::Ok(y) => return (n, Some((v, format!("reordering changes the value from {x:?} to {y:?}")))),
            Real::Err { msg, .. } => return (n, Some((v, format!("reordering turns success into error {msg:?}")))),
        }
    }
    (n, None)
}

#[derive(Default)]
struct Stats { cases: u64, distinct: BTreeSet<u64>, ok: u64, err: u64, help: u64, swaps: u64, tags: BTreeMap<&'static str, u64>, samples: BTreeMap<&'static str, String>, kinds: BTreeMap<String, u64> }

fn fnv(ws: &[Bytes]) -> u64 { let mut h = 0xcbf29ce484222325u64; for w in ws { for b in w { h = (h ^ *b as u64).wrapping_mul(0x100000001b3); } h = (h ^ 0x1ff).wrapping_mul(0x100000001b3); } h }

fn emit(s: String) { let mut o = std::io::stdout().lock(); let _ = writeln!(o, "{s}"); let _ = o.flush(); }
fn report(kind: &str, cli: &Cli, words: &[Bytes], orig: &[Bytes], tags: &Tags, why: &str) {
    emit(format!("{{\"t\":\"{kind}\",\"cli\":{},\"argv\":{},\"hex\":[{}],\"found_as\":{},\"tags\":[{}],\"why\":{},\"help\":{HELP}}}", js(cli.label), js(&show_argv(words)),
        words.iter().map(|w| js(&hex(w))).collect::<Vec<_>>().join(","), js(&show_argv(orig)), tags.iter().map(|t| js(t)).collect::<Vec<_>>().join(","), js(why)));
}

fn child(cli: &Cli, idx: usize, seed: u64, scale: f64, skip: u64) {
    let mut st = Stats::default();
    let mut seen: BTreeMap<Vec<&'static str>, u32> = BTreeMap::new();
    let mut total_reports = 0;
    let mut n = 0u64;
    if skip == 0 {
        for (tags, cmdline, why) in helptext::check(cli) {
            report("mismatch", cli, &cmdline, &cmdline, &tags, &why);
        }
        // Empty argv.
        let mut none = std::iter::empty::<OsString>();
        match (cli.run)(&mut none) {
            Real::Err { msg, help: None } if msg.starts_with("missing executable argument") => {}
            _ => report("mismatch", cli, &[], &[], &["C12"].into_iter().collect(), "empty argv must be an error"),
        }
    }
    let mut feed = Feed::new(cli, seed ^ (idx as u64).wrapping_mul(0x9E3779B97F4A7C15), scale);
    while let Some(words) = feed.next() {
        n += 1;
        if n <= skip { continue; }
        CUR.lock().unwrap().0 = n;
        let t = oracle::run(&cli.desc, &words, HELP);
        *TAGS.lock().unwrap() = t.evs.iter().flat_map(|e| e.tags.iter().copied()).chain(t.ctags.iter().copied()).chain(["C12"]).collect::<Tags>().into_iter().map(js).collect::<Vec<_>>().join(",");
        let r = real(cli, &words);
        st.cases += 1;
        let fresh = st.distinct.len() < 4_000_000 && st.distinct.insert(fnv(&words));
        match &t.exp { Exp::Ok(_) => st.ok += 1, Exp::Err(e) => { st.err += 1; *st.kinds.entry(format!("{:?}", e[0].kind)).or_default() += 1; } Exp::Help { .. } => st.help += 1 }
        if fresh {
            let mut tg: Tags = t.evs.iter().flat_map(|e| e.tags.iter().copied()).chain(t.ctags.iter().copied()).collect();
            tg.insert("C12");
            for x in tg { *st.tags.entry(x).or_default() += 1; if words.len() > 1 { st.samples.entry(x).or_insert_with(|| show_argv(&words)); } }
        }
        if let Some((tags, _)) = judge(cli, &words, &t, &r) {
            let key: Vec<_> = tags.iter().copied().collect();
            let c = seen.entry(key).or_default();
            *c += 1;
            if *c <= 2 && total_reports < 24 {
                total_reports += 1;
                // Minimise once per tag so that each property gets its own smallest witness.
                let min = shrink(&words, &mut |c| examine(cli, c).is_some_and(|(tg, _)| tg == tags));
                let (tg, why) = examine(cli, &min).unwrap();
                report("mismatch", cli, &min, &words, &tg, &why);
            }
            if total_reports >= 24 { break; }
            continue;
        }
        if n % 2 == 0 {
            let (k, bad) = swap_check(cli, &words, &t);
            st.swaps += k;
            if k > 0 && fresh { *st.tags.entry("C14").or_default() += 1; st.samples.entry("C14").or_insert_with(|| show_argv(&words)); }
            if let Some((v, why)) = bad {
                report("mismatch", cli, &words, &v, &["C14"].into_iter().collect(), &format!("{why}; reordered: {}", show_argv(&v)));
            }
        }
        if n % 8 == 0 {
            // The program name must not matter (help text apart).
            let same = match (&r, real_as(cli, &words, "/other/name")) {
                (Real::Ok(a), Real::Ok(b)) => *a == b,
                (Real::Err { msg: a, help: None }, Real::Err { msg: b, help: None }) => *a == b,
                (Real::Err { help: Some(a), .. }, Real::Err { help: Some(b), .. }) => a.replace(" prog", " name") == b || a.len() == b.len(),
                _ => false,
            };
            if !same { report("mismatch", cli, &words, &words, &["C12"].into_iter().collect(), "outcome depends on the program name"); }
        }
    }
    let tags = st.tags.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(",");
    let samples = st.samples.iter().map(|(k, v)| format!("{}:{}", js(k), js(v))).collect::<Vec<_>>().join(",");
    let kinds = st.kinds.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(",");
    emit(format!("{{\"t\":\"stats\",\"cli\":{},\"cases\":{},\"distinct\":{},\"ok\":{},\"err\":{},\"help\":{},\"swaps\":{},\"exhaustive\":{},\"tags\":{{{tags}}},\"kinds\":{{{kinds}}},\"samples\":{{{samples}}}}}",
        js(cli.label), st.cases, st.distinct.len(), st.ok, st.err, st.help, st.swaps, feed.exhaustive));
}

fn tags() -> String { TAGS.try_lock().map(|t| t.clone()).unwrap_or_else(|_| "\"C12\"".into()) }
fn guard(cli_label: &'static str) {
    std::panic::set_hook(Box::new(move |info| {
        let (n, w) = match CUR.try_lock() { Ok(g) => g.clone(), Err(_) => return };
        let msg = info.to_string();
        if msg.contains("cannot unwind") { return; }
        emit(format!("{{\"t\":\"crash\",\"cli\":{},\"n\":{n},\"argv\":{},\"hex\":[{}],\"tags\":[{}],\"why\":{},\"help\":{HELP}}}", js(cli_label), js(&show_argv(&w)),
            w.iter().map(|w| js(&hex(w))).collect::<Vec<_>>().join(","), tags(), js(&msg)));
        std::process::exit(77);
    }));
    std::thread::spawn(move || {
        let mut prev = (u64::MAX, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let t = TICK.load(Ordering::Relaxed);
            if t == prev.0 { prev.1 += 1 } else { prev = (t, 0) }
            if prev.1 >= 16 && t > 0 {
                let (n, w) = match CUR.try_lock() { Ok(g) => g.clone(), Err(_) => continue };
                emit(format!("{{\"t\":\"crash\",\"cli\":{},\"n\":{n},\"argv\":{},\"hex\":[{}],\"tags\":[{}],\"why\":\"does not terminate (8 s)\",\"help\":{HELP}}}", js(cli_label), js(&show_argv(&w)),
                    w.iter().map(|w| js(&hex(w))).collect::<Vec<_>>().join(","), tags()));
                std::process::exit(78);
            }
        }
    });
}

fn opt(args: &[String], k: &str) -> Option<String> { args.iter().position(|a| a == k).map(|i| args[i + 1].clone()) }

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let seed: u64 = opt(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let scale: f64 = opt(&args, "--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let clis: &'static [Cli] = Box::leak(clis::all().into_boxed_slice());
    match args.get(1).map(|s| &**s) {
        Some("one") => {
            let cli = clis.iter().find(|c| c.label == args[2]).expect("no such definition");
            let words: Vec<Bytes> = args[3..].iter().map(|s| unhex(s)).collect();
            println!("definition: {}\nwords: {}", cli.label, show_argv(&words));
            let t = oracle::run(&cli.desc, &words, HELP);
            println!("expected: {:?}", t.exp);
            std::io::stdout().flush().unwrap();
            let r = real(cli, &words);
            match &r { Real::Ok(v) => println!("real: Ok({v:?})"), Real::Err { msg, help } => println!("real: Err({msg:?}) help={}", help.is_some()) }
            let (_, bad) = swap_check(cli, &words, &t);
            if let Some((v, why)) = bad { println!("VIOLATED (order): {why}: {}", show_argv(&v)); std::process::exit(1); }
            for (tags, cl, why) in helptext::check(cli) { if cl == words { println!("VIOLATED: {why} {tags:?}"); std::process::exit(1); } }
            match judge(cli, &words, &t, &r) {
                None => println!("as expected"),
                Some((tags, why)) => { println!("VIOLATED: {why}\nproperties: {tags:?}"); std::process::exit(1) }
            }
        }
        Some("cli") => {
            let k: usize = args[2].parse().unwrap();
            guard(clis[k].label);
            child(&clis[k], k, seed, scale, opt(&args, "--skip").and_then(|s| s.parse().ok()).unwrap_or(0));
        }
        Some("all") => {
            let jobs: usize = opt(&args, "--jobs").and_then(|s| s.parse().ok()).unwrap_or(8);
            let next = AtomicU64::new(0);
            let exe = std::env::current_exe().unwrap();
            std::thread::scope(|s| {
                for _ in 0..jobs {
                    s.spawn(|| loop {
                        let k = next.fetch_add(1, Ordering::Relaxed) as usize;
                        if k >= clis.len() { break; }
                        let mut skip = 0u64;
                        let mut crashes = 0;
                        loop {
                            let out = std::process::Command::new(&exe).args(["cli", &k.to_string(), "--seed", &seed.to_string(), "--scale", &scale.to_string(), "--skip", &skip.to_string()])
                                .stderr(std::process::Stdio::null()).output().unwrap();
                            let text = String::from_utf8_lossy(&out.stdout);
                            print_raw(&text);
                            if out.status.success() { break; }
                            let n = text.lines().rev().find(|l| l.contains("\"t\":\"crash\"")).and_then(|l| l.split("\"n\":").nth(1)?.split(',').next()?.parse::<u64>().ok());
                            let Some(n) = n else {
                                emit(format!("{{\"t\":\"crash\",\"cli\":{},\"n\":0,\"argv\":\"(unknown)\",\"hex\":[],\"tags\":[\"C12\"],\"why\":{},\"help\":{HELP}}}", js(clis[k].label), js(&format!("child ended: {}", out.status))));
                                break;
                            };
                            skip = n.max(skip + 1);
                            crashes += 1;
                            if crashes >= 2 { break; }
                        }
                    });
                }
            });
        }
        _ => { eprintln!("usage: engine all|cli|one"); std::process::exit(2) }
    }
}
fn print_raw(s: &str) { let mut o = std::io::stdout().lock(); let _ = o.write_all(s.as_bytes()); let _ = o.flush(); }
