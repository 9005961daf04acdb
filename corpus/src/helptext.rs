//! What the help text of each command must and must not show.  The exact layout is not checked.
use crate::base::Real;
use crate::desc::*;
use crate::gen_argv::flat_args;
use crate::oracle::{Bytes, Tags};

pub fn check(cli: &Cli) -> Vec<(Tags, Vec<Bytes>, String)> {
    let mut out = vec![];
    if crate::HELP { walk(cli, &cli.desc, &mut vec![], &mut out); }
    out
}
fn declares_help(c: &CmdD, glob: bool) -> bool {
    let mut a = vec![];
    flat_args(c, &mut a);
    a.iter().any(|a| (!glob || a.glob) && a.names.contains(&Name::Long("--help".into())))
}
fn walk(cli: &Cli, c: &CmdD, path: &mut Vec<&'static str>, out: &mut Vec<(Tags, Vec<Bytes>, String)>) {
    // Do not ask where the definition declares `--help` itself.
    let mut d = &cli.desc;
    let mut own = declares_help(d, !path.is_empty());
    for (k, p) in path.iter().enumerate() {
        d = &d.sub.as_ref().unwrap().variants.iter().find(|v| v.name == *p).unwrap().cmd;
        own |= declares_help(d, k + 1 < path.len());
    }
    let mut words: Vec<Bytes> = path.iter().map(|p| p.as_bytes().to_vec()).collect();
    words.push(b"--help".to_vec());
    if !own {
        let tag: Tags = ["C16"].into_iter().collect();
        match crate::real(cli, &words) {
            Real::Err { help: Some(h), .. } => if let Some(why) = text(c, path, &h) { out.push((tag, words.clone(), why)); },
            _ => out.push((["C13", "C16"].into_iter().collect(), words.clone(), "no help outcome".into())),
        }
    }
    if let Some(s) = &c.sub {
        for v in &s.variants { path.push(v.name); walk(cli, &v.cmd, path, out); path.pop(); }
    }
}
/// Direct positionals in parse order, then named ones, main first then the flattened ones in order.
fn ordered(c: &CmdD) -> (Vec<&ArgD>, Vec<&ArgD>) {
    let mut pos: Vec<&ArgD> = c.args.iter().filter(|a| !a.named()).collect();
    pos.sort_by_key(|a| if a.last { 2 } else if a.multi() { 1 } else { 0 });
    let mut all = vec![];
    flat_args(c, &mut all);
    (pos, all.into_iter().filter(|a| a.named()).collect())
}
fn text(c: &CmdD, path: &[&str], h: &str) -> Option<String> {
    let (pos, named) = ordered(c);
    if !c.about.is_empty() && !h.starts_with(c.about) { return Some(format!("about text missing: {h:?}")); }
    if !c.after.is_empty() && !h.ends_with(c.after) { return Some(format!("after-help text missing: {h:?}")); }
    let body = &h[c.about.len()..h.len() - c.after.len()];
    let lines: Vec<&str> = body.lines().collect();
    let ui = match lines.iter().position(|l| l.starts_with("Usage:")) { Some(i) => i, None => return Some("no usage line".into()) };
    if lines[..ui].iter().any(|l| !l.trim().is_empty()) { return Some(format!("unexpected text before the usage line: {h:?}")); }
    let usage = lines[ui];
    let mut want = String::from("Usage: prog");
    for p in path { want.push(' '); want.push_str(p); }
    let Some(mut rest) = usage.strip_prefix(&*want) else { return Some(format!("usage path: expected {want:?}, got {usage:?}")) };
    // Required named arguments, then positionals that are required or variable, in order.
    let strip = |a: &ArgD| -> String {
        let d = a.desc;
        match d.strip_prefix('-') { Some(x) if !x.starts_with('-') => match x.split_once(", ") { Some((_, l)) if l.starts_with("--") => l.to_string(), _ => d.to_string() }, _ => d.to_string() }
    };
    let mut opts = 0;
    for a in named.iter().filter(|a| a.required).chain(pos.iter().filter(|a| a.required || a.multi())) {
        let vis = !a.hide;
        let s = strip(a);
        match rest.find(&s) {
            Some(k) if vis => { if rest[..k].contains("[OPTIONS]") { opts += 1; } rest = &rest[k + s.len()..] }
            None if vis => return Some(format!("usage line lacks {s:?} (in order): {usage:?}")),
            Some(_) if !named.iter().chain(pos.iter()).any(|b| !b.hide && b.desc.contains(&*s)) => return Some(format!("usage line shows hidden {s:?}: {usage:?}")),
            _ => {}
        }
    }
    let _ = opts;
    let optional = named.iter().any(|a| !a.required && !a.hide);
    if optional != usage.contains("[OPTIONS]") { return Some(format!("[OPTIONS] shown: {}, optional options exist: {optional}", !optional)); }
    match &c.sub {
        Some(s) => { let w = if s.optional { " [COMMAND]" } else { " <COMMAND>" }; if !usage.ends_with(w) { return Some(format!("usage line must end in {w:?}: {usage:?}")); } }
        None => if usage.contains("COMMAND>") || usage.contains("[COMMAND]") { return Some("usage line shows a subcommand".into()); }
    }
    // Entries: the lines of the body that introduce an argument.
    let mut want: Vec<String> = vec![];
    if let Some(s) = &c.sub { for v in &s.variants {
        let sum = v.cmd.about.lines().next().unwrap_or("");
        want.push(format!("C {} {}", v.name, sum).trim_end().to_string());
    } }
    for a in pos.iter().chain(named.iter()).filter(|a| !a.hide) {
        want.push(format!("A {}", a.desc));
        for l in a.doc.lines() { want.push(format!("D {l}")); }
        if let Some(s) = a.shown { want.push(format!("D [default: {s}]")); }
    }
    let mut got: Vec<String> = vec![];
    let mut sect = "";
    for l in &lines[ui + 1..] {
        if l.trim().is_empty() { continue; }
        if !l.starts_with(' ') && (*l == "Commands:" || *l == "Arguments:" || *l == "Options:") { sect = l; continue; }
        if sect == "Commands:" {
            let mut it = l.trim().splitn(2, ' ');
            got.push(format!("C {} {}", it.next().unwrap(), it.next().unwrap_or("").trim()).trim_end().to_string());
        } else if l.starts_with("          ") { got.push(format!("D {}", l.trim())); }
        else if l.starts_with("  ") { got.push(format!("A {}", l.trim())); }
        else { got.push(format!("D {}", l.trim())); }
    }
    if got != want {
        let k = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
        return Some(format!("help entries differ at #{k}: expected {:?}, got {:?}", want.get(k), got.get(k)));
    }
    None
}
