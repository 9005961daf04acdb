//! Contract files: ghost text keyed by the path of the item it annotates.
use crate::rewrite::Cx;
use quote::format_ident;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub enum Directive {
    Raw(String),
    /// What follows goes into a module.
    Mod(String),
    Item { key: String, prefix: String },
    Trait { key: String, extra: String },
    Impl { key: String, extra: String, opts: Vec<String> },
    Fn(String),
}
#[derive(Default, Clone)]
pub struct FnContract {
    pub contract: Vec<String>,
    pub owner: Vec<String>,
    pub attrs: Vec<String>,
    pub ret: String,
    pub keep_const: bool,
    pub trusted: bool,
    /// Literals whose bytes the contract's own text speaks about.
    pub skiplit: Vec<String>,
    pub invs: BTreeMap<usize, String>,
    pub ats: Vec<(String, String)>,
}
impl FnContract {
    /// `a` is called `b` in the code.
    pub fn rename(&mut self, a: &str, b: &str) {
        let f = |s: &str| {
            let id = |c: char| c.is_alphanumeric() || c == '_';
            let mut out = String::new();
            let mut w = String::new();
            for c in s.chars().chain(['\0']) {
                if id(c) { w.push(c); continue; }
                if w == a && !out.ends_with('.') { out.push_str(b); } else { out.push_str(&w); }
                w.clear();
                if c != '\0' { out.push(c); }
            }
            out
        };
        for l in &mut self.contract { *l = f(l); }
        for l in self.invs.values_mut() { *l = f(l); }
        for l in &mut self.ats { l.1 = f(&l.1); }
    }
}
#[derive(Default)]
pub struct Contracts {
    pub order: Vec<Directive>,
    pub fns: BTreeMap<String, FnContract>,
    pub drops: BTreeSet<String>,
    pub feats: BTreeSet<String>,
    /// Methods of trait objects that are called as a function.
    pub calls: BTreeMap<String, String>,
    /// Associated constants that are functions here.
    pub constfns: BTreeSet<String>,
}

pub fn load<'a>(files: impl Iterator<Item = &'a str>, feats: &BTreeSet<String>) -> Contracts {
    let mut c = Contracts { feats: feats.clone(), ..Default::default() };
    for f in files {
        let txt = std::fs::read_to_string(f).unwrap_or_else(|e| panic!("{f}: {e}"));
        enum Cur { None, Raw(String), Item, Trait, Impl, Fn(String), Inv(String, usize), At(String, usize) }
        let mut cur = Cur::None;
        let mut skip: Vec<bool> = vec![];
        for l in txt.lines() {
            if let Some(cond) = l.strip_prefix("@if ") {
                let cond = cond.trim();
                let on = match cond.strip_prefix('!') { Some(f) => !feats.contains(f), None => feats.contains(cond) };
                skip.push(!on);
                continue;
            }
            if l.trim() == "@endif" { skip.pop(); continue; }
            if skip.iter().any(|s| *s) { continue; }
            if let Some(d) = l.strip_prefix('@') {
                if let Cur::Raw(t) = std::mem::replace(&mut cur, Cur::None) { c.order.push(Directive::Raw(t)); }
                let (w, rest) = d.split_once(' ').unwrap_or((d, ""));
                let rest = rest.trim();
                let last_fn = c.fns.keys().next().cloned();
                let _ = last_fn;
                match w {
                    "mod" => { c.order.push(Directive::Mod(rest.into())); cur = Cur::None; }
                    "raw" => cur = Cur::Raw(String::new()),
                    "item" => { c.order.push(Directive::Item { key: rest.into(), prefix: String::new() }); cur = Cur::Item; }
                    "trait" => { c.order.push(Directive::Trait { key: rest.into(), extra: String::new() }); cur = Cur::Trait; }
                    "impl" => {
                        let (key, opts) = match rest.split_once(" : ") { Some((k, o)) => (k, o.split(' ').map(String::from).collect()), None => (rest, vec![]) };
                        c.order.push(Directive::Impl { key: key.into(), extra: String::new(), opts });
                        cur = Cur::Impl;
                    }
                    "fn" => {
                        assert!(!c.fns.contains_key(rest), "second contract for {rest}");
                        c.fns.insert(rest.into(), FnContract { ret: "r".into(), ..Default::default() });
                        let n = rest.split("::").count();
                        if n == 2 { c.order.push(Directive::Fn(rest.into())); }
                        cur = Cur::Fn(rest.into());
                        CURFN.with(|x| *x.borrow_mut() = rest.to_string());
                    }
                    "owner" | "skiplit" | "ret" | "attr" | "trusted" | "const" | "inv" | "at" => {
                        let k = CURFN.with(|x| x.borrow().clone());
                        let f = c.fns.get_mut(&k).unwrap();
                        match w {
                            "owner" => { f.owner = rest.split_whitespace().map(String::from).collect(); cur = Cur::Fn(k); }
                            "skiplit" => { f.skiplit.push(rest.into()); cur = Cur::Fn(k); }
                            "ret" => { f.ret = rest.into(); cur = Cur::Fn(k); }
                            "attr" => { f.attrs.push(rest.into()); cur = Cur::Fn(k); }
                            "trusted" => { f.trusted = true; cur = Cur::Fn(k); }
                            "const" => { f.keep_const = true; cur = Cur::Fn(k); }
                            "inv" => { let n = rest.parse().unwrap(); f.invs.insert(n, String::new()); cur = Cur::Inv(k, n); }
                            _ => { f.ats.push((rest.into(), String::new())); let n = f.ats.len() - 1; cur = Cur::At(k, n); }
                        }
                    }
                    "drop" => { c.drops.insert(rest.into()); cur = Cur::None; }
                    "constfn" => { c.constfns.insert(rest.into()); cur = Cur::None; }
                    "call" => { let (a, b) = rest.split_once(' ').unwrap(); c.calls.insert(a.into(), b.into()); cur = Cur::None; }
                    "//" => {}
                    _ => panic!("{f}: unknown directive @{w}"),
                }
                continue;
            }
            match &mut cur {
                Cur::None => assert!(l.trim().is_empty() || l.starts_with("//"), "{f}: stray text {l:?}"),
                Cur::Raw(t) => { t.push_str(l); t.push('\n'); }
                Cur::Item => if let Some(Directive::Item { prefix, .. }) = c.order.last_mut() { prefix.push_str(l); prefix.push('\n'); },
                Cur::Trait => if let Some(Directive::Trait { extra, .. }) = c.order.last_mut() { extra.push_str(l); extra.push('\n'); },
                Cur::Impl => if let Some(Directive::Impl { extra, .. }) = c.order.last_mut() { extra.push_str(l); extra.push('\n'); },
                Cur::Fn(k) => if !l.trim().is_empty() { c.fns.get_mut(k).unwrap().contract.push(l.trim_end().into()) },
                Cur::Inv(k, n) => { let t = c.fns.get_mut(k).unwrap().invs.get_mut(n).unwrap(); t.push_str(l); t.push('\n'); }
                Cur::At(k, n) => { let t = &mut c.fns.get_mut(k).unwrap().ats[*n].1; t.push_str(l); t.push('\n'); }
            }
        }
        if let Cur::Raw(t) = cur { c.order.push(Directive::Raw(t)); }
    }
    c
}
thread_local! { static CURFN: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

fn marker(id: usize) -> Stmt { let i = LitInt::new(&id.to_string(), proc_macro2::Span::call_site()); parse_quote!(__vx!(#i);) }
fn loop_marker(id: usize) -> Stmt { let i = LitInt::new(&id.to_string(), proc_macro2::Span::call_site()); parse_quote!(__vx_loop!(#i);) }

struct Placer<'c> {
    c: &'c FnContract,
    used: BTreeSet<usize>,
    loops: usize,
    calls: BTreeMap<String, usize>,
    /// (before?, at index) of the statement being visited
    hits: Vec<Vec<(bool, usize)>>,
}
impl Placer<'_> {
    fn hit(&mut self, name: &str) {
        let n = self.calls.entry(name.to_string()).or_default();
        *n += 1;
        let n = *n;
        for (i, (w, _)) in self.c.ats.iter().enumerate() {
            let mut p = w.split_whitespace();
            let (Some(pos), Some(what)) = (p.next(), p.next()) else { continue };
            let k: usize = p.next().and_then(|x| x.parse().ok()).unwrap_or(1);
            if (pos == "before" || pos == "after") && what == name && k == n {
                if let Some(h) = self.hits.last_mut() { h.push((pos == "before", i)); self.used.insert(i); }
            }
        }
    }
    fn at(&mut self, what: &str) -> Vec<usize> {
        let v: Vec<usize> = self.c.ats.iter().enumerate().filter(|(_, (w, _))| w == what).map(|(i, _)| i).collect();
        self.used.extend(v.iter().copied());
        v
    }
}
impl VisitMut for Placer<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            self.hits.push(vec![]);
            if let Stmt::Local(l) = &s {
                let mut p = &l.pat;
                if let Pat::Type(t) = p { p = &t.pat; }
                if let Pat::Ident(i) = p { let n = format!("let:{}", i.ident); self.hit(&n); }
            }
            self.visit_stmt_mut(&mut s);
            let h = self.hits.pop().unwrap();
            for (_, i) in h.iter().filter(|x| x.0) { out.push(marker(*i)); }
            let after: Vec<usize> = h.iter().filter(|x| !x.0).map(|x| x.1).collect();
            if !after.is_empty() && let Stmt::Expr(Expr::Return(ExprReturn { expr: Some(e), .. }), _) = s {
                let t = format_ident!("__vx_ret");
                out.push(parse_quote!(let #t = #e;));
                for i in after { out.push(marker(i)); }
                out.push(parse_quote!(return #t;));
            } else if !after.is_empty() && !matches!(&s, Stmt::Expr(Expr::While(_), None)) && let Stmt::Expr(e, None) = s {
                let t = format_ident!("__vx_tail");
                out.push(parse_quote!(let #t = #e;));
                for i in after { out.push(marker(i)); }
                out.push(Stmt::Expr(parse_quote!(#t), None));
            } else {
                out.push(s);
                for i in after { out.push(marker(i)); }
            }
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Call(c) => if let Expr::Path(p) = &*c.func { let n = p.path.segments.last().unwrap().ident.to_string(); self.hit(&n); },
            Expr::MethodCall(m) => { let n = m.method.to_string(); self.hit(&n); }
            Expr::Return(_) => self.hit("return"),
            Expr::Continue(_) => self.hit("continue"),
            Expr::Break(_) => self.hit("break"),
            _ => {}
        }
        let (n, body) = match e {
            Expr::While(w) => { self.loops += 1; (self.loops, true) }
            Expr::Loop(w) => { self.loops += 1; let _ = w; (self.loops, true) }
            _ => (0, false),
        };
        if body { self.hit(&format!("loop:{n}")); }
        visit_mut::visit_expr_mut(self, e);
        if body {
            let b = match e { Expr::While(w) => &mut w.body, Expr::Loop(w) => &mut w.body, _ => unreachable!() };
            for i in self.at(&format!("loopstart {n}")).into_iter().rev() { b.stmts.insert(0, marker(i)); }
            b.stmts.insert(0, loop_marker(n));
            for i in self.at(&format!("loopend {n}")) { b.stmts.push(marker(i)); }
        }
    }
}

pub fn place_anchors(b: &mut Block, c: &FnContract, cx: &mut Cx) -> String {
    let mut p = Placer { c, used: BTreeSet::new(), loops: 0, calls: BTreeMap::new(), hits: vec![] };
    p.visit_block_mut(b);
    for i in p.at("start").into_iter().rev() { b.stmts.insert(0, marker(i)); }
    for i in p.at("end") {
        let n = b.stmts.len();
        let tail = matches!(b.stmts.last(), Some(Stmt::Expr(_, None)));
        b.stmts.insert(if tail { n - 1 } else { n }, marker(i));
    }
    for (i, (w, _)) in c.ats.iter().enumerate() {
        if !p.used.contains(&i) && w != "head" { cx.notes.push(format!("LOST anchor `{w}`")); }
    }
    for n in c.invs.keys() { if *n > p.loops { cx.notes.push(format!("LOST loop {n}")); } }
    for n in 1..=p.loops { if !c.invs.contains_key(&n) { cx.notes.push(format!("LOST loop {n} has no invariant")); } }
    let txt = crate::print_item(Item::Fn(parse_quote!(fn __b() #b)));
    let txt = &txt[txt.find('{').unwrap()..];
    let mut out = String::new();
    for l in txt.lines() {
        let t = l.trim();
        if let Some(n) = t.strip_prefix("__vx_loop!(") {
            let n: usize = n.trim_end_matches(");").parse().unwrap();
            // `while cond {` on the line before: invariants go in front of the brace.
            let cut = out.trim_end().strip_suffix('{').expect("loop head").trim_end().len();
            out.truncate(cut);
            out.push('\n');
            if let Some(t) = c.invs.get(&n) { out.push_str(t); }
            out.push_str("{\n");
        } else if let Some(n) = t.strip_prefix("__vx!(") {
            let n: usize = n.trim_end_matches(");").parse().unwrap();
            out.push_str(&c.ats[n].1);
        } else {
            out.push_str(l);
            out.push('\n');
        }
    }
    out
}
