//! Mechanical extraction of /repo's code into Verus input.
//!   palc-extract --repo DIR --contracts FILE... --features help,.. [--quarantine KEY,KEY] --out FILE --map FILE
//! The text that is verified is the text of the repository after the rewrites listed in `rewrite.rs`;
//! specifications, invariants and proof text come from the contract files and are ghost code only.
mod contracts;
mod derived;
mod rewrite;

use contracts::*;
use proc_macro2::Span;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use syn::visit_mut::VisitMut;
use syn::*;

pub struct FnSrc {
    pub key: String,
    pub file: String,
    pub line: usize,
    pub sig: Signature,
    pub block: Option<Block>,
}
pub struct ImplSrc {
    pub key: String,
    pub head: ItemImpl,
    pub fns: Vec<FnSrc>,
    pub others: Vec<ImplItem>,
}
pub struct TraitSrc {
    pub head: ItemTrait,
    pub fns: Vec<FnSrc>,
    pub others: Vec<TraitItem>,
}
#[derive(Default)]
pub struct Repo {
    pub fns: BTreeMap<String, FnSrc>,
    pub impls: BTreeMap<String, Vec<ImplSrc>>,
    pub traits: BTreeMap<String, TraitSrc>,
    pub items: BTreeMap<String, Item>,
}

pub fn cfg_on(attrs: &[Attribute], feats: &BTreeSet<String>) -> bool {
    fn eval(m: &Meta, feats: &BTreeSet<String>) -> bool {
        match m {
            Meta::Path(p) => p.is_ident("vx") || p.is_ident("unix") || p.is_ident("debug_assertions"),
            Meta::NameValue(nv) => {
                if nv.path.is_ident("feature")
                    && let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &nv.value
                {
                    return feats.contains(&s.value());
                }
                false
            }
            Meta::List(l) => {
                let inner: Vec<Meta> = l
                    .parse_args_with(punctuated::Punctuated::<Meta, Token![,]>::parse_terminated)
                    .map(|p| p.into_iter().collect())
                    .unwrap_or_default();
                if l.path.is_ident("not") {
                    !inner.iter().any(|m| eval(m, feats))
                } else if l.path.is_ident("any") {
                    inner.iter().any(|m| eval(m, feats))
                } else {
                    inner.iter().all(|m| eval(m, feats))
                }
            }
        }
    }
    attrs.iter().filter(|a| a.path().is_ident("cfg")).all(|a| a.parse_args::<Meta>().map(|m| eval(&m, feats)).unwrap_or(true))
}

fn ty_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Tuple(t) if t.elems.is_empty() => "()".into(),
        Type::TraitObject(o) => match o.bounds.first() {
            Some(TypeParamBound::Trait(t)) => format!("dyn {}", t.path.segments.last().unwrap().ident),
            _ => "dyn".into(),
        },
        Type::Reference(r) => format!("&{}", ty_name(&r.elem)),
        _ => "?".into(),
    }
}

fn line(s: Span) -> usize { s.start().line }

fn load(repo: &str, feats: &BTreeSet<String>) -> Repo {
    let mut out = Repo::default();
    let dir = format!("{repo}/src");
    let mut files: Vec<_> = std::fs::read_dir(&dir).unwrap().filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().is_some_and(|e| e == "rs")).collect();
    files.sort();
    for f in files {
        let stem = f.file_stem().unwrap().to_string_lossy().into_owned();
        let src = std::fs::read_to_string(&f).unwrap();
        let ast = match parse_file(&src) {
            Ok(a) => a,
            Err(e) => { eprintln!("parse {}: {e}", f.display()); continue; }
        };
        load_items(&mut out, &stem, &format!("src/{stem}.rs"), ast.items, feats);
    }
    out
}

fn load_items(out: &mut Repo, stem: &str, file: &str, items: Vec<Item>, feats: &BTreeSet<String>) {
    for mut it in items {
        if !cfg_on(rewrite::item_attrs(&it), feats) { continue; }
        rewrite::strip_item(&mut it, feats);
        match it {
            Item::Fn(f) => {
                let key = format!("{stem}::{}", f.sig.ident);
                out.fns.insert(key.clone(), FnSrc { key, file: file.into(), line: line(f.sig.ident.span()), sig: f.sig, block: Some(*f.block) });
            }
            Item::Impl(mut im) => {
                let t = ty_name(&im.self_ty);
                let key = match &im.trait_ {
                    Some((_, p, _)) => {
                        let s = p.segments.last().unwrap();
                        let mut arg = String::new();
                        // Distinguish `From<X>` impls.
                        if let PathArguments::AngleBracketed(a) = &s.arguments
                            && let Some(GenericArgument::Type(t)) = a.args.first() { arg = format!("<{}>", ty_name(t)); }
                        format!("{stem}::<{t} as {}{arg}>", s.ident)
                    }
                    None => format!("{stem}::{t}"),
                };
                let mut fns = vec![];
                let mut others = vec![];
                for i in std::mem::take(&mut im.items) {
                    match i {
                        ImplItem::Fn(f) => {
                            let k = format!("{key}::{}", f.sig.ident);
                            fns.push(FnSrc { key: k, file: file.into(), line: line(f.sig.ident.span()), sig: f.sig, block: Some(f.block) });
                        }
                        o => others.push(o),
                    }
                }
                out.impls.entry(key.clone()).or_default().push(ImplSrc { key, head: im, fns, others });
            }
            Item::Trait(mut t) => {
                let key = format!("{stem}::{}", t.ident);
                let mut fns = vec![];
                let mut others = vec![];
                for i in std::mem::take(&mut t.items) {
                    match i {
                        TraitItem::Fn(f) => {
                            let k = format!("{key}::{}", f.sig.ident);
                            fns.push(FnSrc { key: k, file: file.into(), line: line(f.sig.ident.span()), sig: f.sig, block: f.default });
                        }
                        o => others.push(o),
                    }
                }
                out.traits.insert(key, TraitSrc { head: t, fns, others });
            }
            Item::Struct(ref s) => { out.items.insert(format!("{stem}::{}", s.ident), it); }
            Item::Enum(ref s) => { out.items.insert(format!("{stem}::{}", s.ident), it); }
            Item::Const(ref s) => { out.items.insert(format!("{stem}::{}", s.ident), it); }
            Item::Type(ref s) => { out.items.insert(format!("{stem}::{}", s.ident), it); }
            Item::Mod(m) => if let Some((_, items)) = m.content { load_items(out, stem, file, items, feats) },
            _ => {}
        }
    }
}

/// `where Self: Sized`
fn sized(g: &Generics) -> bool {
    g.where_clause.as_ref().is_some_and(|w| w.predicates.iter().any(is_sized))
}
fn is_sized(p: &WherePredicate) -> bool {
    matches!(p, WherePredicate::Type(t) if matches!(&t.bounded_ty, Type::Path(p) if p.path.is_ident("Self")) && matches!(t.bounds.first(), Some(TypeParamBound::Trait(b)) if b.path.is_ident("Sized")))
}
fn unsize(g: &mut Generics) {
    if let Some(w) = &mut g.where_clause {
        let v: Vec<WherePredicate> = std::mem::take(&mut w.predicates).into_iter().filter(|p| !is_sized(p)).collect();
        if v.is_empty() { g.where_clause = None; } else { w.predicates = v.into_iter().collect(); }
    }
}
/// Methods and types of a trait that ask for `Self: Sized` go to a companion trait `<Name>Sized: <Name> + Sized`.
fn split_trait(t: &TraitSrc) -> (TraitSrc, Option<TraitSrc>) {
    let cl = |f: &FnSrc| FnSrc { key: f.key.clone(), file: f.file.clone(), line: f.line, sig: f.sig.clone(), block: f.block.clone() };
    let mut a = TraitSrc { head: t.head.clone(), fns: vec![], others: vec![] };
    let mut b = TraitSrc { head: t.head.clone(), fns: vec![], others: vec![] };
    let name = &t.head.ident;
    b.head.ident = quote::format_ident!("{name}Sized");
    b.head.supertraits = parse_quote!(#name + Sized);
    for f in &t.fns {
        let mut f = cl(f);
        if sized(&f.sig.generics) { unsize(&mut f.sig.generics); b.fns.push(f); } else { a.fns.push(f); }
    }
    for o in &t.others {
        match o {
            TraitItem::Type(ty) if sized(&ty.generics) => { let mut ty = ty.clone(); unsize(&mut ty.generics); b.others.push(TraitItem::Type(ty)); }
            o => a.others.push(o.clone()),
        }
    }
    if b.fns.is_empty() && b.others.is_empty() { (a, None) } else { (a, Some(b)) }
}

/// `const N: T = E;` as `fn N() -> T { E' }`, where the `&` that make up a constant are `vx_static`.
fn const_fn(key: &str, file: &str, ident: &Ident, ty: &Type, e: Option<&Expr>) -> FnSrc {
    fn stat(e: &Expr) -> Expr {
        match e {
            Expr::Reference(r) => match &*r.expr {
                Expr::Array(a) => {
                    let v: Vec<Expr> = a.elems.iter().map(stat).collect();
                    if v.iter().any(|x| matches!(x, Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("vx_static")))) { parse_quote!(vx_static_slice([#(#v),*])) } else { e.clone() }
                }
                x => parse_quote!(vx_static(#x)),
            },
            e => e.clone(),
        }
    }
    let b: Option<Block> = e.map(|e| { let e = stat(e); parse_quote!({ #e }) });
    let mut ty = ty.clone();
    struct St; impl VisitMut for St { fn visit_type_reference_mut(&mut self, r: &mut TypeReference) { if r.lifetime.is_none() { r.lifetime = Some(parse_quote!('static)); } syn::visit_mut::visit_type_reference_mut(self, r); } }
    St.visit_type_mut(&mut ty);
    FnSrc { key: format!("{key}::{ident}"), file: file.into(), line: line(ident.span()), sig: parse_quote!(fn #ident() -> #ty), block: b }
}
pub fn print_item(it: Item) -> String {
    prettyplease::unparse(&File { shebang: None, attrs: vec![], items: vec![it] })
}
fn print_type(t: &Type) -> String {
    let s = print_item(parse_quote!(type __X = #t;));
    let s = s.trim().strip_prefix("type __X =").unwrap().trim().trim_end_matches(';').to_string();
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}
fn clone_fn(f: &FnSrc) -> FnSrc { FnSrc { key: f.key.clone(), file: f.file.clone(), line: f.line, sig: f.sig.clone(), block: f.block.clone() } }
fn empty_block() -> Block { parse_quote!({}) }

pub struct Emit {
    pub out: String,
    /// key, first line, last line, file, source line, kind
    pub map: Vec<(String, usize, usize, String, usize, String)>,
    pub notes: Vec<(String, String)>,
    pub quarantine: BTreeSet<String>,
    pub params: BTreeMap<String, Vec<String>>,
    pub seen_params: BTreeMap<String, Vec<String>>,
    /// Emit an assertion that must fail at the start of every verified function.
    pub vacuous: bool,
    /// The literals of derived code.
    pub lits: Vec<String>,
}

impl Emit {
    fn lineno(&self) -> usize { self.out.bytes().filter(|b| *b == b'\n').count() + 1 }
    fn note(&mut self, key: &str, what: impl Into<String>) { self.notes.push((key.into(), what.into())); }

    /// `body`: emit the body.  `None` block: a declaration.
    fn emit_fn(&mut self, f: &FnSrc, c: &FnContract, repo: &Repo, ctr: &Contracts, in_trait: bool, in_impl_of_trait: bool) {
        let mut sig = f.sig.clone();
        let mut block = f.block.clone();
        let mut cx = cx_for(&f.key, repo, ctr);
        cx.bools = sig.inputs.iter().filter_map(|a| match a { FnArg::Typed(t) if matches!(&*t.ty, Type::Path(p) if p.path.is_ident("bool")) => match &*t.pat { Pat::Ident(i) => Some(i.ident.to_string()), _ => None }, _ => None }).collect();
        rewrite::rewrite_sig(&mut sig, block.as_mut(), &mut cx);
        if let Some(b) = &mut block { cx.rewrite_body(b); }
        // Contracts name the parameters as they were when the contract was written.
        let names: Vec<String> = sig.inputs.iter().filter_map(|a| match a { FnArg::Typed(t) => Some(match &*t.pat { Pat::Ident(i) => i.ident.to_string(), _ => "_".into() }), _ => None }).collect();
        let mut c = c.clone();
        if let Some(was) = self.params.get(&f.key) && was.len() == names.len() {
            for (w, n) in was.iter().zip(&names) { if w != n && w != "_" && n != "_" { c.rename(w, n); self.notes.push((f.key.clone(), format!("parameter {w} is now {n}"))); } }
        }
        let c = &c;
        self.seen_params.insert(f.key.clone(), names);
        let quar = self.quarantine.contains(&f.key) || c.trusted;
        let body = block.as_mut().map(|b| { if quar { String::new() } else { contracts::place_anchors(b, c, &mut cx) } });
        let lits = block.as_ref().map(rewrite::literals).unwrap_or_default();
        let notes = std::mem::take(&mut cx.notes);
        let hoisted = std::mem::take(&mut cx.hoisted);
        for n in notes { self.note(&f.key, n); }
        let first = self.lineno();
        let mut head = String::new();
        for a in &c.attrs { writeln!(head, "{a}").unwrap(); }
        if quar && block.is_some() { head.push_str("#[verifier::external_body]\n"); }
        let ret = match &sig.output { ReturnType::Default => None, ReturnType::Type(_, t) => Some(print_type(t)) };
        sig.output = ReturnType::Default;
        sig.constness = sig.constness.filter(|_| c.keep_const);
        let mut sig_txt = print_item(Item::Fn(ItemFn { attrs: vec![], vis: Visibility::Inherited, sig, block: Box::new(empty_block()) }));
        sig_txt = sig_txt.trim_end().strip_suffix("{}").unwrap().trim_end().to_string();
        // A where clause comes after the return type.
        let (sig_txt, wh) = match sig_txt.find("\nwhere") { Some(i) => (sig_txt[..i].to_string(), sig_txt[i..].to_string()), None => (sig_txt, String::new()) };
        if !in_trait && !in_impl_of_trait { head.push_str("pub "); }
        head.push_str(&sig_txt);
        if let Some(r) = ret { if r == "!" { write!(head, " -> !").unwrap() } else { write!(head, " -> ({}: {r})", c.ret).unwrap(); } }
        head.push_str(wh.trim_end().trim_end_matches(','));
        head.push('\n');
        self.out.push_str(&head);
        for l in &c.contract { self.out.push_str("    "); self.out.push_str(l); self.out.push('\n'); }
        match body {
            None => self.out.push_str(";\n"),
            Some(_) if quar => self.out.push_str("{ unimplemented!() }\n"),
            Some(b) => {
                let b = b.trim_start().strip_prefix('{').unwrap();
                self.out.push_str("{\n");
                for (w, t) in &c.ats { if w == "head" { self.out.push_str(t); } }
                if self.vacuous { self.out.push_str("    proof { assert(false); }\n"); }
                if f.key.starts_with("gen::") {
                    // The bytes of a literal, written out.
                    for l in block.as_ref().map(rewrite::all_literals).unwrap_or_default() {
                        let n = self.lits.iter().position(|x| *x == l).unwrap_or_else(|| { self.lits.push(l.clone()); self.lits.len() - 1 });
                        writeln!(self.out, "    proof {{ vx_lit_{n}(); }}").unwrap();
                    }
                } else { for l in lits {
                    if c.skiplit.contains(&l) { continue; }
                    let bytes: Vec<String> = l.bytes().map(|b| format!("{b}u8")).collect();
                    let chars: Vec<String> = l.chars().map(|b| format!("{b:?}")).collect();
                    writeln!(self.out, "    proof {{ reveal_strlit({l:?}); is_ascii_chars_encode_utf8({l:?}@); assert({l:?}@ =~= seq![{}]); assert({l:?}.b() =~= seq![{}]); }}", chars.join(", "), bytes.join(", ")).unwrap();
                } }
                self.out.push_str(b);
            }
        }
        let last = self.lineno();
        let kind = if block.is_none() { "decl" } else if c.trusted { "trusted" } else if quar { "quarantined" } else { "verified" };
        self.map.push((f.key.clone(), first, last, f.file.clone(), f.line, kind.into()));
        self.out.push('\n');
        for h in hoisted { self.note(&f.key, format!("nested function {h} is emitted beside it")); }
    }
}

fn args() -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() { m.insert(a.trim_start_matches("--").to_string(), it.next().unwrap_or_default()); }
    m
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(), c => o.push(c) }
    }
    o.push('"');
    o
}

fn cx_for<'r>(key: &str, repo: &'r Repo, ctr: &'r Contracts) -> rewrite::Cx<'r> {
    rewrite::Cx { key: key.into(), notes: vec![], repo, ctr, loops: 0, depth: 0, hoisted: vec![], tmp: Default::default(), self_ty: None, feats: ctr.feats.clone(), bools: Default::default(), local: vec![] }
}

/// `Self(1 << 16)`
fn number(e: &Expr) -> Option<u32> {
    match e {
        Expr::Call(c) if c.args.len() == 1 => number(&c.args[0]),
        Expr::Paren(p) => number(&p.expr),
        Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => i.base10_parse().ok(),
        Expr::Binary(b) => { let (x, y) = (number(&b.left)?, number(&b.right)?); match b.op { BinOp::Shl(_) => x.checked_shl(y), BinOp::BitOr(_) => Some(x | y), BinOp::Add(_) => x.checked_add(y), BinOp::Mul(_) => x.checked_mul(y), _ => None } }
        _ => None,
    }
}

fn main() {
    let a = args();
    let feats: BTreeSet<String> = a.get("features").map(|s| s.split(',').filter(|s| !s.is_empty()).map(String::from).collect()).unwrap_or_default();
    let mut repo = load(&a["repo"], &feats);
    if let Some(g) = a.get("derived") { derived::load(&mut repo, g, &feats); }
    let ctr = contracts::load(a["contracts"].split(','), &feats);
    for (k, t) in &mut repo.traits {
        let file = t.fns.first().map(|f| f.file.clone()).unwrap_or_default();
        for o in std::mem::take(&mut t.others) {
            match o {
                TraitItem::Const(c) if ctr.constfns.contains(&c.ident.to_string()) => t.fns.push(const_fn(k, &file, &c.ident, &c.ty, c.default.as_ref().map(|d| &d.1))),
                o => t.others.push(o),
            }
        }
    }
    for (k, is) in &mut repo.impls {
        for i in is {
            let file = i.fns.first().map(|f| f.file.clone()).unwrap_or_default();
            for o in std::mem::take(&mut i.others) {
                match o {
                    ImplItem::Const(c) if ctr.constfns.contains(&c.ident.to_string()) => i.fns.push(const_fn(k, &file, &c.ident, &c.ty, Some(&c.expr))),
                    o => i.others.push(o),
                }
            }
        }
    }
    let params: BTreeMap<String, Vec<String>> = a.get("params").and_then(|f| std::fs::read_to_string(f).ok()).unwrap_or_default().lines()
        .filter_map(|l| l.split_once(' ').map(|(k, v)| (k.replace('~', " "), v.split_whitespace().map(String::from).collect()))).collect();
    let mut e = Emit { params, seen_params: BTreeMap::new(), vacuous: a.contains_key("vacuous"), lits: vec![], out: String::new(), map: vec![], notes: vec![], quarantine: a.get("quarantine").map(|s| s.split(';').map(String::from).collect()).unwrap_or_default() };
    let mut missing: Vec<String> = vec![];
    let mut in_mod = false;
    for d in &ctr.order {
        match d {
            Directive::Mod(n) => {
                if std::mem::replace(&mut in_mod, true) { e.out.push_str("}\n"); }
                writeln!(e.out, "pub mod {n} {{\nuse super::*;").unwrap();
            }
            Directive::Raw(t) => { e.out.push_str(t); e.out.push('\n'); }
            Directive::Item { key, prefix } => match repo.items.get(key) {
                None => missing.push(key.clone()),
                Some(it) => {
                    let mut it = it.clone();
                    rewrite::publicize(&mut it);
                    let mut cx = cx_for(key, &repo, &ctr);
                    cx.visit_item_mut(&mut it);
                    e.out.push_str(prefix);
                    let first = e.lineno();
                    e.out.push_str(&print_item(it));
                    let last = e.lineno();
                    e.map.push((key.clone(), first, last, String::new(), 0, "item".into()));
                    e.out.push('\n');
                }
            },
            Directive::Trait { key, extra } => match repo.traits.get(key) {
                None => missing.push(key.clone()),
                Some(t) => {
                    let (main, comp) = split_trait(t);
                    // The extra text up to a line `---` goes to the main part.
                    let (ex1, ex2) = extra.split_once("---\n").unwrap_or((extra, ""));
                    for (t, extra) in [(Some(main), ex1), (comp, ex2)] {
                        let Some(t) = t else { continue };
                        let mut head = t.head.clone();
                        head.vis = parse_quote!(pub);
                        let mut cx = cx_for(key, &repo, &ctr);
                        head.items = t.others.iter().filter(|i| !matches!(i, TraitItem::Const(c) if ctr.drops.contains(&format!("{key}::{}", c.ident)))).filter(|i| !matches!(i, TraitItem::Type(c) if ctr.drops.contains(&format!("{key}::{}", c.ident)))).cloned().collect();
                        if ctr.drops.contains(&format!("{key}::supertraits")) { head.supertraits = Default::default(); }
                        for i in &mut head.items { cx.visit_trait_item_mut(i); }
                        let txt = print_item(Item::Trait(head));
                        let txt = txt.trim_end().strip_suffix('}').unwrap().trim_end();
                        e.out.push_str(txt);
                        e.out.push('\n');
                        e.out.push_str(extra);
                        for f in &t.fns {
                            match ctr.fns.get(&f.key) { Some(c) => e.emit_fn(f, c, &repo, &ctr, true, false), None => e.note(&f.key, "no contract: method left out") }
                        }
                        e.out.push_str("}\n\n");
                    }
                }
            },
            Directive::Impl { key, extra, opts } => match repo.impls.get(key) {
                None => missing.push(key.clone()),
                Some(is) => for (n, i) in is.iter().enumerate() {
                    let mut head = i.head.clone();
                    let mut cx = cx_for(key, &repo, &ctr);
                    cx.visit_type_mut(&mut head.self_ty);
                    let free = opts.iter().any(|o| o == "free");
                    head.items = i.others.iter().filter(|x| match x {
                        ImplItem::Const(c) => !ctr.drops.contains(&format!("{key}::{}", c.ident)),
                        ImplItem::Type(c) => !ctr.drops.contains(&format!("{key}::{}", c.ident)),
                        _ => true }).cloned().collect();
                    for i in &mut head.items {
                        cx.visit_impl_item_mut(i);
                        if head.trait_.is_none() && let ImplItem::Const(c) = i { c.vis = parse_quote!(pub); }
                    }
                    if !free {
                        let has_trait = head.trait_.is_some();
                        // Which items belong to the companion trait?
                        let tname = head.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
                        let comp = tname.and_then(|n| repo.traits.values().find(|t| t.head.ident == n.as_str())).and_then(|t| split_trait(t).1);
                        let in_comp = |n: &Ident| comp.as_ref().is_some_and(|c| c.fns.iter().any(|f| f.sig.ident == *n) || c.others.iter().any(|o| matches!(o, TraitItem::Type(t) if t.ident == *n)));
                        let (ex1, ex2) = extra.split_once("---\n").unwrap_or((extra, ""));
                        let mut head2 = head.clone();
                        head.items.retain(|x| !matches!(x, ImplItem::Type(t) if in_comp(&t.ident)));
                        head2.items.retain(|x| matches!(x, ImplItem::Type(t) if in_comp(&t.ident)));
                        if let Some(t) = &mut head2.trait_ { let l = t.1.segments.last_mut().unwrap(); l.ident = quote::format_ident!("{}Sized", l.ident); }
                        for (second, head, extra) in [(false, head, ex1), (true, head2, ex2)] {
                            if second && comp.is_none() { continue; }
                            let txt = print_item(Item::Impl(head));
                            let txt = txt.trim_end().strip_suffix('}').unwrap().trim_end();
                            e.out.push_str(txt);
                            e.out.push('\n');
                            if n == 0 { e.out.push_str(extra); }
                            for f in &i.fns {
                                if in_comp(&f.sig.ident) != second { continue; }
                                let mut f = clone_fn(f);
                                unsize(&mut f.sig.generics);
                                match ctr.fns.get(&f.key) { Some(c) => e.emit_fn(&f, c, &repo, &ctr, false, has_trait), None => e.note(&f.key, "no contract: method left out") }
                            }
                            e.out.push_str("}\n\n");
                        }
                    } else {
                        // `impl dyn Trait { fn m(&mut self, ..) }` as free functions.
                        for f in &i.fns {
                            if let Some(c) = ctr.fns.get(&f.key) {
                                let mut f2 = FnSrc { key: f.key.clone(), file: f.file.clone(), line: f.line, sig: f.sig.clone(), block: f.block.clone() };
                                rewrite::free_method(&mut f2, &head.self_ty);
                                e.note(&f.key, "method on a trait object emitted as a free function");
                                e.emit_fn(&f2, c, &repo, &ctr, false, false);
                            }
                        }
                    }
                },
            },
            Directive::Fn(key) => match (repo.fns.get(key), ctr.fns.get(key)) {
                (Some(f), Some(c)) => e.emit_fn(f, c, &repo, &ctr, false, false),
                _ => missing.push(key.clone()),
            },
        }
    }
    if in_mod { e.out.push_str("}\n"); }
    for (n, l) in e.lits.iter().enumerate() {
        let bytes: Vec<String> = l.bytes().map(|b| format!("{b}u8")).collect();
        writeln!(e.out, "#[verifier::external_body]\npub proof fn vx_lit_{n}()\n    ensures {l:?}.b() == {}\n{{}}", if bytes.is_empty() { "Seq::<u8>::empty()".into() } else { format!("seq![{}]", bytes.join(", ")) }).unwrap();
    }
    // The values of the attribute flags, for the tables the macros wrote with numbers.
    if a.contains_key("derived") {
        let mut fl = vec![];
        for i in repo.impls.get("shared::ArgAttrs").into_iter().flatten() {
            for o in &i.others { if let ImplItem::Const(c) = o && let Some(v) = number(&c.expr) { fl.push((c.ident.to_string(), v)); } }
        }
        writeln!(e.out, "pub proof fn vx_flags()\n    ensures true, {}\n{{ {} }}", fl.iter().map(|(n, v)| format!("ArgAttrs::{n}.0 == {v}, ")).collect::<String>(), fl.iter().map(|(n, v)| format!("assert(ArgAttrs::{n}.0 == {v}) by (compute); ")).collect::<String>()).unwrap();
    }
    // Contracts whose function is gone.
    let seen: BTreeSet<&String> = e.map.iter().map(|m| &m.0).collect();
    for k in ctr.fns.keys() { if !seen.contains(k) && !missing.contains(k) { missing.push(k.clone()); } }
    std::fs::write(&a["out"], &e.out).unwrap();
    if let Some(f) = a.get("write-params") {
        std::fs::write(f, e.seen_params.iter().filter(|(_, v)| !v.is_empty()).map(|(k, v)| format!("{} {}\n", k.replace(' ', "~"), v.join(" "))).collect::<String>()).unwrap();
    }
    let mut m = String::from("{\n\"map\":[\n");
    for (i, x) in e.map.iter().enumerate() {
        let own = ctr.fns.get(&x.0).map(|c| c.owner.iter().map(|o| js(o)).collect::<Vec<_>>().join(",")).unwrap_or_default();
        writeln!(m, "{}{{\"key\":{},\"first\":{},\"last\":{},\"file\":{},\"line\":{},\"kind\":{},\"owner\":[{own}]}}", if i > 0 { "," } else { "" }, js(&x.0), x.1, x.2, js(&x.3), x.4, js(&x.5)).unwrap();
    }
    write!(m, "],\n\"notes\":[\n").unwrap();
    for (i, n) in e.notes.iter().enumerate() { writeln!(m, "{}[{},{}]", if i > 0 { "," } else { "" }, js(&n.0), js(&n.1)).unwrap(); }
    write!(m, "],\n\"missing\":[{}]\n}}\n", missing.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")).unwrap();
    std::fs::write(&a["map"], m).unwrap();
}
