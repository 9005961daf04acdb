//! The rewrites.  Each keeps the meaning of the code; they exist because the verifier reads a subset of Rust.
use crate::contracts::Contracts;
use crate::{FnSrc, Repo, cfg_on};
use quote::{format_ident, quote};
use std::collections::BTreeSet;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Cx<'r> {
    pub key: String,
    pub notes: Vec<String>,
    pub repo: &'r Repo,
    pub ctr: &'r Contracts,
    pub loops: usize,
    pub depth: usize,
    pub hoisted: Vec<String>,
    pub tmp: std::collections::BTreeMap<String, usize>,
    pub self_ty: Option<Type>,
    pub feats: BTreeSet<String>,
    /// Parameters of type `bool`.
    pub bools: BTreeSet<String>,
    /// Functions declared inside the body.
    pub local: Vec<FnSrc>,
}

pub fn item_attrs(it: &Item) -> &[Attribute] {
    match it {
        Item::Fn(x) => &x.attrs, Item::Impl(x) => &x.attrs, Item::Trait(x) => &x.attrs, Item::Struct(x) => &x.attrs, Item::Enum(x) => &x.attrs,
        Item::Const(x) => &x.attrs, Item::Type(x) => &x.attrs, Item::Mod(x) => &x.attrs, Item::Use(x) => &x.attrs, Item::Macro(x) => &x.attrs, Item::Static(x) => &x.attrs,
        _ => &[],
    }
}

/// Resolves `cfg`, then drops every attribute but the derives that matter to the verifier.
pub fn strip_item(it: &mut Item, feats: &BTreeSet<String>) { Strip { feats: feats.clone() }.visit_item_mut(it); }
struct Strip { feats: BTreeSet<String> }
impl Strip {
    fn on(&self, a: &[Attribute]) -> bool { cfg_on(a, &self.feats) }
}
impl VisitMut for Strip {
    fn visit_attributes_mut(&mut self, attrs: &mut Vec<Attribute>) {
        let mut keep = vec![];
        for a in attrs.iter() {
            if a.path().is_ident("derive") {
                let mut names: Vec<String> = vec![];
                let _ = a.parse_nested_meta(|m| { names.push(m.path.segments.last().unwrap().ident.to_string()); Ok(()) });
                let mut ids: Vec<Ident> = names.iter().filter(|n| ["Clone", "Copy", "PartialEq", "Eq"].contains(&n.as_str())).map(|n| format_ident!("{n}")).collect();
                if names.iter().any(|n| n == "PartialEq") { ids.push(format_ident!("Structural")); }
                if !ids.is_empty() { keep.push(parse_quote!(#[derive(#(#ids),*)])); }
            }
        }
        *attrs = keep;
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        for s in std::mem::take(&mut b.stmts) {
            let attrs: Vec<Attribute> = match &s {
                Stmt::Local(l) => l.attrs.clone(),
                Stmt::Item(i) => item_attrs(i).to_vec(),
                Stmt::Expr(e, _) => expr_attrs(e),
                Stmt::Macro(m) => m.attrs.clone(),
            };
            if self.on(&attrs) { out.push(s); }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_struct_mut(&mut self, e: &mut ExprStruct) {
        let f: Vec<FieldValue> = std::mem::take(&mut e.fields).into_iter().filter(|f| self.on(&f.attrs)).collect();
        e.fields = f.into_iter().collect();
        visit_mut::visit_expr_struct_mut(self, e);
    }
    fn visit_fields_named_mut(&mut self, e: &mut FieldsNamed) {
        let f: Vec<Field> = std::mem::take(&mut e.named).into_iter().filter(|f| self.on(&f.attrs)).collect();
        e.named = f.into_iter().collect();
        visit_mut::visit_fields_named_mut(self, e);
    }
    fn visit_item_impl_mut(&mut self, i: &mut ItemImpl) {
        i.items.retain(|x| match x { ImplItem::Fn(f) => self.on(&f.attrs), ImplItem::Const(f) => self.on(&f.attrs), ImplItem::Type(f) => self.on(&f.attrs), _ => true });
        visit_mut::visit_item_impl_mut(self, i);
    }
    fn visit_item_trait_mut(&mut self, i: &mut ItemTrait) {
        i.items.retain(|x| match x { TraitItem::Fn(f) => self.on(&f.attrs), TraitItem::Const(f) => self.on(&f.attrs), TraitItem::Type(f) => self.on(&f.attrs), _ => true });
        visit_mut::visit_item_trait_mut(self, i);
    }
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        m.arms.retain(|a| self.on(&a.attrs));
        visit_mut::visit_expr_match_mut(self, m);
    }
}
fn expr_attrs(e: &Expr) -> Vec<Attribute> {
    match e {
        Expr::Block(b) => b.attrs.clone(), Expr::If(b) => b.attrs.clone(), Expr::Call(b) => b.attrs.clone(), Expr::MethodCall(b) => b.attrs.clone(),
        Expr::Match(b) => b.attrs.clone(), Expr::Macro(b) => b.attrs.clone(), Expr::Return(b) => b.attrs.clone(), Expr::Assign(b) => b.attrs.clone(), Expr::Reference(b) => b.attrs.clone(),
        _ => vec![],
    }
}

pub fn publicize(it: &mut Item) {
    match it {
        Item::Struct(s) => { s.vis = parse_quote!(pub); for f in &mut s.fields { f.vis = parse_quote!(pub); } }
        Item::Enum(s) => s.vis = parse_quote!(pub),
        Item::Const(s) => s.vis = parse_quote!(pub),
        Item::Type(s) => s.vis = parse_quote!(pub),
        _ => {}
    }
}

struct SelfTo(Ident);
impl VisitMut for SelfTo {
    fn visit_ident_mut(&mut self, i: &mut Ident) { if i == "self" { *i = self.0.clone(); } }
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.segments.len() == 1 && p.segments[0].ident == "self" { p.segments[0].ident = self.0.clone(); }
        visit_mut::visit_path_mut(self, p);
    }
}

/// `fn f(mut self, ..) {B}` becomes `fn f(self, ..) { let mut __self = self; B[__self/self] }`; `extern "C"` goes.
pub fn rewrite_sig(sig: &mut Signature, body: Option<&mut Block>, cx: &mut Cx) {
    sig.abi = None;
    if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut()
        && r.reference.is_none() && r.mutability.is_some()
    {
        r.mutability = None;
        if let Some(b) = body {
            SelfTo(format_ident!("__self")).visit_block_mut(b);
            b.stmts.insert(0, parse_quote!(let mut __self = self;));
        }
    }
    // `_` parameters need a name.
    let mut n = 0;
    for a in &mut sig.inputs {
        if let FnArg::Typed(t) = a && let Pat::Wild(_) = &*t.pat { t.pat = { let i = format_ident!("_vx_{n}"); parse_quote!(#i) }; n += 1; }
    }
    // `impl Trait` in argument position is a type parameter.
    let mut n = 0;
    for a in &mut sig.inputs {
        if let FnArg::Typed(t) = a && let Type::ImplTrait(it) = &*t.ty {
            let g = format_ident!("VxI{n}");
            n += 1;
            let b = &it.bounds;
            sig.generics.params.push(parse_quote!(#g: #b));
            t.ty = parse_quote!(#g);
        }
    }
    let mut c = TypeFix;
    for a in &mut sig.inputs { c.visit_fn_arg_mut(a); }
    c.visit_return_type_mut(&mut sig.output);
    c.visit_generics_mut(&mut sig.generics);
    let _ = cx;
}

pub fn free_method(f: &mut FnSrc, self_ty: &Type) {
    let ty = match self_ty { Type::TraitObject(t) => { let b: Vec<_> = t.bounds.iter().filter(|b| matches!(b, TypeParamBound::Trait(_))).collect(); quote!(dyn #(#b)+*) } t => quote!(#t) };
    if let Some(FnArg::Receiver(r)) = f.sig.inputs.first() {
        let m = &r.mutability;
        let a: FnArg = if r.reference.is_some() { parse_quote!(this: &#m #ty) } else { parse_quote!(this: #ty) };
        f.sig.inputs[0] = a;
    }
    if let Some(b) = &mut f.block { SelfTo(format_ident!("this")).visit_block_mut(b); }
}

/// `dyn Iterator<Item = OsString>` is `dyn ArgSource`; boxed error objects are the opaque `DynStdError`.
pub struct TypeFix;
impl VisitMut for TypeFix {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::TraitObject(o) = t && let Some(TypeParamBound::Trait(b)) = o.bounds.first() {
            let s = b.path.segments.last().unwrap();
            if s.ident == "Iterator" { *t = parse_quote!(dyn ArgSource); }
            else if b.path.segments.len() == 2 && b.path.segments[0].ident == "fmt" && s.ident == "Display" { *t = parse_quote!(dyn HelpFmt); }
        }
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        fix_path(p);
    }
}
fn fix_path(p: &mut Path) {
    // Everything is in one module.
    while p.segments.len() > 1 && (p.segments[0].ident == "crate" || ["error", "refl", "runtime", "shared", "util", "values", "help"].contains(&p.segments[0].ident.to_string().as_str())) {
        let segs: Vec<PathSegment> = p.segments.iter().skip(1).cloned().collect();
        p.segments = segs.into_iter().collect();
        p.leading_colon = None;
    }
}

struct Finder { ret: bool, ret_ok: bool, tr: bool }
impl<'a> Visit<'a> for Finder {
    fn visit_expr_return(&mut self, r: &'a ExprReturn) {
        self.ret = true;
        let is_err = matches!(r.expr.as_deref(), Some(Expr::Call(c)) if matches!(&*c.func, Expr::Path(p) if p.path.segments.last().unwrap().ident == "Err"));
        if !is_err { self.ret_ok = true; }
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, t: &'a ExprTry) { self.tr = true; visit::visit_expr_try(self, t); }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
}
fn scan(b: &Block) -> Finder { let mut f = Finder { ret: false, ret_ok: false, tr: false }; f.visit_block(b); f }

struct Lifetimes;
impl VisitMut for Lifetimes { fn visit_lifetime_mut(&mut self, l: &mut Lifetime) { *l = Lifetime::new("'_", l.apostrophe); } }

fn simple_pat_ident(p: &Pat) -> Option<&Ident> { match p { Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => Some(&i.ident), _ => None } }

fn conjuncts(e: Expr, out: &mut Vec<Expr>) {
    match e {
        Expr::Binary(ExprBinary { left, op: BinOp::And(_), right, .. }) => { conjuncts(*left, out); conjuncts(*right, out); }
        e => out.push(e),
    }
}
fn has_let(e: &Expr) -> bool { match e { Expr::Let(_) => true, Expr::Binary(b) if matches!(b.op, BinOp::And(_)) => has_let(&b.left) || has_let(&b.right), _ => false } }
fn and_all(v: Vec<Expr>) -> Option<Expr> { v.into_iter().reduce(|a, b| parse_quote!(#a && #b)) }

struct Binds(Vec<Ident>);
impl<'a> Visit<'a> for Binds { fn visit_pat_ident(&mut self, i: &'a PatIdent) {
    let s = i.ident.to_string();
    if !(i.by_ref.is_none() && i.subpat.is_none() && s.chars().next().unwrap().is_uppercase()) { self.0.push(i.ident.clone()); }
    visit::visit_pat_ident(self, i); } }

impl Cx<'_> {
    fn fresh(&mut self, s: &str) -> Ident { let n = self.tmp.entry(s.into()).or_default(); *n += 1; format_ident!("__{s}{n}") }

    pub fn rewrite_body(&mut self, b: &mut Block) {
        let mut keep = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                Stmt::Item(Item::Fn(f)) => self.local.push(FnSrc { key: f.sig.ident.to_string(), file: String::new(), line: 0, sig: f.sig, block: Some(*f.block) }),
                s => keep.push(s),
            }
        }
        b.stmts = keep;
        for _ in 0..4 { if !self.inline(b) { break; } }
        self.visit_block_mut(b);
        RefPats { n: 0 }.visit_block_mut(b);
    }

    // ---- functions of the repository that have no contract are inlined ----
    fn inline(&mut self, b: &mut Block) -> bool {
        struct In<'a, 'r> { cx: &'a mut Cx<'r>, done: bool }
        impl In<'_, '_> {
            fn target(&self, e: &Expr) -> Option<(Signature, Block, Option<Expr>, Vec<Expr>)> {
                match e {
                    Expr::Call(c) => {
                        let Expr::Path(p) = &*c.func else { return None };
                        let name = p.path.segments.last()?.ident.to_string();
                        if p.path.segments.len() > 1 && p.path.segments[0].ident != "crate" && p.path.segments[0].ident != "self" && p.path.segments[0].ident != "super" { return None; }
                        if let Some(f) = self.cx.local.iter().find(|f| f.key == name) {
                            return Some((f.sig.clone(), f.block.clone()?, None, c.args.iter().cloned().collect()));
                        }
                        if self.cx.ctr.fns.keys().any(|k| k.split("::").count() == 2 && k.ends_with(&format!("::{name}"))) { return None; }
                        let (_, f) = self.cx.repo.fns.iter().find(|(k, _)| k.ends_with(&format!("::{name}")))?;
                        Some((f.sig.clone(), f.block.clone()?, None, c.args.iter().cloned().collect()))
                    }
                    Expr::MethodCall(m) => {
                        let name = m.method.to_string();
                        if self.cx.ctr.fns.keys().any(|k| k.ends_with(&format!("::{name}"))) { return None; }
                        let mut c: Vec<&FnSrc> = self.cx.repo.impls.values().flatten().filter(|i| i.head.trait_.is_none()).flat_map(|i| &i.fns).filter(|f| f.sig.ident == name.as_str()).collect();
                        if c.len() != 1 { return None; }
                        let f = c.pop()?;
                        Some((f.sig.clone(), f.block.clone()?, Some((*m.receiver).clone()), m.args.iter().cloned().collect()))
                    }
                    _ => None,
                }
            }
            fn expand(&mut self, e: &Expr, kind: u8) -> Option<Expr> {
                let (sig, mut body, recv, args) = self.target(e)?;
                if format!("{}", sig.ident) == self.cx.key.rsplit("::").next().unwrap() { return None; }
                if sig.generics.params.iter().any(|p| !matches!(p, GenericParam::Lifetime(_))) { return None; }
                let s = scan(&body);
                let ok = match kind { 0 => !s.ret && !s.tr, 1 => !s.ret_ok, _ => true };
                if !ok { return None; }
                let mut lets: Vec<Stmt> = vec![];
                let mut binds: Vec<Stmt> = vec![];
                let mut it = sig.inputs.iter();
                if let Some(FnArg::Receiver(r)) = sig.inputs.first() {
                    it.next();
                    let recv = recv?;
                    let me = self.cx.fresh("me");
                    let path = matches!(&recv, Expr::Path(_));
                    let m = &r.mutability;
                    if r.reference.is_some() {
                        if path { lets.push(parse_quote!(let #me = &#m *#recv;)); } else { lets.push(parse_quote!(let #me = &#m #recv;)); }
                    } else { lets.push(parse_quote!(let #m #me = #recv;)); }
                    SelfTo(me).visit_block_mut(&mut body);
                } else if recv.is_some() { return None; }
                if it.len() != args.len() { return None; }
                for (p, a) in it.zip(args) {
                    let FnArg::Typed(p) = p else { return None };
                    let t = self.cx.fresh("arg");
                    let mut ty = (*p.ty).clone();
                    if matches!(ty, Type::ImplTrait(_)) { return None; }
                    Lifetimes.visit_type_mut(&mut ty);
                    let pat = &p.pat;
                    // A trait object is used at its own type: the call is dispatched statically.
                    if matches!(&ty, Type::Reference(r) if matches!(&*r.elem, Type::TraitObject(_))) { lets.push(parse_quote!(let #t = #a;)); }
                    else { lets.push(parse_quote!(let #t: #ty = #a;)); }
                    binds.push(parse_quote!(let #pat = #t;));
                }
                let stmts = &body.stmts;
                self.done = true;
                self.cx.notes.push(format!("function `{}` has no contract: inlined", sig.ident));
                Some(parse_quote!({ #(#lets)* #(#binds)* #(#stmts)* }))
            }
            fn tail(&mut self, b: &mut Block) { if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() { self.tail_e(e); } }
            fn tail_e(&mut self, e: &mut Expr) {
                match e {
                    Expr::If(i) => { self.tail(&mut i.then_branch); if let Some((_, e)) = &mut i.else_branch { self.tail_e(e); } }
                    Expr::Match(m) => for a in &mut m.arms { self.tail_e(&mut a.body) },
                    Expr::Block(b) => self.tail(&mut b.block),
                    Expr::Call(_) | Expr::MethodCall(_) => if let Some(n) = self.expand(e, 2) { *e = n; },
                    _ => {}
                }
            }
        }
        impl VisitMut for In<'_, '_> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                visit_mut::visit_expr_mut(self, e);
                match e {
                    Expr::Try(t) => if let Some(n) = self.expand(&t.expr, 1) { *t.expr = Expr::Paren(ExprParen { attrs: vec![], paren_token: Default::default(), expr: Box::new(n) }); },
                    Expr::Return(r) => if let Some(x) = &mut r.expr && let Some(n) = self.expand(x, 2) { **x = n; },
                    Expr::Call(_) | Expr::MethodCall(_) => if let Some(n) = self.expand(e, 0) { *e = n; },
                    _ => {}
                }
            }
            fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
        }
        let mut v = In { cx: self, done: false };
        v.tail(b);
        v.visit_block_mut(b);
        v.done
    }

    // ---- let chains ----
    fn if_chain(&mut self, i: ExprIf) -> Expr {
        let mut cs = vec![];
        conjuncts(*i.cond, &mut cs);
        let then = i.then_branch;
        let els = i.else_branch.map(|(_, e)| *e);
        self.notes.push("let chain desugared".into());
        match els {
            None => {
                let mut body: Block = then;
                let mut pend: Vec<Expr> = vec![];
                for c in cs.into_iter().rev() {
                    if let Expr::Let(_) = &c {
                        if let Some(g) = and_all(std::mem::take(&mut pend)) { body = parse_quote!({ if #g #body }); }
                        body = parse_quote!({ if #c #body });
                    } else { pend.insert(0, c); }
                }
                if let Some(g) = and_all(pend) { body = parse_quote!({ if #g #body }); }
                match body.stmts.pop() { Some(Stmt::Expr(e, _)) if body.stmts.is_empty() => e, _ => unreachable!() }
            }
            Some(els) => {
                let lets = cs.iter().filter(|c| matches!(c, Expr::Let(_))).count();
                let els: Expr = match els { Expr::Block(_) => els, e => parse_quote!({ #e }) };
                if lets == 1 {
                    let k = cs.iter().position(|c| matches!(c, Expr::Let(_))).unwrap();
                    let after = and_all(cs.split_off(k + 1));
                    let Some(Expr::Let(l)) = cs.pop() else { unreachable!() };
                    let (pat, ex) = (&l.pat, &l.expr);
                    let guard = after.map(|g| quote!(if #g));
                    match and_all(cs) {
                        None => parse_quote!(match #ex { #pat #guard => #then, _ => #els }),
                        Some(pre) => parse_quote!(match if #pre { Some(#ex) } else { None } { Some(#pat) #guard => #then, _ => #els }),
                    }
                } else {
                    let mut b = Binds(vec![]);
                    for c in &cs { if let Expr::Let(l) = c { b.visit_pat(&l.pat); } }
                    let ids = b.0;
                    let mut inner: Expr = parse_quote!(Some((#(#ids,)*)));
                    let mut pend: Vec<Expr> = vec![];
                    for c in cs.into_iter().rev() {
                        if let Expr::Let(l) = c {
                            let (pat, ex) = (&l.pat, &l.expr);
                            if let Some(g) = and_all(std::mem::take(&mut pend)) { inner = parse_quote!(if #g { #inner } else { None }); }
                            inner = parse_quote!(match #ex { #pat => #inner, _ => None });
                        } else { pend.insert(0, c); }
                    }
                    if let Some(g) = and_all(pend) { inner = parse_quote!(if #g { #inner } else { None }); }
                    parse_quote!(match #inner { Some((#(#ids,)*)) => #then, None => #els })
                }
            }
        }
    }

    /// Result or Option?  From constructors in tail position and from the return types of known functions.
    fn is_result(&self, e: &Expr) -> Option<bool> {
        match e {
            Expr::Call(c) => if let Expr::Path(p) = &*c.func {
                let n = p.path.segments.last().unwrap().ident.to_string();
                match n.as_str() { "Ok" | "Err" => return Some(true), "Some" => return Some(false), _ => {} }
                self.known_ret(&n)
            } else { None },
            Expr::Path(p) if p.path.is_ident("None") => Some(false),
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "ok" | "next" | "filter" | "get" | "first" | "last" | "as_deref" | "strip_prefix" | "split_once" | "pop" | "take" => Some(false),
                    "ok_or" | "ok_or_else" | "map_err" => Some(true),
                    "and_then" | "map" => self.is_result(&m.receiver).or_else(|| m.args.first().and_then(|a| self.is_result(a))),
                    _ => self.known_ret(&n),
                }
            }
            Expr::Match(m) => m.arms.iter().find_map(|a| self.is_result(&a.body)),
            Expr::If(i) => match i.then_branch.stmts.last() { Some(Stmt::Expr(e, None)) => self.is_result(e), _ => None }.or_else(|| i.else_branch.as_ref().and_then(|e| self.is_result(&e.1))),
            Expr::Block(b) => match b.block.stmts.last() { Some(Stmt::Expr(e, None)) => self.is_result(e), _ => None },
            Expr::Closure(c) => self.is_result(&c.body),
            Expr::Paren(p) => self.is_result(&p.expr),
            _ => None,
        }
    }
    fn known_ret(&self, n: &str) -> Option<bool> {
        let suf = format!("::{n}");
        let sigs = self.repo.fns.values().chain(self.repo.impls.values().flatten().flat_map(|i| &i.fns)).chain(self.repo.traits.values().flat_map(|i| &i.fns));
        for f in sigs {
            if f.key.ends_with(&suf) && let ReturnType::Type(_, t) = &f.sig.output && let Type::Path(p) = &**t {
                let i = p.path.segments.last().unwrap().ident.to_string();
                if i == "Result" { return Some(true); }
                if i == "Option" { return Some(false); }
            }
        }
        None
    }

    /// Option/Result combinators taking a closure literal, replaced by their definition.
    fn combinator(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let recv = &m.receiver;
        let n = m.method.to_string();
        let clos = |i: usize| -> Option<(Pat, Expr)> {
            match m.args.iter().nth(i)? {
                Expr::Closure(c) => { let p = c.inputs.first().cloned().unwrap_or(parse_quote!(_)); Some((p, (*c.body).clone())) }
                _ => None,
            }
        };
        let out: Expr = match n.as_str() {
            "filter" => { let (p, b) = clos(0)?; let t = self.fresh("f"); parse_quote!(match #recv { Some(#t) => { if { let #p = &#t; #b } { Some(#t) } else { None } } None => None }) }
            "and_then" => {
                let (p, b) = clos(0)?;
                if scan(&parse_quote!({ #b })).ret || scan(&parse_quote!({ #b })).tr { return None; }
                match self.is_result(recv).or_else(|| self.is_result(&b))? {
                    true => { let e = self.fresh("e"); parse_quote!(match #recv { Ok(#p) => #b, Err(#e) => Err(#e) }) }
                    false => parse_quote!(match #recv { Some(#p) => #b, None => None }),
                }
            }
            "map_err" => { let (p, b) = clos(0)?; let t = self.fresh("v"); parse_quote!(match #recv { Ok(#t) => Ok(#t), Err(#p) => Err(#b) }) }
            "map" => {
                let (p, b) = clos(0)?;
                match self.is_result(recv)? {
                    true => { let e = self.fresh("e"); parse_quote!(match #recv { Ok(#p) => Ok(#b), Err(#e) => Err(#e) }) }
                    false => parse_quote!(match #recv { Some(#p) => Some(#b), None => None }),
                }
            }
            "is_some_and" => { let (p, b) = clos(0)?; parse_quote!(match #recv { Some(#p) => #b, None => false }) }
            "is_none_or" => { let (p, b) = clos(0)?; parse_quote!(match #recv { Some(#p) => #b, None => true }) }
            "as_deref" if m.args.is_empty() => { let t = self.fresh("d"); parse_quote!(match &#recv { Some(#t) => Some(&**#t), None => None }) }
            "all" | "any" => {
                // `S.iter().all(|b| C)` over a byte slice
                let (p, b) = clos(0)?;
                let Expr::MethodCall(it) = &**recv else { return None };
                if it.method != "iter" { return None; }
                let s = &it.receiver;
                let (sl, i, ok) = (self.fresh("sl"), self.fresh("i"), self.fresh("ok"));
                if n == "all" {
                    parse_quote!({ let #sl = &#s; let mut #i: usize = 0; let mut #ok = true; while #ok && #i < #sl.len() { let #p = &#sl[#i]; if !{ #b } { #ok = false; } #i += 1; } #ok })
                } else {
                    parse_quote!({ let #sl = &#s; let mut #i: usize = 0; let mut #ok = false; while !#ok && #i < #sl.len() { let #p = &#sl[#i]; if { #b } { #ok = true; } #i += 1; } #ok })
                }
            }
            "binary_search_by_key" => {
                let (p, b) = clos(1)?;
                let want_p: Pat = parse_quote!((key, _));
                let want_b: Expr = parse_quote!(key.as_bytes());
                let norm = |p: &Pat, b: &Expr| -> Option<(String, String)> {
                    let mut bb = Binds(vec![]); bb.visit_pat(p);
                    if bb.0.len() != 1 { return None; }
                    let n = bb.0[0].to_string();
                    let f = |s: String| s.split(|c: char| !c.is_alphanumeric() && c != '_').map(|w| if w == n { "key" } else { w }).collect::<Vec<_>>().join(" ");
                    Some((f(quote!(#p).to_string()), f(quote!(#b).to_string())))
                };
                if norm(&p, &b) != norm(&want_p, &want_b) { return None; }
                let k = m.args.first()?;
                let k: Expr = match k { Expr::Reference(r) => (*r.expr).clone(), k => parse_quote!(*#k) };
                parse_quote!(search_sorted(#recv, #k))
            }
            _ => return None,
        };
        self.notes.push(format!("`{n}` with a closure replaced by its definition"));
        Some(out)
    }
}

/// A byte-string literal, as written or as already rewritten.
fn lit_bytes(e: &Expr) -> bool {
    let u8s = |a: &ExprArray| a.elems.iter().all(|x| matches!(x, Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) if i.suffix() == "u8"));
    matches!(e, Expr::Lit(ExprLit { lit: Lit::ByteStr(_), .. })) || matches!(e, Expr::Reference(r) if matches!(&*r.expr, Expr::Array(a) if u8s(a)))
}
/// The string literals of a body.
pub fn all_literals(b: &Block) -> Vec<String> {
    struct L(Vec<String>);
    impl<'a> Visit<'a> for L { fn visit_lit_str(&mut self, s: &'a LitStr) { let v = s.value(); if !self.0.contains(&v) { self.0.push(v); } } }
    let mut l = L(vec![]);
    l.visit_block(b);
    l.0
}
/// The short ASCII string literals of a body: their bytes are made known to the verifier.
pub fn literals(b: &Block) -> Vec<String> {
    struct L(Vec<String>);
    impl<'a> Visit<'a> for L {
        fn visit_lit_str(&mut self, s: &'a LitStr) {
            let v = s.value();
            if v.is_ascii() && v.len() <= 24 && !v.contains(['\\', '"']) && !v.chars().any(|c| c.is_control()) && !self.0.contains(&v) { self.0.push(v); }
        }
    }
    let mut l = L(vec![]);
    l.visit_block(b);
    l.0
}

impl VisitMut for Cx<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) { TypeFix.visit_type_mut(t); }
    fn visit_path_mut(&mut self, p: &mut Path) { visit_mut::visit_path_mut(self, p); fix_path(p); }
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                Stmt::Macro(m) => {
                    let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac });
                    let e2 = self.macro_expr(&e).unwrap_or(e);
                    out.push(Stmt::Expr(e2, m.semi_token));
                }
                // A temporary whose life is extended by a `let` is a local when its coercion is a call.
                Stmt::Local(mut l) => {
                    if let Some(i) = &mut l.init && let Expr::Struct(st) = &mut *i.expr {
                        for f in &mut st.fields {
                            if let Expr::Call(c) = &mut f.expr && let Expr::Path(p) = &*c.func && p.path.segments[0].ident.to_string().starts_with("vx_dyn_")
                                && let Expr::Reference(r) = &mut c.args[0] && matches!(&*r.expr, Expr::Tuple(_) | Expr::Struct(_) | Expr::Array(_)) {
                                let n = self.fresh("tmp");
                                let e = &r.expr;
                                out.push(parse_quote!(let mut #n = #e;));
                                r.expr = parse_quote!(#n);
                            }
                        }
                    }
                    out.push(Stmt::Local(l));
                }
                s => out.push(s),
            }
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let new = match e {
            Expr::If(i) if matches!(&*i.cond, Expr::Binary(_)) && has_let(&i.cond) => Some(self.if_chain(i.clone())),
            // `if let` in `else if` position stays; so does a plain `if`.
            Expr::MethodCall(m) if m.method == "encode_utf8" && m.args.len() == 1 => {
                self.notes.push("`char::encode_utf8` gives a shared reference".into());
                let (c, b) = (&m.receiver, &m.args[0]);
                Some(parse_quote!(vx_encode_utf8(#c, #b)))
            }
            Expr::MethodCall(m) if self.ctr.calls.contains_key(&m.method.to_string()) => {
                self.unsizing(e);
                let Expr::MethodCall(m) = e else { unreachable!() };
                let f = format_ident!("{}", self.ctr.calls[&m.method.to_string()]);
                self.notes.push(format!("method `{}` of a trait object is called as the function `{f}`", m.method));
                let mut lets: Vec<Stmt> = vec![];
                for a in m.args.iter_mut() {
                    if let Expr::Reference(x) = a && x.mutability.is_some() && matches!(&*x.expr, Expr::Struct(_)) {
                        let n = self.fresh("frame");
                        let s = &x.expr;
                        lets.push(parse_quote!(let mut #n = #s;));
                        *x.expr = parse_quote!(#n);
                        self.notes.push("a temporary passed by reference is a local".into());
                    }
                }
                let (r, a) = (&m.receiver, &m.args);
                Some(if lets.is_empty() { parse_quote!(#f(#r, #a)) } else { parse_quote!({ #(#lets)* #f(#r, #a) }) })
            }
            Expr::MethodCall(m) => { let n = self.combinator(&m.clone()); if n.is_none() { self.unsizing(e); } n }
            Expr::Macro(_) => self.macro_expr(&e.clone()),
            Expr::Struct(_) | Expr::Call(_) => { self.unsizing(e); None }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (lit_bytes(&b.right) || lit_bytes(&b.left)) => {
                let (l, r) = (&b.left, &b.right);
                Some(if matches!(b.op, BinOp::Eq(_)) { parse_quote!(bytes_eq(#l, #r)) } else { parse_quote!(!bytes_eq(#l, #r)) })
            }
            Expr::Path(p) if p.path.segments.last().is_some_and(|s| self.ctr.constfns.contains(&s.ident.to_string())) => {
                self.notes.push("an associated constant is a function without parameters".into());
                let p = &*p;
                Some(parse_quote!(#p()))
            }
            Expr::Binary(b) if matches!(b.op, BinOp::BitOrAssign(_)) && matches!(&*b.left, Expr::Path(p) if p.path.get_ident().is_some_and(|i| self.bools.contains(&i.to_string()))) => {
                let (l, r) = (&b.left, &b.right);
                self.notes.push("`|=` of `bool` is `||` of evaluated operands".into());
                Some(parse_quote!({ let __or = #r; #l = #l || __or; }))
            }
            Expr::Lit(ExprLit { lit: Lit::ByteStr(s), .. }) => {
                let v: Vec<LitInt> = s.value().iter().map(|b| LitInt::new(&format!("{b}u8"), s.span())).collect();
                Some(parse_quote!(&[#(#v),*]))
            }
            _ => None,
        };
        if let Some(n) = new { *e = n; }
        if let Expr::ForLoop(f) = e {
            let it = self.fresh("it");
            let (pat, body, label) = (&f.pat, &f.body, &f.label);
            let n: Expr = match &*f.expr {
                // `for x in &mut I` draws from I itself.
                Expr::Reference(r) if r.mutability.is_some() => {
                    let src = match &*r.expr { Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => (*u.expr).clone(), x => x.clone() };
                    parse_quote!(#label while let Some(#pat) = #src.next() #body)
                }
                src => parse_quote!({ let mut #it = #src; #label while let Some(#pat) = #it.next() #body }),
            };
            self.notes.push("`for` written as `while let Some(..) = it.next()`".into());
            *e = n;
        }
        // A chain in an `else if` may have become a `match`: braces are needed.
        if let Expr::If(i) = e && let Some((_, els)) = &mut i.else_branch && !matches!(&**els, Expr::If(_) | Expr::Block(_)) {
            let x = (**els).clone();
            **els = parse_quote!({ #x });
        }
    }
}

/// The trait of `&mut dyn Trait`, for the traits whose unsizing coercion has a named function in the contracts.
fn dyn_of(t: &Type) -> Option<String> {
    if let Type::Reference(r) = t && r.mutability.is_some() && let Type::TraitObject(o) = &*r.elem && let Some(TypeParamBound::Trait(b)) = o.bounds.first() {
        let n = b.path.segments.last().unwrap().ident.to_string();
        if n == "Frame" || n == "RunParser" { return Some(n); }
    }
    None
}
impl Cx<'_> {
    /// The unsizing coercion to `&mut dyn Frame` / `&mut dyn RunParser` is written as a call.
    fn unsizing(&mut self, e: &mut Expr) {
        let mut wrap = |x: &mut Expr, t: &Type| if let Some(n) = dyn_of(t) { let f = format_ident!("vx_dyn_{n}"); *x = parse_quote!(#f(#x)); true } else { false };
        let mut any = false;
        match e {
            Expr::Struct(s) => {
                let n = s.path.segments.last().unwrap().ident.to_string();
                let Some(Item::Struct(d)) = self.repo.items.iter().find(|(k, _)| k.ends_with(&format!("::{n}"))).map(|x| x.1) else { return };
                for f in &mut s.fields {
                    if let Member::Named(m) = &f.member && let Some(df) = d.fields.iter().find(|x| x.ident.as_ref() == Some(m)) {
                        if wrap(&mut f.expr, &df.ty) { f.colon_token = Some(Default::default()); any = true; }
                    }
                }
            }
            Expr::Call(_) | Expr::MethodCall(_) => {
                let (n, args, recv) = match e {
                    Expr::Call(c) => { let Expr::Path(p) = &*c.func else { return }; (p.path.segments.last().unwrap().ident.to_string(), &mut c.args, false) }
                    Expr::MethodCall(m) => (m.method.to_string(), &mut m.args, true),
                    _ => return,
                };
                let suf = format!("::{n}");
                let f = self.repo.fns.values().chain(self.repo.traits.values().flat_map(|t| &t.fns)).chain(self.repo.impls.values().flatten().flat_map(|i| &i.fns))
                    .find(|f| f.key.ends_with(&suf) && f.sig.inputs.len() == args.len() + recv as usize && matches!(f.sig.inputs.first(), Some(FnArg::Receiver(_))) >= recv);
                let Some(f) = f else { return };
                let params: Vec<&FnArg> = f.sig.inputs.iter().skip(recv as usize).collect();
                for (a, p) in args.iter_mut().zip(params) { if let FnArg::Typed(t) = p { any |= wrap(a, &t.ty); } }
            }
            _ => {}
        }
        if any { self.notes.push("the coercion to a trait object is a call".into()); }
    }
    fn macro_expr(&mut self, e: &Expr) -> Option<Expr> {
        let Expr::Macro(m) = e else { return None };
        let name = m.mac.path.segments.last().unwrap().ident.to_string();
        match name.as_str() {
            "unreachable" | "panic" | "unimplemented" | "todo" => { self.notes.push(format!("`{name}!` is a call that must be unreachable")); Some(parse_quote!(vx_unreachable())) }
            "assert" | "debug_assert" => {
                let args = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let mut c = args.first()?.clone();
                self.visit_expr_mut(&mut c);
                Some(parse_quote!(vx_assert(#c)))
            }
            "matches" => {
                let (x, pat, g) = m.mac.parse_body_with(|i: parse::ParseStream| {
                    let x: Expr = i.parse()?; i.parse::<Token![,]>()?; let p = Pat::parse_multi_with_leading_vert(i)?;
                    let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse::<Expr>()?) } else { None };
                    let _ = i.parse::<Option<Token![,]>>()?; Ok((x, p, g)) }).ok()?;
                let g = g.map(|g| quote!(if #g));
                Some(parse_quote!(match #x { #pat #g => true, _ => false }))
            }
            _ => None,
        }
    }
}

// ---- `&x` patterns ----
/// The pattern `&x` becomes a name for the reference, and `x` a copy of what it points to.
struct RefPats { n: usize }
struct RefOf<'a>(&'a mut RefPats, Vec<(Ident, Ident)>);
impl VisitMut for RefOf<'_> {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Reference(r) = p && r.mutability.is_none() && let Some(i) = simple_pat_ident(&r.pat) {
            self.0.n += 1;
            let t = format_ident!("__r{}", self.0.n);
            self.1.push((i.clone(), t.clone()));
            *p = parse_quote!(#t);
            return;
        }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_expr_mut(&mut self, _: &mut Expr) {}
}
struct Deref(Vec<(Ident, Ident)>);
impl VisitMut for Deref {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Path(p) = e && let Some(i) = p.path.get_ident() && let Some((_, t)) = self.0.iter().find(|x| x.0 == *i) { *e = parse_quote!((*#t)); }
    }
}
impl RefPats {
    fn pat(&mut self, p: &mut Pat) -> Vec<(Ident, Ident)> { let mut r = RefOf(self, vec![]); r.visit_pat_mut(p); r.1 }
    fn lets(b: &mut Block, v: &[(Ident, Ident)]) { for (i, t) in v.iter().rev() { b.stmts.insert(0, parse_quote!(let #i = *#t;)); } }
}
impl VisitMut for RefPats {
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        let v = self.pat(&mut a.pat);
        if !v.is_empty() {
            if let Some((_, g)) = &mut a.guard { Deref(v.clone()).visit_expr_mut(g); }
            let body = &a.body;
            let mut b: Block = parse_quote!({ #body });
            Self::lets(&mut b, &v);
            *a.body = parse_quote!(#b);
        }
        visit_mut::visit_arm_mut(self, a);
    }
    fn visit_expr_if_mut(&mut self, i: &mut ExprIf) {
        if let Expr::Let(l) = &mut *i.cond { let v = self.pat(&mut l.pat); Self::lets(&mut i.then_branch, &v); }
        visit_mut::visit_expr_if_mut(self, i);
    }
    fn visit_expr_while_mut(&mut self, i: &mut ExprWhile) {
        if let Expr::Let(l) = &mut *i.cond { let v = self.pat(&mut l.pat); Self::lets(&mut i.body, &v); }
        visit_mut::visit_expr_while_mut(self, i);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let mut v = vec![];
            if let Stmt::Local(l) = &mut s { v = self.pat(&mut l.pat); }
            out.push(s);
            for (i, t) in v { out.push(parse_quote!(let #i = *#t;)); }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
}
