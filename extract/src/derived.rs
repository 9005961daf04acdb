//! What the derive macros wrote, as printed by the compiler (`-Zunpretty=expanded`), brought into the verifier's subset.
use crate::{FnSrc, Repo};
use quote::{format_ident, quote};
use std::collections::BTreeSet;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// Every `const _: () = { use ..; impl .. };` the macros wrote, with the definitions they were written for.
pub fn load(out: &mut Repo, path: &str, feats: &BTreeSet<String>) {
    let Ok(src) = std::fs::read_to_string(path) else { return };
    let ast = match parse_file(&src) { Ok(a) => a, Err(e) => { eprintln!("parse {path}: {e}"); return } };
    for it in ast.items {
        match it {
            Item::Struct(_) | Item::Enum(_) => crate::load_items(out, "gen", "derived", vec![it], feats),
            Item::Const(c) if c.ident == "_" => {
                let Expr::Block(b) = *c.expr else { continue };
                let ty = b.block.stmts.iter().find_map(|s| match s { Stmt::Item(Item::Impl(i)) => Some(crate::ty_name(&i.self_ty)), _ => None });
                let Some(ty) = ty else { continue };
                for s in b.block.stmts {
                    match s {
                        Stmt::Item(Item::Impl(mut i)) => {
                            let Some((_, p, _)) = &i.trait_ else { continue };
                            if !["Args", "Subcommand", "ValueEnum"].contains(&p.segments.last().unwrap().ident.to_string().as_str()) { continue; }
                            Fix { ty: ty.clone(), n: 0 }.visit_item_impl_mut(&mut i);
                            crate::load_items(out, "gen", "derived", vec![Item::Impl(i)], feats);
                        }
                        Stmt::Item(Item::Const(mut c)) => {
                            Fix { ty: ty.clone(), n: 0 }.visit_item_const_mut(&mut c);
                            let id = format_ident!("{}_{ty}", c.ident);
                            let f = crate::const_fn("gen", "derived", &id, &c.ty, Some(&c.expr));
                            out.fns.insert(f.key.clone(), FnSrc { key: f.key, file: "derived".into(), line: 0, sig: f.sig, block: f.block });
                        }
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
}

struct Fix { ty: String, n: usize }
struct TyArg(Option<Type>);
impl<'a> Visit<'a> for TyArg {
    fn visit_path_segment(&mut self, s: &'a PathSegment) {
        if s.ident == "PhantomData" && let PathArguments::AngleBracketed(a) = &s.arguments && let Some(GenericArgument::Type(t)) = a.args.first() { self.0 = Some(t.clone()); }
        visit::visit_path_segment(self, s);
    }
}
fn last(e: &Expr) -> String { match e { Expr::Path(p) => p.path.segments.last().unwrap().ident.to_string(), _ => String::new() } }
fn is_help(e: &Expr) -> bool {
    match e {
        Expr::Block(b) => b.block.stmts.iter().any(|s| matches!(s, Stmt::Item(Item::Struct(_)))) && matches!(b.block.stmts.last(), Some(Stmt::Expr(Expr::Reference(_), None))),
        Expr::Reference(r) => matches!(&*r.expr, Expr::Lit(ExprLit { lit: Lit::Str(_), .. })),
        _ => false,
    }
}
/// `return f(a.., if c { x } else { break 'l })` as `if c { return f(a.., x) }`.
fn push_in(mk: &dyn Fn(Expr) -> Expr, e: &Expr, l: &Lifetime) -> Option<Expr> {
    match e {
        Expr::If(i) => {
            let c = &i.cond;
            let t = push_in(mk, &Expr::Block(ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() }), l)?;
            let e = push_in(mk, &i.else_branch.as_ref()?.1, l)?;
            Some(parse_quote!(if #c { #t } else { #e }))
        }
        Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] { Stmt::Expr(e, _) => push_in(mk, e, l), _ => None },
        Expr::Break(b) if b.label.as_ref() == Some(l) && b.expr.is_none() => Some(parse_quote!({})),
        Expr::Lit(_) | Expr::Path(_) => Some(mk(e.clone())),
        _ => None,
    }
}
fn labelled(e: &Expr) -> Option<Expr> {
    let Expr::Block(b) = e else { return None };
    let l = &b.label.as_ref()?.name;
    if b.block.stmts.len() != 1 { return None; }
    let Stmt::Expr(Expr::Return(r), _) = &b.block.stmts[0] else { return None };
    let Expr::Call(c) = &**r.expr.as_ref()? else { return None };
    let (f, n) = (&c.func, c.args.len());
    let pre: Vec<&Expr> = c.args.iter().take(n - 1).collect();
    let tail = c.args.last()?;
    push_in(&|x| parse_quote!({ return #f(#(#pre,)* #x); }), tail, l)
}

impl VisitMut for Fix {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        if p.segments.len() > 1 && p.segments[0].ident == "__rt" {
            let segs: Vec<PathSegment> = p.segments.iter().skip(1).cloned().collect();
            p.segments = segs.into_iter().collect();
            p.leading_colon = None;
        }
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.qself.is_some() && let Some(q) = &mut p.qself && p.path.segments[0].ident == "__rt" {
            // `<T as __rt::Trait>::x`: the position of the trait moves with the path.
            q.position -= 1;
        }
        visit_mut::visit_expr_path_mut(self, p);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                // Checked when the definition is compiled.
                Stmt::Item(Item::Const(c)) if c.ident == "_" => {}
                // The slice of references to the places: each one, and the slice, is coerced by a call.
                Stmt::Local(l) => {
                    if let Pat::Type(t) = &l.pat && let Pat::Ident(id) = &*t.pat && let Type::Reference(r) = &*t.ty && let Type::Array(a) = &*r.elem
                        && let Some(i) = &l.init && let Expr::Reference(v) = &*i.expr && let Expr::Array(v) = &*v.expr {
                        let elem = &a.elem;
                        self.n += 1;
                        let tmp = format_ident!("__array{}", self.n);
                        let id = &id.ident;
                        let n = LitInt::new(&v.elems.len().to_string(), proc_macro2::Span::call_site());
                        let es = v.elems.iter();
                        let mut x: Stmt = parse_quote!(let mut #tmp: [#elem; #n] = [#(vx_dyn_Parsable(#es)),*];);
                        self.visit_stmt_mut(&mut x);
                        out.push(x);
                        let mut x: Stmt = parse_quote!(let #id: &mut [#elem] = vx_slice_mut(&mut #tmp););
                        self.visit_stmt_mut(&mut x);
                        out.push(x);
                        continue;
                    }
                    out.push(Stmt::Local(l));
                }
                s => out.push(s),
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if is_help(e) && matches!(e, Expr::Block(_)) { *e = parse_quote!(vx_help_fmt()); return; }
        if let Some(n) = labelled(e) { *e = n; }
        if let Expr::Call(c) = e && last(&c.func) == "new" && let Some(h) = c.args.iter_mut().nth(6) && is_help(h) { *h = parse_quote!(vx_help_fmt()); }
        if let Expr::Call(c) = e && last(&c.func) == "assert_auto_infer_value_parser_ok" {
            let mut t = TyArg(None);
            for a in &c.args { t.visit_expr(a); }
            if let Some(t) = t.0 { *e = parse_quote!(vx_parser::<#t>()); }
        }
        visit_mut::visit_expr_mut(self, e);
        let ty = self.ty.clone();
        let new: Option<Expr> = match e {
            Expr::Path(p) if p.path.is_ident("__VARIANT_INFOS") => { let f = format_ident!("__VARIANT_INFOS_{ty}"); Some(parse_quote!(#f())) }
            // `match s { "a" => x, .., _ => y }` as a chain of comparisons.
            Expr::Match(m) if m.arms.iter().any(|a| matches!(&a.pat, Pat::Lit(ExprLit { lit: Lit::Str(_), .. }))) && m.arms.iter().all(|a| a.guard.is_none() && matches!(&a.pat, Pat::Lit(ExprLit { lit: Lit::Str(_), .. }) | Pat::Wild(_))) => {
                let s = &m.expr;
                let mut out: Option<Expr> = None;
                for a in m.arms.iter().rev() {
                    let x = &a.body;
                    match (&a.pat, &out) {
                        (Pat::Wild(_), _) => out = Some(parse_quote!({ #x })),
                        (Pat::Lit(l), Some(o)) => out = Some(parse_quote!(if vx_str_eq(#s, #l) { #x } else { #o })),
                        _ => {}
                    }
                }
                out
            }
            Expr::Call(c) => {
                let f = quote!(#c).to_string();
                let n = last(&c.func);
                let a: Vec<&Expr> = c.args.iter().collect();
                match n.as_str() {
                    "run" if a.len() == 2 && f.starts_with("RunParser :: run") => { let (p, x) = (a[0], a[1]); Some(parse_quote!(#p.run(#x))) }
                    "run_unit" if a.len() == 3 => { let (p, x, y) = (a[0], a[1], a[2]); Some(parse_quote!(#p.run_unit(#x, #y))) }
                    "__erase" if a.len() == 1 => { let x = a[0]; Some(parse_quote!(vx_dyn_SubcommandPlace(#x))) }
                    "set_default" if a.len() == 2 && let Expr::Closure(cl) = a[1] && cl.inputs.is_empty() => { let (p, b) = (a[0], &cl.body); Some(parse_quote!(vx_set_default(#p, #b))) }
                    "set_default_parse" if a.len() == 2 => { let (p, b) = (a[0], a[1]); Some(parse_quote!(ParsableSized::set_default_parse(#p, #b))) }
                    _ => None,
                }
            }
            _ => None,
        };
        if let Some(n) = new { *e = n; }
    }
}
