//! Calls of functions without a contract (new helpers) are replaced by the body of the function, so that a caller is verified
//! with what the helper does.  Arguments are bound to the parameters first; a parameter of type `&mut T` is replaced by
//! its argument.  Early returns of the helper are turned into branches; a call in return position keeps them.
use crate::Func;
use proc_macro2::{Group, Ident, Span, TokenStream, TokenTree};
use quote::{format_ident, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::punctuated::Punctuated;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

/// names of methods of the standard library that are not looked up among the helpers unless the type is certain
const STD: &[&str] = &["push", "len", "get", "insert", "clone", "iter", "is_empty", "start", "end", "next", "find", "take", "map", "and_then", "remove", "pop", "last", "first",
    "contains", "unwrap", "write", "read", "lines", "chars", "as_ref", "into", "clear", "extend", "set", "add", "min", "max", "count", "any", "all", "filter", "fold", "rev", "skip", "fmt", "as_str", "unwrap_or", "or", "ok", "err", "cmp", "eq"];

#[derive(Clone)]
struct Helper { owner: Option<String>, sig: Signature, block: Block, self_ty: String, impl_generics: String }

pub fn inline_helpers(funcs: &mut Vec<Func>, known: &BTreeSet<String>) {
    let mut hs: BTreeMap<String, Helper> = BTreeMap::new();
    for f in funcs.iter() {
        if known.contains(&f.key) || known.contains(&format!("*{}{}", if f.owner.is_some() { "." } else { "" }, f.name)) { continue; }
        hs.insert(f.key.clone(), Helper { owner: f.owner.clone(), sig: f.sig.clone(), block: f.block.clone(), self_ty: f.self_ty.clone(), impl_generics: f.impl_generics.clone() });
    }
    let all: Vec<(Option<String>, String, String)> = funcs.iter().map(|f| (f.owner.clone(), f.name.clone(), f.key.clone())).collect();
    let mut n = 0usize;
    for f in funcs.iter_mut() {
        if !known.contains(&f.key) || known.contains(&format!("-{}", f.key)) { continue; }
        closures(&mut f.block, &mut n);
        if hs.is_empty() { continue; }
        for _round in 0..6 {
            let mut x = Inl { hs: &hs, all: &all, owner: f.owner.clone(), sig: f.sig.clone(), lets: BTreeMap::new(), n: &mut n, done: vec![], key: f.key.clone() };
            x.collect(&f.block);
            let ret_unit = matches!(f.sig.output, ReturnType::Default);
            x.tail_block(&mut f.block, ret_unit);
            x.visit_block_mut(&mut f.block);
            let done = x.done.clone();
            if done.is_empty() { break; }
            for d in done { let s = format!("inlined {}", d); if !f.notes.contains(&s) { f.notes.push(s); } }
        }
    }
}

/// where the value of a call goes
#[derive(Clone, Copy, PartialEq)]
enum Ctx { Value, Tail, Try }

struct Inl<'a> {
    hs: &'a BTreeMap<String, Helper>,
    all: &'a Vec<(Option<String>, String, String)>,
    owner: Option<String>,
    sig: Signature,
    lets: BTreeMap<String, Option<String>>,
    n: &'a mut usize,
    done: Vec<String>,
    key: String,
}

fn type_name(t: &Type) -> Option<String> {
    match t {
        Type::Reference(r) => type_name(&r.elem),
        Type::Path(p) => {
            let s = p.path.segments.last()?;
            if s.ident == "Box" || s.ident == "Arc" {
                if let PathArguments::AngleBracketed(a) = &s.arguments { if let Some(GenericArgument::Type(t)) = a.args.first() { return type_name(t); } }
            }
            Some(s.ident.to_string())
        }
        _ => None,
    }
}

impl<'a> Inl<'a> {
    fn collect(&mut self, b: &Block) {
        struct L<'b>(&'b mut BTreeMap<String, Option<String>>);
        impl<'b, 'c> Visit<'c> for L<'b> {
            fn visit_local(&mut self, l: &'c Local) {
                visit::visit_local(self, l);
                let (n, t) = match &l.pat {
                    Pat::Ident(i) => (i.ident.to_string(), match l.init.as_ref().map(|i| &*i.expr) {
                        Some(Expr::Struct(s)) => s.path.segments.last().map(|s| s.ident.to_string()),
                        Some(Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. })) => match &**expr { Expr::Path(p) if p.path.get_ident().is_some() => self.0.get(&p.path.get_ident().unwrap().to_string()).cloned().flatten(), _ => None },
                        Some(Expr::MethodCall(m)) if m.method == "clone" && m.args.is_empty() => match &*m.receiver { Expr::Path(p) if p.path.get_ident().is_some() => self.0.get(&p.path.get_ident().unwrap().to_string()).cloned().flatten(), _ => None },
                        Some(Expr::Call(c)) => match &*c.func { Expr::Path(p) if p.path.segments.len() == 2 && p.path.segments[1].ident == "new" => Some(p.path.segments[0].ident.to_string()), _ => None },
                        _ => None,
                    }),
                    Pat::Type(t) => match &*t.pat { Pat::Ident(i) => (i.ident.to_string(), type_name(&t.ty)), _ => return },
                    _ => return,
                };
                let t = match self.0.get(&n) { Some(o) if *o != t => None, _ => t };
                self.0.insert(n, t);
            }
        }
        for i in &self.sig.inputs { if let FnArg::Typed(t) = i { if let Pat::Ident(p) = &*t.pat { self.lets.insert(p.ident.to_string(), type_name(&t.ty)); } } }
        L(&mut self.lets).visit_block(b);
    }
    fn ty(&self, e: &Expr) -> Option<String> {
        match e {
            Expr::Path(p) => { let n = p.path.get_ident()?.to_string(); if n == "self" { self.owner.clone() } else { self.lets.get(&n).cloned().flatten() } }
            Expr::Paren(p) => self.ty(&p.expr),
            Expr::Reference(r) => self.ty(&r.expr),
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => self.ty(expr),
            _ => None,
        }
    }
    fn method(&self, m: &ExprMethodCall) -> Option<String> {
        let name = m.method.to_string();
        let cands: Vec<&String> = self.all.iter().filter(|(o, n, _)| o.is_some() && *n == name).map(|(_, _, k)| k).collect();
        if cands.is_empty() { return None; }
        let key = match self.ty(&m.receiver) {
            Some(t) => { let k = format!("{}::{}", t, name); if self.hs.contains_key(&k) { k } else { return None; } }
            None => { if cands.len() != 1 || STD.contains(&name.as_str()) { return None; } cands[0].clone() }
        };
        let h = self.hs.get(&key)?;
        // the type of the receiver is checked where it is bound to a name; a place that is changed has to be known
        if self.ty(&m.receiver).is_none() && h.sig.receiver().map_or(true, |r| r.mutability.is_some() || !h.impl_generics.trim().is_empty()) { return None; }
        if h.sig.receiver().is_none() || h.sig.inputs.len() != m.args.len() + 1 { return None; }
        Some(key)
    }
    fn path(&self, c: &ExprCall) -> Option<String> {
        let p = match &*c.func { Expr::Path(p) if p.qself.is_none() => &p.path, _ => return None };
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let key = match segs.len() {
            1 => { if self.lets.contains_key(&segs[0]) { return None; } segs[0].clone() }
            2 => format!("{}::{}", if segs[0] == "Self" { self.owner.clone()? } else { segs[0].clone() }, segs[1]),
            _ => return None,
        };
        let h = self.hs.get(&key)?;
        if h.sig.inputs.len() != c.args.len() { return None; }
        Some(key)
    }
    /// the call replaced, when the expression is one
    fn call(&mut self, e: &Expr, cx: Ctx) -> Option<Expr> {
        let (key, recv, args): (String, Option<Expr>, Vec<Expr>) = match e {
            Expr::MethodCall(m) => (self.method(m)?, Some((*m.receiver).clone()), m.args.iter().cloned().collect()),
            Expr::Call(c) => {
                let k = self.path(c)?;
                let mut a: Vec<Expr> = c.args.iter().cloned().collect();
                if self.hs[&k].sig.receiver().is_some() {
                    let r = a.remove(0);
                    let r = match r { Expr::Reference(r) => (*r.expr).clone(), x => x };
                    (k, Some(r), a)
                } else { (k, None, a) }
            }
            _ => return None,
        };
        if key == self.key { return None; }
        let h = self.hs[&key].clone();
        // a recursive helper stays a call
        if reaches(self.hs, &key, &key, &mut BTreeSet::new()) { return None; }
        *self.n += 1;
        let r = expand(&h, recv, args, cx, *self.n, &self.sig, &self.owner)?;
        self.done.push(key);
        Some(r)
    }
    fn tail_block(&mut self, b: &mut Block, unit: bool) {
        if let Some(last) = b.stmts.last_mut() {
            match last {
                Stmt::Expr(e, None) => self.tail_expr(e, unit),
                Stmt::Expr(e, Some(_)) if unit => self.tail_expr(e, unit),
                _ => {}
            }
        }
    }
    fn tail_expr(&mut self, e: &mut Expr, unit: bool) {
        match e {
            Expr::If(i) => { self.tail_block(&mut i.then_branch, unit); if let Some((_, x)) = &mut i.else_branch { self.tail_expr(x, unit); } }
            Expr::Match(m) => for a in m.arms.iter_mut() { self.tail_expr(&mut a.body, unit); },
            Expr::Block(b) if b.label.is_none() => self.tail_block(&mut b.block, unit),
            Expr::Paren(p) => self.tail_expr(&mut p.expr, unit),
            Expr::Return(r) => if let Some(x) = &mut r.expr { self.tail_expr(x, unit) },
            Expr::Call(_) | Expr::MethodCall(_) => if let Some(r) = self.call(e, Ctx::Tail) { *e = r; },
            _ => {}
        }
    }
}
impl<'a> VisitMut for Inl<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Closure(c) = e {
            // `return` inside a closure leaves the closure
            let s = std::mem::replace(&mut self.sig.output, ReturnType::Default);
            self.visit_expr_mut(&mut c.body);
            self.sig.output = s;
            return;
        }
        if let Expr::Return(r) = e { if let Some(x) = &mut r.expr { self.tail_expr(x, false); } }
        if let Expr::Try(t) = e {
            if let Some(r) = self.call(&t.expr, Ctx::Try) { *e = r; return; }
        }
        visit_mut::visit_expr_mut(self, e);
        if matches!(e, Expr::Call(_) | Expr::MethodCall(_)) { if let Some(r) = self.call(e, Ctx::Value) { *e = r; } }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let n = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        if !["vec", "write", "writeln", "try", "assert", "format"].contains(&n.as_str()) { return; }
        if let Ok(mut v) = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated) {
            let k = self.done.len();
            for x in v.iter_mut() { self.visit_expr_mut(x); }
            if self.done.len() != k { m.tokens = v.to_token_stream(); }
        }
    }
}

fn reaches(hs: &BTreeMap<String, Helper>, from: &str, to: &str, seen: &mut BTreeSet<String>) -> bool {
    if !seen.insert(from.to_string()) { return false; }
    struct Calls { v: BTreeSet<String> }
    impl<'c> Visit<'c> for Calls {
        fn visit_expr_call(&mut self, c: &'c ExprCall) {
            visit::visit_expr_call(self, c);
            if let Expr::Path(p) = &*c.func { self.v.insert(p.path.segments.last().unwrap().ident.to_string()); }
        }
        fn visit_expr_method_call(&mut self, c: &'c ExprMethodCall) { visit::visit_expr_method_call(self, c); self.v.insert(c.method.to_string()); }
    }
    let mut c = Calls { v: BTreeSet::new() };
    c.visit_block(&hs[from].block);
    for (k, h) in hs {
        let name = k.rsplit("::").next().unwrap();
        if c.v.contains(name) && !(STD.contains(&name) && h.owner.is_some() && h.owner != hs[from].owner) {
            if k == to || reaches(hs, k, to, seen) { return true; }
        }
    }
    false
}

// ---------------------------------------------------------------- names
/// renames an identifier wherever it stands alone (not as a field or method name)
struct Ren<'a> { m: &'a BTreeMap<String, String> }
impl<'a> Ren<'a> {
    fn id(&self, i: &mut Ident) { if let Some(n) = self.m.get(&i.to_string()) { *i = Ident::new(n, Span::call_site()); } }
    fn toks(&self, t: TokenStream) -> TokenStream {
        let mut prev_dot = false;
        t.into_iter().map(|x| match x {
            TokenTree::Ident(mut i) => { if !prev_dot { self.id(&mut i); } prev_dot = false; TokenTree::Ident(i) }
            TokenTree::Group(g) => { prev_dot = false; TokenTree::Group(Group::new(g.delimiter(), self.toks(g.stream()))) }
            TokenTree::Punct(p) => { prev_dot = p.as_char() == '.'; TokenTree::Punct(p) }
            x => { prev_dot = false; x }
        }).collect()
    }
}
impl<'a> VisitMut for Ren<'a> {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { self.id(&mut p.ident); visit_mut::visit_pat_ident_mut(self, p); }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) { if p.qself.is_none() && p.path.segments.len() == 1 { self.id(&mut p.path.segments[0].ident); } }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) { visit_mut::visit_field_value_mut(self, f); if f.colon_token.is_none() { f.colon_token = Some(Default::default()); } }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) { if f.colon_token.is_none() { f.colon_token = Some(Default::default()); } visit_mut::visit_field_pat_mut(self, f); }
    fn visit_macro_mut(&mut self, m: &mut Macro) { m.tokens = self.toks(m.tokens.clone()); }
}
struct Bound { v: BTreeSet<String> }
impl<'c> Visit<'c> for Bound { fn visit_pat_ident(&mut self, p: &'c PatIdent) { self.v.insert(p.ident.to_string()); visit::visit_pat_ident(self, p); } }
fn bound_block(b: &Block) -> BTreeSet<String> { let mut x = Bound { v: BTreeSet::new() }; x.visit_block(b); x.v }
fn idents(t: TokenStream, o: &mut BTreeSet<String>) {
    for x in t { match x { TokenTree::Ident(i) => { o.insert(i.to_string()); } TokenTree::Group(g) => idents(g.stream(), o), _ => {} } }
}
fn idents_of<T: ToTokens>(t: &T) -> BTreeSet<String> { let mut o = BTreeSet::new(); idents(t.to_token_stream(), &mut o); o }

/// replaces a variable that is a mutable reference by the place it refers to
struct Subst { name: String, place: Expr, by_ref: bool, bad: bool }
impl Subst {
    fn is(&self, e: &Expr) -> bool { match e { Expr::Path(p) => p.path.is_ident(&self.name), Expr::Paren(p) => self.is(&p.expr), _ => false } }
}
impl VisitMut for Subst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if !self.by_ref {
            // the argument is a mutable reference itself
            if self.is(e) { *e = self.place.clone(); return; }
            visit_mut::visit_expr_mut(self, e);
            return;
        }
        match e {
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) if self.is(expr) => { *e = self.place.clone(); return; }
            Expr::Field(f) if self.is(&f.base) => { f.base = Box::new(self.place.clone()); return; }
            Expr::Index(f) if self.is(&f.expr) => { f.expr = Box::new(self.place.clone()); self.visit_expr_mut(&mut f.index); return; }
            Expr::MethodCall(m) if self.is(&m.receiver) => { m.receiver = Box::new(self.place.clone()); for a in m.args.iter_mut() { self.visit_expr_mut(a); } return; }
            _ => {}
        }
        if self.is(e) { let p = self.place.clone(); *e = parse_quote!(&mut #p); return; }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if !idents_of(&m.tokens).contains(&self.name) { return; }
        match m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated) {
            Ok(mut v) => { for x in v.iter_mut() { self.visit_expr_mut(x); } m.tokens = v.to_token_stream(); }
            Err(_) => self.bad = true,
        }
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) { if f.colon_token.is_none() { f.colon_token = Some(Default::default()); } visit_mut::visit_field_value_mut(self, f); }
}
struct Lifetimes;
impl VisitMut for Lifetimes {
    fn visit_type_reference_mut(&mut self, r: &mut TypeReference) { r.lifetime = None; visit_mut::visit_type_reference_mut(self, r); }
    fn visit_angle_bracketed_generic_arguments_mut(&mut self, a: &mut AngleBracketedGenericArguments) {
        visit_mut::visit_angle_bracketed_generic_arguments_mut(self, a);
        let v: Vec<GenericArgument> = a.args.iter().filter(|x| !matches!(x, GenericArgument::Lifetime(_))).cloned().collect();
        a.args = v.into_iter().collect();
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        for s in p.segments.iter_mut() { if let PathArguments::AngleBracketed(a) = &s.arguments { if a.args.is_empty() { s.arguments = PathArguments::None; } } }
    }
}
struct SelfTy { to: String }
impl VisitMut for SelfTy { fn visit_path_mut(&mut self, p: &mut Path) { visit_mut::visit_path_mut(self, p); if p.segments[0].ident == "Self" { p.segments[0].ident = Ident::new(&self.to, Span::call_site()); } } }

fn place(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.path.get_ident().is_some(),
        Expr::Field(f) => place(&f.base),
        Expr::Paren(p) => place(&p.expr),
        Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => place(expr),
        _ => false,
    }
}
fn root(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        Expr::Field(f) => root(&f.base),
        Expr::Paren(p) => root(&p.expr),
        Expr::Unary(u) => root(&u.expr),
        Expr::Index(i) => root(&i.expr),
        _ => None,
    }
}
fn is_mut_var(e: &Expr, sig: &Signature) -> bool {
    if let Expr::Path(p) = e {
        for i in &sig.inputs {
            match i {
                FnArg::Typed(t) => if let Pat::Ident(n) = &*t.pat { if p.path.is_ident(&n.ident) { return matches!(&*t.ty, Type::Reference(r) if r.mutability.is_some()); } },
                FnArg::Receiver(r) => if p.path.is_ident("self") { return r.reference.is_some() && r.mutability.is_some(); },
            }
        }
    }
    false
}

fn expand(h: &Helper, recv: Option<Expr>, args: Vec<Expr>, cx: Ctx, n: usize, sig: &Signature, owner: &Option<String>) -> Option<Expr> {
    let mut block = h.block.clone();
    let mut hsig = h.sig.clone();
    let mut generics: BTreeSet<String> = idents_of(&hsig.generics);
    if let Ok(ts) = h.impl_generics.parse::<TokenStream>() { idents(ts, &mut generics); }
    // the type of the helper under its own name
    if let Some(o) = &h.owner {
        if owner.as_ref() != Some(o) {
            let mut s = SelfTy { to: o.clone() };
            s.visit_block_mut(&mut block);
            s.visit_signature_mut(&mut hsig);
        }
    }
    // parameters
    let mut params: Vec<(Pat, Type, Expr)> = vec![];
    let mut subst: Vec<(String, Expr, bool)> = vec![];
    let mut ai = args.into_iter();
    for i in hsig.inputs.iter() {
        match i {
            FnArg::Receiver(_) => {}
            FnArg::Typed(t) => {
                let a = ai.next()?;
                let m = matches!(&*t.ty, Type::Reference(r) if r.mutability.is_some());
                if m {
                    let name = match &*t.pat { Pat::Ident(i) => i.ident.to_string(), _ => return None };
                    match a {
                        Expr::Reference(r) if r.mutability.is_some() => {
                            match &*r.expr {
                                Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) if place(expr) => subst.push((name, (**expr).clone(), false)),
                                x if place(x) => subst.push((name, x.clone(), true)),
                                _ => return None,
                            }
                        }
                        x if place(&x) => subst.push((name, x, false)),
                        _ => return None,
                    }
                } else { params.push(((*t.pat).clone(), (*t.ty).clone(), a)); }
            }
        }
    }
    // names bound inside the helper must not hide what replaces a parameter
    let mut roots: BTreeSet<String> = subst.iter().filter_map(|(_, e, _)| root(e)).collect();
    let hself = format!("__h{}_self", n);
    let mut selfb: Option<Stmt> = None;
    if let Some(r) = hsig.receiver() {
        let rv = recv?;
        let same = matches!(&rv, Expr::Path(p) if p.path.is_ident("self"));
        if !same {
            let id = Ident::new(&hself, Span::call_site());
            let t: Option<Type> = if generics.is_empty() || h.impl_generics.trim().is_empty() { parse_str(&h.self_ty).ok() } else { None };
            if r.reference.is_some() && r.mutability.is_some() {
                if !place(&rv) { return None; }
                let by = !is_mut_var(&rv, sig);
                if let Some(x) = root(&rv) { roots.insert(x); }
                subst.push(("self".into(), rv, by));
            } else {
                let mut m = BTreeMap::new();
                m.insert("self".to_string(), hself.clone());
                Ren { m: &m }.visit_block_mut(&mut block);
                selfb = Some(match (r.reference.is_some(), t) {
                    (true, Some(mut t)) => { Lifetimes.visit_type_mut(&mut t); parse_quote!(let #id: & #t = &#rv;) }
                    (true, None) => parse_quote!(let #id = &#rv;),
                    (false, Some(mut t)) => { Lifetimes.visit_type_mut(&mut t); if r.mutability.is_some() { parse_quote!(let mut #id: #t = #rv;) } else { parse_quote!(let #id: #t = #rv;) } }
                    (false, None) => if r.mutability.is_some() { parse_quote!(let mut #id = #rv;) } else { parse_quote!(let #id = #rv;) },
                });
            }
        }
    }
    let mut ren: BTreeMap<String, String> = BTreeMap::new();
    let mut names = bound_block(&block);
    for (p, _, _) in &params { let mut b = Bound { v: BTreeSet::new() }; b.visit_pat(p); names.extend(b.v); }
    for x in &names { if roots.contains(x) { ren.insert(x.clone(), format!("__h{}_{}", n, x)); } }
    // a parameter that is replaced may have the name of another local of the helper
    for (s, _, _) in subst.iter_mut() { if s != "self" { let t = format!("__h{}_p_{}", n, s); if names.contains(s) { return None; } ren.insert(s.clone(), t.clone()); *s = t; } }
    {
        let mut r = Ren { m: &ren };
        r.visit_block_mut(&mut block);
        for (p, _, _) in params.iter_mut() { r.visit_pat_mut(p); }
    }
    for (s, e, by) in subst {
        let mut x = Subst { name: s, place: e, by_ref: by, bad: false };
        x.visit_block_mut(&mut block);
        if x.bad { return None; }
    }
    // early returns
    let unit = matches!(hsig.output, ReturnType::Default);
    let opt = matches!(&hsig.output, ReturnType::Type(_, t) if type_name(t).as_deref() == Some("Option"));
    let body: Block = match cx {
        Ctx::Tail => block,
        Ctx::Value => { let mut c = Conv { opt, keep: false, n, k: 0 }; c.conv(block.stmts, None, unit)? }
        Ctx::Try => {
            let mut c = Conv { opt, keep: true, n, k: 0 };
            let b = c.conv(block.stmts, None, unit)?;
            unwrap_block(b, opt)?
        }
    };
    // arguments are evaluated before any parameter is bound
    let mut stmts: Vec<Stmt> = vec![];
    let mut lets: Vec<Stmt> = vec![];
    if let Some(s) = selfb { stmts.push(s); }
    let mut bound: BTreeSet<String> = BTreeSet::new();
    for (p, _, _) in &params { let mut b = Bound { v: BTreeSet::new() }; b.visit_pat(p); bound.extend(b.v); }
    for (k, (p, t, a)) in params.into_iter().enumerate() {
        // a variable handed on under its own name
        let clash = idents_of(&a).iter().any(|x| bound.contains(x));
        let mut ty = t.clone();
        Lifetimes.visit_type_mut(&mut ty);
        let has_gen = idents_of(&t).iter().any(|x| generics.contains(x) || x == "impl" || x == "dyn" || x == "Self");
        let tmp: Ident = format_ident!("__h{}_{}", n, k);
        let v: Expr = if clash && !matches!(&p, Pat::Ident(i) if expr_is(&a, &i.ident)) { stmts.push(if has_gen { parse_quote!(let #tmp = #a;) } else { parse_quote!(let #tmp: #ty = #a;) }); parse_quote!(#tmp) } else { a };
        if let (Pat::Ident(i), Expr::Path(x)) = (&p, &v) {
            if i.mutability.is_none() && i.by_ref.is_none() && x.path.is_ident(&i.ident) { continue; }
        }
        lets.push(if has_gen { parse_quote!(let #p = #v;) } else { parse_quote!(let #p: #ty = #v;) });
    }
    stmts.extend(lets);
    if stmts.is_empty() && body.stmts.len() == 1 {
        if let Stmt::Expr(e, None) = &body.stmts[0] { return Some(if matches!(e, Expr::Path(_) | Expr::Call(_) | Expr::MethodCall(_) | Expr::Lit(_) | Expr::Field(_) | Expr::Struct(_) | Expr::Match(_) | Expr::If(_)) { parse_quote!((#e)) } else { parse_quote!({ #e }) }); }
    }
    stmts.extend(body.stmts);
    Some(parse_quote!({ #(#stmts)* }))
}
fn expr_is(e: &Expr, i: &Ident) -> bool { matches!(e, Expr::Path(p) if p.path.is_ident(i)) }

// ---------------------------------------------------------------- early returns as branches
struct Ctl { keep: bool, r: bool }
impl<'c> Visit<'c> for Ctl {
    fn visit_expr(&mut self, e: &'c Expr) {
        match e {
            Expr::Return(r) => { if !(self.keep && r.expr.as_ref().map_or(false, |x| is_err(x))) { self.r = true; } else { visit::visit_expr(self, e); } }
            Expr::Try(_) => { if !self.keep { self.r = true; } visit::visit_expr(self, e); }
            Expr::Closure(_) => {}
            _ => visit::visit_expr(self, e),
        }
    }
    fn visit_macro(&mut self, m: &'c Macro) {
        let t = m.tokens.to_string();
        if t.contains("return") || t.contains('?') && m.path.is_ident("vec") || m.path.is_ident("try") { self.r = true; }
    }
}
fn is_err(e: &Expr) -> bool {
    match e { Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Err")), Expr::Path(p) => p.path.is_ident("None"), _ => false }
}
struct Conv { opt: bool, keep: bool, n: usize, k: usize }
impl Conv {
    fn has_s(&self, s: &Stmt) -> bool { let mut c = Ctl { keep: self.keep, r: false }; c.visit_stmt(s); c.r }
    fn has_e(&self, e: &Expr) -> bool { let mut c = Ctl { keep: self.keep, r: false }; c.visit_expr(e); c.r }
    /// stmts followed by rest (statements and value), without early returns
    fn conv(&mut self, stmts: Vec<Stmt>, rest: Option<&Vec<Stmt>>, unit: bool) -> Option<Block> {
        let mut v = stmts;
        if let Some(r) = rest {
            if !r.is_empty() {
                let b = bound_block(&Block { brace_token: Default::default(), stmts: v.clone() });
                let mut u = BTreeSet::new();
                for s in r { u.extend(idents_of(s)); }
                if b.iter().any(|x| u.contains(x)) { return None; }
                if let Some(Stmt::Expr(_, semi @ None)) = v.last_mut() { *semi = Some(Default::default()); }
                v.extend(r.iter().cloned());
            }
        }
        let i = match v.iter().position(|s| self.has_s(s)) { Some(i) => i, None => return Some(Block { brace_token: Default::default(), stmts: v }) };
        let after: Vec<Stmt> = v.split_off(i + 1);
        let s = v.pop().unwrap();
        let e: Expr = match s {
            Stmt::Expr(e, semi) => { let last = after.is_empty() && semi.is_none(); self.exp(e, after, unit, last)? }
            Stmt::Local(l) => self.local(l, after, unit)?,
            Stmt::Macro(_) | Stmt::Item(_) => return None,
        };
        v.push(Stmt::Expr(e, None));
        Some(Block { brace_token: Default::default(), stmts: v })
    }
    fn exp(&mut self, e: Expr, after: Vec<Stmt>, unit: bool, last: bool) -> Option<Expr> {
        let rest = if last { None } else { Some(&after) };
        match e {
            Expr::Return(r) => Some(match r.expr { Some(x) => { if self.has_e(&x) { return self.exp(*x, vec![], unit, true); } *x } None => parse_quote!(()) }),
            Expr::If(mut i) => {
                if self.has_e(&i.cond) { return None; }
                let dup = !self.ends(&i.then_branch.stmts) && !i.else_branch.as_ref().map_or(false, |(_, x)| self.ends_e(x));
                if dup && !last && has_loop(&after) { return None; }
                i.then_branch = self.branch(i.then_branch.stmts, rest, unit)?;
                let el: Block = match i.else_branch.take() { None => self.branch(vec![], rest, unit)?, Some((_, x)) => match *x { Expr::Block(b) => self.branch(b.block.stmts, rest, unit)?, x => self.branch(vec![Stmt::Expr(x, None)], rest, unit)? } };
                i.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: el }))));
                Some(Expr::If(i))
            }
            Expr::Match(mut m) => {
                if self.has_e(&m.expr) { return None; }
                let open = m.arms.iter().filter(|a| !self.ends_e(&a.body)).count();
                if open > 1 && !last && has_loop(&after) { return None; }
                for a in m.arms.iter_mut() {
                    if a.guard.as_ref().map_or(false, |(_, g)| self.has_e(g)) { return None; }
                    // names of the pattern must not capture what follows
                    if !last && !self.ends_e(&a.body) { let mut b = Bound { v: BTreeSet::new() }; b.visit_pat(&a.pat); let mut u = BTreeSet::new(); for s in &after { u.extend(idents_of(s)); } if b.v.iter().any(|x| u.contains(x)) { return None; } }
                    let st = match (*a.body).clone() { Expr::Block(b) if b.label.is_none() => b.block.stmts, x => vec![Stmt::Expr(x, None)] };
                    let b = self.branch(st, rest, unit)?;
                    a.body = Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }));
                    a.comma = Some(Default::default());
                }
                Some(Expr::Match(m))
            }
            Expr::Block(b) if b.label.is_none() => { let x = self.conv(b.block.stmts, rest, unit)?; Some(parse_quote!(#x)) }
            Expr::Paren(p) => self.exp(*p.expr, after, unit, last),
            Expr::Try(t) if !self.has_e(&t.expr) && !last => {
                let x = &*t.expr;
                let b = self.conv(after.clone(), None, unit)?;
                Some(if self.opt { parse_quote!(match #x { Some(_) => #b, None => None }) } else { let e = format_ident!("__h{}_e", self.n); parse_quote!(match #x { Ok(_) => #b, Err(#e) => Err(#e) }) })
            }
            // the first argument with a question mark is taken out
            Expr::Call(mut c) if last && matches!(&*c.func, Expr::Path(_)) => {
                let k = c.args.iter().position(|a| self.has_e(a))?;
                self.k += 1;
                let id = format_ident!("__h{}_t{}", self.n, self.k);
                for (j, a) in c.args.iter().enumerate() { if j < k && !matches!(a, Expr::Path(_) | Expr::Lit(_)) { return None; } }
                let a = c.args[k].clone();
                c.args[k] = parse_quote!(#id);
                let l: Stmt = parse_quote!(let #id = #a;);
                let l = match l { Stmt::Local(l) => l, _ => return None };
                self.local(l, vec![Stmt::Expr(Expr::Call(c), None)], unit)
            }
            _ => None,
        }
    }
    fn local(&mut self, l: Local, after: Vec<Stmt>, unit: bool) -> Option<Expr> {
        let pat = l.pat.clone();
        let init = l.init?;
        if let Some((_, d)) = init.diverge {
            if self.has_e(&init.expr) { return None; }
            let x = &*init.expr;
            let b = self.conv(after, None, unit)?;
            let d = match *d { Expr::Block(b) => b.block.stmts, x => vec![Stmt::Expr(x, None)] };
            let d = self.conv(d, None, unit)?;
            return Some(parse_quote!(match #x { #pat => #b, _ => #d }));
        }
        match *init.expr {
            Expr::Try(t) if !self.has_e(&t.expr) => {
                let x = &*t.expr;
                let v = format_ident!("__h{}_v", self.n);
                let mut st: Vec<Stmt> = vec![parse_quote!(let #pat = #v;)];
                st.extend(after);
                let b = self.conv(st, None, unit)?;
                Some(if self.opt { parse_quote!(match #x { Some(#v) => #b, None => None }) } else { let e = format_ident!("__h{}_e", self.n); parse_quote!(match #x { Ok(#v) => #b, Err(#e) => Err(#e) }) })
            }
            Expr::Match(mut m) => {
                if self.has_e(&m.expr) { return None; }
                let open = m.arms.iter().filter(|a| !self.ends_e(&a.body)).count();
                if open > 1 && has_loop(&after) { return None; }
                for a in m.arms.iter_mut() {
                    a.comma = Some(Default::default());
                    if self.ends_e(&a.body) {
                        let st = match (*a.body).clone() { Expr::Block(b) if b.label.is_none() => b.block.stmts, x => vec![Stmt::Expr(x, None)] };
                        let b = self.conv(st, None, unit)?;
                        a.body = Box::new(parse_quote!(#b));
                        continue;
                    }
                    // pattern names would be visible in what follows
                    let v = (*a.body).clone();
                    let mut b = Bound { v: BTreeSet::new() };
                    b.visit_pat(&a.pat);
                    let mut own = Bound { v: BTreeSet::new() };
                    own.visit_pat(&pat);
                    let mut u = BTreeSet::new();
                    for s in &after { u.extend(idents_of(s)); }
                    if b.v.iter().any(|x| u.contains(x) && !own.v.contains(x)) { return None; }
                    let mut st: Vec<Stmt> = vec![parse_quote!(let #pat = #v;)];
                    st.extend(after.iter().cloned());
                    let b = self.conv(st, None, unit)?;
                    a.body = Box::new(parse_quote!(#b));
                }
                Some(Expr::Match(m))
            }
            Expr::If(mut i) => {
                if self.has_e(&i.cond) { return None; }
                let (_, el) = i.else_branch.take()?;
                let el = match *el { Expr::Block(b) => b.block, _ => return None };
                let open = [&i.then_branch, &el].iter().filter(|b| !self.ends(&b.stmts)).count();
                if open > 1 && has_loop(&after) { return None; }
                let mut mk = |s: &mut Self, b: Block| -> Option<Block> {
                    if s.ends(&b.stmts) { return s.conv(b.stmts, None, unit); }
                    let mut st: Vec<Stmt> = vec![parse_quote!(let #pat = #b;)];
                    st.extend(after.iter().cloned());
                    s.conv(st, None, unit)
                };
                i.then_branch = mk(self, i.then_branch.clone())?;
                let e = mk(self, el)?;
                i.else_branch = Some((Default::default(), Box::new(parse_quote!(#e))));
                Some(Expr::If(i))
            }
            Expr::Block(b) if b.label.is_none() => {
                // let p = { s; v } with an early return in s
                let mut st = b.block.stmts;
                let names = bound_block(&Block { brace_token: Default::default(), stmts: st.clone() });
                let mut u = BTreeSet::new();
                for s in &after { u.extend(idents_of(s)); }
                if names.iter().any(|x| u.contains(x)) { return None; }
                let v = match st.pop()? { Stmt::Expr(e, None) => e, _ => return None };
                st.push(parse_quote!(let #pat = #v;));
                st.extend(after);
                let b = self.conv(st, None, unit)?;
                Some(parse_quote!(#b))
            }
            _ => None,
        }
    }
    fn branch(&mut self, st: Vec<Stmt>, rest: Option<&Vec<Stmt>>, unit: bool) -> Option<Block> {
        if self.ends(&st) { self.conv(st, None, unit) } else { self.conv(st, rest, unit) }
    }
    /// the statements always leave the helper
    fn ends(&self, s: &[Stmt]) -> bool { match s.last() { Some(Stmt::Expr(e, _)) => self.ends_e(e), _ => false } }
    fn ends_e(&self, e: &Expr) -> bool {
        match e {
            Expr::Return(_) => true,
            Expr::Block(b) => self.ends(&b.block.stmts),
            Expr::If(i) => self.ends(&i.then_branch.stmts) && i.else_branch.as_ref().map_or(false, |(_, x)| self.ends_e(x)),
            Expr::Match(m) => !m.arms.is_empty() && m.arms.iter().all(|a| self.ends_e(&a.body)),
            _ => false,
        }
    }
}
fn has_loop(s: &[Stmt]) -> bool {
    struct L(bool);
    impl<'c> Visit<'c> for L {
        fn visit_expr(&mut self, e: &'c Expr) {
            match e { Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_) => self.0 = true, Expr::MethodCall(m) => { let n = m.method.to_string(); if ["iter", "chars", "any", "all", "fold", "collect", "lines", "for_each"].contains(&n.as_str()) { self.0 = true; } } _ => {} }
            visit::visit_expr(self, e);
        }
    }
    let mut l = L(false);
    for x in s { l.visit_stmt(x); }
    l.0
}
/// the value of a helper whose result is followed by `?`
fn unwrap_block(mut b: Block, opt: bool) -> Option<Block> {
    match b.stmts.pop()? {
        Stmt::Expr(e, None) => { let x = unwrap_expr(e, opt)?; b.stmts.push(Stmt::Expr(x, None)); Some(b) }
        _ => None,
    }
}
fn unwrap_expr(e: Expr, opt: bool) -> Option<Expr> {
    Some(match e {
        Expr::Call(c) if !opt && matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Ok")) => c.args[0].clone(),
        Expr::Call(c) if opt && matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Some")) => c.args[0].clone(),
        e if is_err(&e) => parse_quote!(return #e),
        Expr::Block(b) if b.label.is_none() => { let x = unwrap_block(b.block, opt)?; parse_quote!(#x) }
        Expr::Paren(p) => unwrap_expr(*p.expr, opt)?,
        Expr::If(mut i) => {
            i.then_branch = unwrap_block(i.then_branch, opt)?;
            let (_, el) = i.else_branch.take()?;
            let x = unwrap_expr(*el, opt)?;
            let x: Expr = match x { Expr::Block(_) | Expr::If(_) => x, x => parse_quote!({ #x }) };
            i.else_branch = Some((Default::default(), Box::new(x)));
            Expr::If(i)
        }
        Expr::Match(mut m) => {
            for a in m.arms.iter_mut() { a.body = Box::new(unwrap_expr((*a.body).clone(), opt)?); a.comma = Some(Default::default()); }
            Expr::Match(m)
        }
        Expr::Return(r) => Expr::Return(r),
        e => parse_quote!((#e)?),
    })
}

// ---------------------------------------------------------------- closures bound to a name and only called
fn closures(b: &mut Block, n: &mut usize) {
    struct Find { v: Vec<(String, ExprClosure)> }
    impl<'c> Visit<'c> for Find {
        fn visit_local(&mut self, l: &'c Local) {
            visit::visit_local(self, l);
            if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) { if let Expr::Closure(c) = &*init.expr { self.v.push((i.ident.to_string(), c.clone())); } }
        }
    }
    let mut f = Find { v: vec![] };
    f.visit_block(b);
    for (name, c) in f.v.clone() {
        if f.v.iter().filter(|(x, _)| *x == name).count() != 1 { continue; }
        // every use of the name is a call
        struct Uses<'a> { name: &'a str, calls: usize, all: usize }
        impl<'a, 'c> Visit<'c> for Uses<'a> {
            fn visit_expr_call(&mut self, c: &'c ExprCall) { if let Expr::Path(p) = &*c.func { if p.path.is_ident(self.name) { self.calls += 1; } } visit::visit_expr_call(self, c); }
            fn visit_expr_path(&mut self, p: &'c ExprPath) { if p.path.is_ident(self.name) { self.all += 1; } }
            fn visit_pat_ident(&mut self, p: &'c PatIdent) { if p.ident == self.name { self.all += 1000; } }
            fn visit_macro(&mut self, m: &'c Macro) { if idents_of(&m.tokens).contains(self.name) { self.all += 10000; } }
        }
        let mut u = Uses { name: &name, calls: 0, all: 0 };
        u.visit_block(b);
        if u.all != u.calls + 1000 || c.capture.is_some() { continue; }
        // names that the body takes from outside must mean the same at the calls
        let mut inner = Bound { v: BTreeSet::new() };
        for p in &c.inputs { inner.visit_pat(p); }
        let mut free = idents_of(&c.body);
        for x in &inner.v { free.remove(x); }
        let mut cnt: BTreeMap<String, usize> = BTreeMap::new();
        struct Cnt<'a> { m: &'a mut BTreeMap<String, usize> }
        impl<'a, 'c> Visit<'c> for Cnt<'a> { fn visit_pat_ident(&mut self, p: &'c PatIdent) { *self.m.entry(p.ident.to_string()).or_insert(0) += 1; visit::visit_pat_ident(self, p); } }
        Cnt { m: &mut cnt }.visit_block(b);
        if free.iter().any(|x| cnt.get(x).map_or(false, |k| *k > 1)) { continue; }
        // parameters with types
        let mut inputs: Punctuated<FnArg, Token![,]> = Punctuated::new();
        for p in &c.inputs {
            let (pt, ty): (Pat, Type) = match p { Pat::Type(t) => ((*t.pat).clone(), (*t.ty).clone()), p => (p.clone(), parse_quote!(impl Sized)) };
            inputs.push(parse_quote!(#pt: #ty));
        }
        let out = c.output.clone();
        let mut sig: Signature = parse_quote!(fn f(#inputs));
        sig.output = match out { ReturnType::Default => parse_quote!(-> impl Sized), o => o };
        let block: Block = match &*c.body { Expr::Block(b) if b.label.is_none() => b.block.clone(), e => parse_quote!({ #e }) };
        let h = Helper { owner: None, sig, block, self_ty: String::new(), impl_generics: String::new() };
        struct Rep<'a> { name: &'a str, h: &'a Helper, n: &'a mut usize, fail: bool }
        impl<'a> VisitMut for Rep<'a> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                visit_mut::visit_expr_mut(self, e);
                if let Expr::Call(c) = e {
                    if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(self.name)) {
                        *self.n += 1;
                        let s: Signature = parse_quote!(fn f());
                        match expand(self.h, None, c.args.iter().cloned().collect(), Ctx::Value, *self.n, &s, &None) { Some(x) => *e = x, None => self.fail = true }
                    }
                }
            }
        }
        let mut copy = b.clone();
        let mut r = Rep { name: &name, h: &h, n, fail: false };
        r.visit_block_mut(&mut copy);
        if r.fail { continue; }
        // the closure itself is gone
        struct Drop<'a>(&'a str);
        impl<'a> VisitMut for Drop<'a> {
            fn visit_block_mut(&mut self, b: &mut Block) {
                visit_mut::visit_block_mut(self, b);
                b.stmts.retain(|s| !matches!(s, Stmt::Local(Local { pat: Pat::Ident(i), init: Some(li), .. }) if i.ident == self.0 && matches!(&*li.expr, Expr::Closure(_))));
            }
        }
        Drop(&name).visit_block_mut(&mut copy);
        *b = copy;
    }
}
