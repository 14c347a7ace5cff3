//! Rewrites of function bodies into the subset Verus accepts.
use crate::Func;
use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeSet;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

thread_local! {
    /// name of a function -> "result" or "option" where all functions of that name return one
    pub static RETS: std::cell::RefCell<std::collections::BTreeMap<String, &'static str>> = Default::default();
}
/// what the functions return
pub fn returns(fs: &[Func]) {
    RETS.with(|r| {
        let mut r = r.borrow_mut();
        for f in fs {
            let t = match &f.sig.output { ReturnType::Type(_, t) => t.to_token_stream().to_string(), _ => String::new() };
            let k = if t.starts_with("Result") || t.starts_with("ParseResult") { "result" } else if t.starts_with("Option") { "option" } else { "?" };
            let e = r.entry(f.name.clone()).or_insert(k);
            if *e != k { *e = "?"; }
        }
    });
}
fn ret_kind(n: &str) -> &'static str { RETS.with(|r| r.borrow().get(n).copied().unwrap_or("?")) }

pub fn transform(f: &mut Func, extra: &mut Vec<Func>) {
    // parameter patterns
    let mut pre: Vec<Stmt> = vec![];
    let mut k = 0usize;
    for inp in f.sig.inputs.iter_mut() {
        if let FnArg::Typed(pt) = inp {
            let simple = matches!(&*pt.pat, Pat::Ident(i) if i.by_ref.is_none());
            if !simple {
                let id = format_ident!("__p{}", k);
                k += 1;
                let pat = (*pt.pat).clone();
                let e: Expr = parse_quote!(#id);
                let is_ref = matches!(&*pt.ty, Type::Reference(_));
                bind(&pat, &e, is_ref, &mut pre);
                *pt.pat = parse_quote!(#id);
            }
        }
    }
    let mut env = types_of_params(&f.sig);
    let fnv = closure_params(&mut f.sig);
    let mut x = Xf { un: vec![], notes: vec![], n: 0, env: vec![], err_vars: BTreeSet::new(), f64_vars: BTreeSet::new(), ci_vars: BTreeSet::new(), str_slices: crate::STR_SLICES.load(std::sync::atomic::Ordering::Relaxed), fn_vars: BTreeSet::new(), key: f.key.clone(), hoisted: vec![], closure_n: 0 };
    x.env.append(&mut env);
    x.fn_vars = fnv;
    for st in &pre {
        if let Stmt::Local(Local { pat: Pat::Ident(i), init: Some(li), .. }) = st {
            if let Expr::Reference(r) = &*li.expr {
                let t: Type = if r.mutability.is_some() { parse_quote!(&mut _) } else { parse_quote!(&_) };
                x.env.push((i.ident.to_string(), t));
            }
        }
    }
    LetTypes { env: &mut x.env }.visit_block(&f.block);
    let mut b = f.block.clone();
    for (i, s) in pre.into_iter().enumerate() { b.stmts.insert(i, s); }
    x.visit_block_mut(&mut b);
    let mut chk = Check { un: vec![] };
    chk.visit_block(&b);
    x.un.extend(chk.un);
    let mut lc = Locals { v: vec![] };
    lc.visit_block(&b);
    f.locals = lc.v;
    f.unsupported.extend(x.un);
    f.notes.extend(x.notes);
    let own = f.owner.clone();
    for (name, sig, block) in x.hoisted {
        let mut g = Func {
            key: format!("{}::{}", f.key, name), name: sig.ident.to_string(), owner: own.clone(),
            impl_generics: f.impl_generics.clone(), self_ty: f.self_ty.clone(), sig, block, file: f.file.clone(), line: f.line,
            unsupported: vec![], notes: vec!["closure converted to a function".into()], nloops: 0, locals: vec![],
        };
        let mut chk = Check { un: vec![] };
        chk.visit_block(&g.block);
        g.unsupported.extend(chk.un);
        let mut lc = Locals { v: vec![] };
        lc.visit_block(&g.block);
        g.locals = lc.v;
        let mut nl = 0;
        g.block = mark(&g.key, g.block, &mut nl);
        g.nloops = nl;
        extra.push(g);
    }
    let mut nl = 0;
    f.block = mark(&f.key, b, &mut nl);
    f.nloops = nl;
}

fn mark(key: &str, mut b: Block, nl: &mut usize) -> Block {
    let mut m = LoopMarks { n: 0 };
    m.visit_block_mut(&mut b);
    *nl = m.n;
    let k = LitStr::new(key, Span::call_site());
    b.stmts.insert(0, parse_quote!(__vp_entry!(#k);));
    b
}

struct LoopMarks { n: usize }
impl VisitMut for LoopMarks {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let put = |b: &mut Block, s: &mut Self| {
            let k = s.n;
            s.n += 1;
            // a desugared `for` carries its unique id in __vp_for!(uid)
            let kk = LitInt::new(&k.to_string(), Span::call_site());
            b.stmts.insert(0, parse_quote!(__vp_loop!(#kk);));
            if let Some(Stmt::Expr(_, semi)) = b.stmts.last_mut() { if semi.is_none() { *semi = Some(Default::default()); } }
            b.stmts.push(parse_quote!(__vp_loopend!(#kk);));
        };
        match e {
            Expr::While(w) => { put(&mut w.body, self); }
            Expr::Loop(l) => { put(&mut l.body, self); }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// Desugared loops use names carrying a unique number; turn that number into the loop ordinal.
pub fn renumber_loops(_f: &Func, body: &mut String) {
    // pattern: __vp_loop ! (K) ; __vp_for ! (U) ;
    let mut map = vec![];
    let toks: Vec<&str> = body.split_whitespace().collect();
    let flat = toks.join(" ");
    let mut rest = flat.as_str();
    while let Some(i) = rest.find("__vp_loop ! (") {
        let r = &rest[i + "__vp_loop ! (".len()..];
        let e = r.find(')').unwrap();
        let k = r[..e].trim().to_string();
        let after = r[e + 1..].trim_start().trim_start_matches(';').trim_start();
        if let Some(a) = after.strip_prefix("__vp_for ! (") {
            let e2 = a.find(')').unwrap();
            map.push((a[..e2].trim().to_string(), k));
        }
        rest = &r[e..];
    }
    for (u, k) in &map {
        for p in ["__i", "__s", "__hi", "__lo", "__e", "__c", "__f", "__q"] {
            *body = body.replace(&format!("{}_{}_u", p, u), &format!("{}{}", p, k));
        }
        *body = body.replace(&format!("__vp_for ! ({}) ;", u), "");
        *body = body.replace(&format!("__vp_for ! ({}); ", u), "");
    }
}

struct Locals { v: Vec<(String, String)> }
impl<'a> Visit<'a> for Locals {
    fn visit_local(&mut self, l: &'a Local) {
        let mut p = &l.pat;
        if let Pat::Type(t) = p { p = &t.pat; }
        if let Pat::Ident(i) = p {
            let init = l.init.as_ref().map(|x| x.expr.to_token_stream().to_string()).unwrap_or_default();
            self.v.push((i.ident.to_string(), init));
        }
        visit::visit_local(self, l);
    }
}

/// Whatever is left that Verus cannot take.
struct Check { un: Vec<String> }
impl<'a> Visit<'a> for Check {
    fn visit_pat(&mut self, p: &'a Pat) {
        if let Pat::Reference(r) = p { self.un.push(format!("reference pattern {}", r.to_token_stream())); }
        visit::visit_pat(self, p);
    }
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::ForLoop(f) => self.un.push(format!("for loop over {}", f.expr.to_token_stream())),
            Expr::Closure(c) => self.un.push(format!("closure {}", c.to_token_stream().to_string().chars().take(60).collect::<String>())),
            Expr::Break(b) if b.expr.is_some() => self.un.push("break with value".into()),
            Expr::Block(b) if b.label.is_some() => self.un.push("labelled block".into()),
            Expr::Unsafe(_) => self.un.push("unsafe block".into()),
            Expr::Async(_) | Expr::Await(_) | Expr::Yield(_) => self.un.push("async".into()),
            Expr::Macro(m) => self.mac(&m.mac),
            _ => {}
        }
        visit::visit_expr(self, e);
    }
    fn visit_stmt(&mut self, s: &'a Stmt) {
        if let Stmt::Macro(m) = s { self.mac(&m.mac); }
        if let Stmt::Item(i) = s { self.un.push(format!("nested item {}", i.to_token_stream().to_string().chars().take(40).collect::<String>())); }
        visit::visit_stmt(self, s);
    }
}
impl Check {
    fn mac(&mut self, m: &Macro) {
        let n = m.path.to_token_stream().to_string();
        if !n.starts_with("__vp_") { self.un.push(format!("macro {}!", n)); }
    }
}

/// `mut f: F` with `F: FnMut(A) -> B` becomes `f: &mut F` with `F: VpFn`; a call of such a parameter becomes `vp_call`
fn closure_params(sig: &mut Signature) -> BTreeSet<String> {
    let mut gs = BTreeSet::new();
    let is_fn = |b: &TypeParamBound| b.to_token_stream().to_string().starts_with("FnMut") || b.to_token_stream().to_string().starts_with("Fn (");
    if let Some(w) = &mut sig.generics.where_clause {
        for p in w.predicates.iter_mut() {
            if let WherePredicate::Type(t) = p {
                if t.bounds.len() == 1 && is_fn(&t.bounds[0]) {
                    gs.insert(t.bounded_ty.to_token_stream().to_string());
                    t.bounds = parse_quote!(VpFn);
                }
            }
        }
    }
    let mut v = BTreeSet::new();
    for (n, t) in types_of_params(sig) { if gs.contains(&t.to_token_stream().to_string()) { v.insert(n); } }
    for i in sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = i {
            if let Pat::Ident(p) = &mut *t.pat {
                if v.contains(&p.ident.to_string()) { p.mutability = None; let ty = &t.ty; t.ty = parse_quote!(&mut #ty); }
            }
        }
    }
    v
}
fn types_of_params(sig: &Signature) -> Vec<(String, Type)> {
    let mut v = vec![];
    for i in &sig.inputs {
        if let FnArg::Typed(t) = i {
            if let Pat::Ident(p) = &*t.pat { v.push((p.ident.to_string(), (*t.ty).clone())); }
        }
    }
    v
}

/// Types of locals as far as a glance at the initialiser tells (used only for closure conversion).
struct LetTypes<'a> { env: &'a mut Vec<(String, Type)> }
impl<'a, 'b> Visit<'b> for LetTypes<'a> {
    fn visit_local(&mut self, l: &'b Local) {
        visit::visit_local(self, l);
        let (name, ty) = match &l.pat {
            Pat::Ident(i) => (i.ident.to_string(), None),
            Pat::Type(t) => match &*t.pat { Pat::Ident(i) => (i.ident.to_string(), Some((*t.ty).clone())), _ => return },
            _ => return,
        };
        if let Some(t) = ty { self.env.push((name, t)); return; }
        let init = match &l.init { Some(i) => &*i.expr, None => return };
        let t: Option<Type> = match init {
            Expr::Lit(ExprLit { lit: Lit::Bool(_), .. }) => Some(parse_quote!(bool)),
            Expr::Path(p) if p.path.is_ident("None") => Some(parse_quote!(Option<Range<ParseError>>)),
            Expr::MethodCall(m) if m.method == "clone" || m.method == "vclone" => self.of(&m.receiver),
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => self.of(expr),
            Expr::Path(_) => { let r = self.of(init); r }
            _ => None,
        };
        if let Some(t) = t { self.env.push((name, t)); }
    }
}
impl<'a> LetTypes<'a> {
    fn of(&self, e: &Expr) -> Option<Type> {
        if let Expr::Path(p) = e {
            let n = p.path.get_ident()?.to_string();
            for (a, t) in self.env.iter().rev() {
                if *a == n { return Some(match t { Type::Reference(r) => (*r.elem).clone(), x => x.clone() }); }
            }
        }
        None
    }
}

/// `let PAT = E` for patterns Verus does not take; `E` is duplicable.
pub fn bind(pat: &Pat, e: &Expr, e_is_ref: bool, out: &mut Vec<Stmt>) {
    match pat {
        Pat::Wild(_) => {}
        Pat::Paren(p) => bind(&p.pat, e, e_is_ref, out),
        Pat::Type(t) => bind(&t.pat, e, e_is_ref, out),
        Pat::Reference(r) => {
            match e {
                Expr::Reference(x) => bind(&r.pat, &x.expr, false, out),
                _ => { let d: Expr = parse_quote!((*#e)); bind(&r.pat, &d, false, out) }
            }
        }
        Pat::Ident(i) => {
            let id = &i.ident;
            let m = &i.mutability;
            if i.by_ref.is_some() {
                if m.is_some() { out.push(parse_quote!(let #id = &mut #e;)); } else { out.push(parse_quote!(let #id = &#e;)); }
            } else {
                out.push(parse_quote!(let #m #id = #e;));
            }
        }
        Pat::Tuple(t) => {
            for (k, p) in t.elems.iter().enumerate() {
                let ix = Index::from(k);
                let base: Expr = match e { Expr::Reference(x) => (*x.expr).clone(), _ => e.clone() };
                let amp = e_is_ref || matches!(e, Expr::Reference(_));
                let fe: Expr = if amp && !matches!(p, Pat::Wild(_)) { parse_quote!(&#base.#ix) } else { parse_quote!(#base.#ix) };
                bind(p, &fe, false, out);
            }
        }
        Pat::Struct(s) => {
            let base: Expr = match e { Expr::Reference(x) => (*x.expr).clone(), _ => e.clone() };
            for f in &s.fields {
                let mem = &f.member;
                let fe: Expr = parse_quote!(#base.#mem);
                bind(&f.pat, &fe, false, out);
            }
        }
        other => { out.push(parse_quote!(let #other = #e;)); }
    }
}

fn strip_pat(p: &mut Pat) -> bool {
    match p {
        Pat::Reference(r) => { let inner = (*r.pat).clone(); *p = inner; true }
        Pat::Or(o) => { let mut a = false; for c in o.cases.iter_mut() { a |= strip_pat(c); } a }
        Pat::Paren(q) => strip_pat(&mut q.pat),
        _ => false,
    }
}
/// does the pattern bind a name by value
fn by_value(p: &Pat) -> bool {
    struct B(bool);
    impl<'a> Visit<'a> for B { fn visit_pat_ident(&mut self, i: &'a PatIdent) { if i.by_ref.is_none() && !i.ident.to_string().chars().next().unwrap().is_uppercase() { self.0 = true; } } }
    let mut b = B(false);
    b.visit_pat(p);
    b.0
}
struct Unref;
impl VisitMut for Unref { fn visit_pat_ident_mut(&mut self, i: &mut PatIdent) { i.by_ref = None; } }
fn has_ref(p: &Pat) -> Option<bool> {
    match p {
        Pat::Reference(r) => Some(r.mutability.is_some()),
        Pat::Or(o) => o.cases.iter().filter_map(has_ref).next(),
        Pat::Paren(q) => has_ref(&q.pat),
        _ => None,
    }
}
/// `&P` inside of another pattern, when `P` binds names by reference only: the same as `P` with default binding
struct Inner(usize);
impl VisitMut for Inner {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        let plain = !matches!(p, Pat::Or(_) | Pat::Paren(_) | Pat::Reference(_));
        if let Pat::Reference(r) = p {
            if self.0 > 0 && r.mutability.is_none() && !by_value(&r.pat) && !matches!(&*r.pat, Pat::Ident(_)) { strip_pat(p); Unref.visit_pat_mut(p); }
        }
        if plain { self.0 += 1; }
        visit_mut::visit_pat_mut(self, p);
        if plain { self.0 -= 1; }
    }
}
fn ident_to_ref(p: &mut Pat, mutbl: bool) {
    if let Pat::Ident(i) = p {
        let n = i.ident.to_string();
        // an upper case identifier is a constant or unit variant, not a binding
        if i.by_ref.is_none() && i.subpat.is_none() && !n.chars().next().unwrap().is_uppercase() {
            i.by_ref = Some(Default::default());
            i.mutability = if mutbl { Some(Default::default()) } else { None };
        }
    }
}
fn deref(e: &Expr) -> Expr {
    match e {
        Expr::Reference(r) => (*r.expr).clone(),
        Expr::Paren(p) => deref(&p.expr),
        Expr::Path(_) | Expr::MethodCall(_) | Expr::Field(_) | Expr::Call(_) | Expr::Index(_) => parse_quote!(*#e),
        _ => parse_quote!(*(#e)),
    }
}

enum Op { Enumerate, Rev, Skip(Expr), Take(Expr), Filter(ExprClosure), Map(ExprClosure) }
enum Base { Slice(Expr), SliceMut(Expr), Vals(TokenStream), Range(Expr, Expr, bool), Iter(Ident) }
struct Chain { base: Base, ops: Vec<Op> }

fn simple_place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => simple_place(&f.base),
        Expr::Paren(p) => simple_place(&p.expr),
        _ => false,
    }
}
fn dup_place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => dup_place(&f.base),
        Expr::Paren(p) => dup_place(&p.expr),
        Expr::Index(i) => dup_place(&i.expr) && dup_place(&i.index),
        Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => dup_place(expr),
        _ => false,
    }
}
struct HasLoop { r: bool }
impl<'a> Visit<'a> for HasLoop {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) | Expr::Closure(_) => self.r = true,
            _ => {}
        }
        visit::visit_expr(self, e);
    }
}
fn one_closure(m: &ExprMethodCall) -> Option<ExprClosure> {
    if m.args.len() == 1 { if let Expr::Closure(c) = &m.args[0] { return Some(c.clone()); } }
    None
}

struct Xf {
    un: Vec<String>,
    notes: Vec<String>,
    n: usize,
    env: Vec<(String, Type)>,
    err_vars: BTreeSet<String>,
    f64_vars: BTreeSet<String>,
    /// variables that hold a character iterator
    ci_vars: BTreeSet<String>,
    /// every slice in the text is a slice of a `str` (dependency mode)
    str_slices: bool,
    /// parameters of a closure type
    fn_vars: BTreeSet<String>,
    key: String,
    hoisted: Vec<(String, Signature, Block)>,
    closure_n: usize,
}

impl Xf {
    fn chain(&self, e: &Expr) -> Option<Chain> {
        match e {
            Expr::Paren(p) => self.chain(&p.expr),
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match (name.as_str(), m.args.len()) {
                    ("iter", 0) => {
                        let mut b = (*m.receiver).clone();
                        if let Expr::Paren(p) = &b { b = (*p.expr).clone(); }
                        Some(Chain { base: Base::Slice(b), ops: vec![] })
                    }
                    ("iter_mut", 0) => Some(Chain { base: Base::SliceMut((*m.receiver).clone()), ops: vec![] }),
                    ("chars", 0) => { let r = &m.receiver; Some(Chain { base: Base::Vals(quote!(vp_chars(&#r))), ops: vec![] }) }
                    ("char_indices", 0) => { let r = &m.receiver; Some(Chain { base: Base::Vals(quote!(vp_char_indices(&#r))), ops: vec![] }) }
                    ("bytes", 0) => { let r = &m.receiver; Some(Chain { base: Base::Vals(quote!(vp_bytes(&#r))), ops: vec![] }) }
                    ("lines", 0) => { let r = &m.receiver; Some(Chain { base: Base::Vals(quote!(vp_str_lines(&#r))), ops: vec![] }) }
                    ("split", 1) => {
                        let r = &m.receiver;
                        let a = m.args[0].to_token_stream().to_string();
                        if a == "'\\n'" || a == "\"\\n\"" { Some(Chain { base: Base::Vals(quote!(vp_split_nl(#r))), ops: vec![] }) } else { None }
                    }
                    ("enumerate", 0) => { let mut c = self.chain(&m.receiver)?; c.ops.push(Op::Enumerate); Some(c) }
                    ("rev", 0) => { let mut c = self.chain(&m.receiver)?; c.ops.push(Op::Rev); Some(c) }
                    ("skip", 1) => { let mut c = self.chain(&m.receiver)?; c.ops.push(Op::Skip(m.args[0].clone())); Some(c) }
                    ("take", 1) => { let mut c = self.chain(&m.receiver)?; c.ops.push(Op::Take(m.args[0].clone())); Some(c) }
                    ("cloned", 0) | ("copied", 0) | ("by_ref", 0) | ("into_iter", 0) if self.chain(&m.receiver).is_some() => {
                        if name == "by_ref" { None } else if name == "into_iter" { self.chain(&m.receiver) } else { None }
                    }
                    ("into_iter", 0) => Some(Chain { base: Base::Slice((*m.receiver).clone()), ops: vec![] }),
                    ("filter", 1) => { let mut c = self.chain(&m.receiver)?; c.ops.push(Op::Filter(one_closure(m)?)); Some(c) }
                    ("map", 1) => { let mut c = self.chain(&m.receiver)?; c.ops.push(Op::Map(one_closure(m)?)); Some(c) }
                    _ => None,
                }
            }
            Expr::Range(r) => {
                let inc = matches!(r.limits, RangeLimits::Closed(_));
                Some(Chain { base: Base::Range((**r.start.as_ref()?).clone(), (**r.end.as_ref()?).clone(), inc), ops: vec![] })
            }
            _ => None,
        }
    }
    fn chain_for(&self, e: &Expr) -> Option<Chain> {
        if let Some(c) = self.chain(e) { return Some(c); }
        match e {
            Expr::Paren(p) => self.chain_for(&p.expr),
            Expr::Reference(r) if r.mutability.is_some() => Some(Chain { base: Base::SliceMut((*r.expr).clone()), ops: vec![] }),
            Expr::Reference(r) => Some(Chain { base: Base::Slice((*r.expr).clone()), ops: vec![] }),
            Expr::Path(p) => {
                // a variable of reference type
                let n = p.path.get_ident()?.to_string();
                if self.ci_vars.contains(&n) { return Some(Chain { base: Base::Iter(p.path.get_ident()?.clone()), ops: vec![] }); }
                let t = self.env.iter().rev().find(|(a, _)| *a == n).map(|(_, t)| t.clone());
                match t {
                    Some(Type::Reference(r)) if r.mutability.is_some() => Some(Chain { base: Base::SliceMut(e.clone()), ops: vec![] }),
                    Some(_) => Some(Chain { base: Base::Slice(e.clone()), ops: vec![] }),
                    None => None,
                }
            }
            Expr::Field(_) | Expr::Index(_) => Some(Chain { base: Base::Slice(e.clone()), ops: vec![] }),
            _ => None,
        }
    }

    /// Builds `{ prelude; while .. { binders; body } }`; `mk` receives the element expression.
    fn gen_loop(&mut self, c: Chain, label: Option<Label>, mk: &mut dyn FnMut(&mut Xf, Expr, bool, usize, &mut Vec<Stmt>) -> Option<Vec<Stmt>>) -> Option<(Vec<Stmt>, Expr, usize)> {
        let u = self.n;
        self.n += 1;
        let i = format_ident!("__i_{}_u", u);
        let s = format_ident!("__s_{}_u", u);
        let hi = format_ident!("__hi_{}_u", u);
        let lo = format_ident!("__lo_{}_u", u);
        let mut pre: Vec<Stmt> = vec![];
        let len: Expr;
        let elem: Expr;
        let mut elem_is_ref = false;
        let mut start: Expr = parse_quote!(0);
        let mut is_range = false;
        match &c.base {
            Base::Slice(b) => {
                if simple_place(b) {
                    len = parse_quote!(#b.len());
                    elem = parse_quote!(&#b[#i]);
                } else {
                    pre.push(parse_quote!(let #s = &#b;));
                    len = parse_quote!(#s.len());
                    elem = parse_quote!(&#s[#i]);
                }
                elem_is_ref = true;
            }
            Base::SliceMut(b) => {
                if !simple_place(b) { return None; }
                len = parse_quote!(#b.len());
                elem = parse_quote!(&mut #b[#i]);
                elem_is_ref = true;
            }
            Base::Vals(t) => {
                pre.push(parse_quote!(let #s = #t;));
                len = parse_quote!(#s.len());
                elem = parse_quote!(#s[#i]);
            }
            Base::Iter(x) => {
                // the rest of an iterator that lives in a variable
                if !c.ops.is_empty() { return None; }
                let ev = format_ident!("__e_{}_u", u);
                let lit = LitInt::new(&u.to_string(), Span::call_site());
                let mut body: Vec<Stmt> = vec![parse_quote!(__vp_for!(#lit);), parse_quote!(let #ev = #x.v[#x.i];), parse_quote!(#x.i = #x.i + 1;)];
                let item: Expr = parse_quote!(#ev);
                let rest = mk(self, item, false, u, &mut pre)?;
                body.extend(rest);
                let w: Expr = parse_quote!(#label while #x.i < #x.v.len() { #(#body)* });
                return Some((pre, w, u));
            }
            Base::Range(a, b, inc) => {
                is_range = true;
                start = a.clone();
                let b2: Expr = if *inc { return None } else { b.clone() };
                len = b2;
                elem = parse_quote!(#i);
            }
        }
        // bounds
        let mut have_bounds = false;
        let mut rev = false;
        let mut enumr: Option<(bool, bool)> = None; // (after_rev, bounds at that time)
        let mut filters: Vec<ExprClosure> = vec![];
        let mut map: Option<ExprClosure> = None;
        let mut lo_e: Expr = start.clone();
        let mut hi_e: Expr = len.clone();
        for op in c.ops {
            match op {
                Op::Enumerate => { if enumr.is_some() || map.is_some() || !filters.is_empty() { return None; } enumr = Some((rev, have_bounds)); }
                Op::Rev => { if map.is_some() { return None; } rev = !rev; }
                Op::Skip(n) => {
                    if rev || map.is_some() || !filters.is_empty() || is_range || enumr.is_some() { return None; }
                    if !have_bounds { lo_e = parse_quote!(vp_skip(#n, #len)); } else { return None; }
                    pre.push(parse_quote!(let #lo: usize = #lo_e;));
                    lo_e = parse_quote!(#lo);
                    have_bounds = true;
                }
                Op::Take(n) => {
                    if rev || map.is_some() || !filters.is_empty() || is_range || enumr.is_some() { return None; }
                    pre.push(parse_quote!(let #hi: usize = vp_take(#lo_e, #n, #len);));
                    hi_e = parse_quote!(#hi);
                    have_bounds = true;
                }
                Op::Filter(f) => { if map.is_some() { return None; } filters.push(f); }
                Op::Map(m) => { if map.is_some() { return None; } map = Some(m); }
            }
        }
        let ev = format_ident!("__e_{}_u", u);
        let mut body: Vec<Stmt> = vec![parse_quote!(__vp_for!(#u);)];
        if let Stmt::Macro(_) = &body[0] {
            let lit = LitInt::new(&u.to_string(), Span::call_site());
            body[0] = parse_quote!(__vp_for!(#lit););
        }
        let mut item: Expr = parse_quote!(#ev);
        let mut item_is_ref = elem_is_ref;
        let q = format_ident!("__q_{}_u", u);
        if rev {
            pre.push(parse_quote!(let mut #i: usize = #hi_e;));
            body.push(parse_quote!(#i = #i - 1;));
            body.push(parse_quote!(let #ev = #elem;));
            if let Some((after_rev, _)) = enumr {
                if after_rev { body.push(parse_quote!(let #q: usize = #hi_e - 1 - #i;)); }
                else if quote!(#lo_e).to_string() == "0" { body.push(parse_quote!(let #q: usize = #i;)); }
                else { body.push(parse_quote!(let #q: usize = #i - #lo_e;)); }
            }
        } else {
            if is_range { pre.push(parse_quote!(let mut #i = #lo_e;)); } else { pre.push(parse_quote!(let mut #i: usize = #lo_e;)); }
            body.push(parse_quote!(let #ev = #elem;));
            if enumr.is_some() {
                if quote!(#lo_e).to_string() == "0" { body.push(parse_quote!(let #q: usize = #i;)); }
                else { body.push(parse_quote!(let #q: usize = #i - #lo_e;)); }
            }
            body.push(parse_quote!(#i = #i + 1;));
        }
        if enumr.is_some() {
            item = parse_quote!((#q, #ev));
            item_is_ref = false;
        }
        if !filters.is_empty() {
            // filter closures take a reference to the item
            for f in filters {
                if f.inputs.len() != 1 { return None; }
                let mut bs = vec![];
                bind(&f.inputs[0], &parse_quote!(#item), true, &mut bs);
                let b = &f.body;
                body.push(parse_quote!(if !{ #(#bs)* #b } { continue; }));
            }
        }
        if let Some(m) = map {
            if m.inputs.len() != 1 { return None; }
            let mut bs = vec![];
            self.bind_item(&m.inputs[0], &item, item_is_ref, &mut bs);
            let b = &m.body;
            let mv = format_ident!("__f_{}_u", u);
            body.push(parse_quote!(let #mv = { #(#bs)* #b };));
            item = parse_quote!(#mv);
            item_is_ref = false;
        }
        let rest = mk(self, item, item_is_ref, u, &mut pre)?;
        body.extend(rest);
        let cond: Expr = if rev { parse_quote!(#i > #lo_e) } else { parse_quote!(#i < #hi_e) };
        let w: Expr = parse_quote!(#label while #cond { #(#body)* });
        Some((pre, w, u))
    }
    fn bind_item(&mut self, p: &Pat, item: &Expr, is_ref: bool, out: &mut Vec<Stmt>) {
        if let (Pat::Tuple(t), Expr::Tuple(it)) = (p, item) {
            if t.elems.len() == it.elems.len() {
                for (k, (a, b)) in t.elems.iter().zip(it.elems.iter()).enumerate() {
                    // (index, element): the element is the reference
                    self.bind_item(a, b, k == 1, out);
                }
                return;
            }
        }
        if let Pat::Tuple(_) = p {
            bind(p, item, is_ref, out);
        } else { bind(p, item, is_ref, out); }
    }

    fn do_for(&mut self, f: &ExprForLoop) -> Option<Expr> {
        let c = self.chain_for(&f.expr)?;
        let pat = (*f.pat).clone();
        let body = f.body.stmts.clone();
        let (pre, w, _) = self.gen_loop(c, f.label.clone(), &mut |x, item, is_ref, _u, _pre| {
            let mut bs = vec![];
            x.bind_item(&pat, &item, is_ref, &mut bs);
            bs.extend(body.clone());
            Some(bs)
        })?;
        Some(parse_quote!({ #(#pre)* #w }))
    }

    fn terminal(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        match (name.as_str(), m.args.len()) {
            ("collect", 0) | ("count", 0) | ("find", 1) | ("position", 1) | ("any", 1) | ("all", 1) | ("for_each", 1) | ("fold", 2) => {}
            _ => return None,
        }
        let c = self.chain(&m.receiver)?;
        let cl = match (m.args.len(), m.args.last()) { (0, _) => None, (1, _) => Some(one_closure(m)?), (_, Some(Expr::Closure(c))) => Some(c.clone()), _ => return None };
        if let Some(c) = &cl {
            if c.inputs.len() != m.args.len() { return None; }
            let mut hr = HasReturn { r: false };
            hr.visit_expr(&c.body);
            if hr.r { return None; }
        }
        let (mut pre, w, u) = self.gen_loop(c, None, &mut |x, item, is_ref, u, pre| {
            let acc = format_ident!("__c_{}_u", u);
            let i = format_ident!("__i_{}_u", u);
            match name.as_str() {
                "collect" => { pre.push(parse_quote!(let mut #acc = Vec::new();)); Some(vec![parse_quote!(#acc.push(#item);)]) }
                "fold" => {
                    let cl = cl.as_ref().unwrap();
                    let (init, a) = (&m.args[0], &cl.inputs[0]);
                    if !simple_ident(a) { return None; }
                    pre.push(parse_quote!(let mut #acc = #init;));
                    let mut bs: Vec<Stmt> = vec![parse_quote!(let #a = #acc;)];
                    x.bind_item(&cl.inputs[1], &item, is_ref, &mut bs);
                    let b = &cl.body;
                    Some(vec![parse_quote!(#acc = { #(#bs)* #b };)])
                }
                "for_each" => {
                    let cl = cl.as_ref().unwrap();
                    let mut bs = vec![];
                    x.bind_item(&cl.inputs[0], &item, is_ref, &mut bs);
                    let b = &cl.body;
                    pre.push(parse_quote!(let #acc = ();));
                    Some(vec![parse_quote!({ #(#bs)* #b; })])
                }
                "count" => { pre.push(parse_quote!(let mut #acc: usize = 0;)); Some(vec![parse_quote!(#acc = #acc + 1;)]) }
                _ => {
                    let cl = cl.as_ref().unwrap();
                    let mut bs = vec![];
                    if name == "find" { bind(&cl.inputs[0], &parse_quote!(&#item), true, &mut bs); }
                    else { x.bind_item(&cl.inputs[0], &item, is_ref, &mut bs); }
                    let b = &cl.body;
                    let cond: Expr = if bs.is_empty() { parse_quote!(#b) } else { parse_quote!({ #(#bs)* #b }) };
                    match name.as_str() {
                        "find" => { pre.push(parse_quote!(let mut #acc = None;)); Some(vec![parse_quote!(if #cond { #acc = Some(#item); break; })]) }
                        "position" => { pre.push(parse_quote!(let mut #acc: Option<usize> = None;)); Some(vec![parse_quote!(if #cond { #acc = Some(#i - 1); break; })]) }
                        "any" => { pre.push(parse_quote!(let mut #acc: bool = false;)); Some(vec![parse_quote!(if #cond { #acc = true; break; })]) }
                        _ => { pre.push(parse_quote!(let mut #acc: bool = true;)); Some(vec![parse_quote!(if !#cond { #acc = false; break; })]) }
                    }
                }
            }
        })?;
        let acc = format_ident!("__c_{}_u", u);
        pre.push(Stmt::Expr(w, None));
        Some(parse_quote!({ #(#pre)* #acc }))
    }

    fn closure_method(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let recv = &m.receiver;
        if name == "lines" { return self.lines_driver(m); }
        if name == "map_or" && m.args.len() == 2 { return self.map_or(m); }
        let cl = one_closure(m)?;
        if cl.inputs.len() > 1 { return None; }
        // anything else does not compile afterwards, and then gives no answer
        let kind = match (self.kind_of(recv), name.as_str()) { ("?", "map_err") | ("?", "is_ok_and") => "result", ("?", _) => "option", (k, _) => k };
        let k = self.n;
        self.n += 1;
        let v = format_ident!("__m{}", k);
        let mut bs = vec![];
        let isr = name == "filter";
        if cl.inputs.len() == 1 {
            let e: Expr = if isr { parse_quote!(&#v) } else { parse_quote!(#v) };
            if simple_ident(&cl.inputs[0]) || !matches!(cl.inputs[0], Pat::Tuple(_)) { bind(&cl.inputs[0], &e, false, &mut bs); }
            else { let p = &cl.inputs[0]; bs.push(parse_quote!(let #p = #e;)); }
        }
        let b = &cl.body;
        // `return` inside the closure would change meaning when inlined
        let mut hr = HasReturn { r: false };
        hr.visit_expr(b);
        if hr.r { return None; }
        let body: Expr = parse_quote!({ #(#bs)* #b });
        match (kind, name.as_str()) {
            ("result", "map") => Some(parse_quote!(match #recv { Ok(#v) => Ok(#body), Err(__e) => Err(__e) })),
            ("result", "map_err") => Some(parse_quote!(match #recv { Ok(__o) => Ok(__o), Err(#v) => Err(#body) })),
            ("result", "and_then") => Some(parse_quote!(match #recv { Ok(#v) => #body, Err(__e) => Err(__e) })),
            ("result", "unwrap_or_else") => Some(parse_quote!(match #recv { Ok(__o) => __o, Err(#v) => #body })),
            ("option", "map") => Some(parse_quote!(match #recv { Some(#v) => Some(#body), None => None })),
            ("option", "and_then") => Some(parse_quote!(match #recv { Some(#v) => #body, None => None })),
            ("option", "unwrap_or_else") => Some(parse_quote!(match #recv { Some(__o) => __o, None => #body })),
            ("option", "is_some_and") => Some(parse_quote!(match #recv { Some(#v) => #body, None => false })),
            ("option", "is_none_or") => Some(parse_quote!(match #recv { Some(#v) => #body, None => true })),
            ("result", "is_ok_and") => Some(parse_quote!(match #recv { Ok(#v) => #body, Err(_) => false })),
            ("option", "ok_or_else") => Some(parse_quote!(match #recv { Some(__o) => Ok(__o), None => Err(#body) })),
            ("option", "or_else") => Some(parse_quote!(match #recv { Some(__o) => Some(__o), None => #body })),
            ("option", "filter") => Some(parse_quote!(match #recv { Some(#v) => if #body { Some(#v) } else { None }, None => None })),
            ("range", "map") => {
                let w = format_ident!("__w{}", k);
                Some(parse_quote!({ let #w = #recv; let #v = #w.data; Range { offset: #w.offset, length: #w.length, data: #body } }))
            }
            _ => None,
        }
    }

    /// `o.map_or(d, |x| e)` with a default that has no effects
    fn map_or(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let (d, cl) = match (&m.args[0], &m.args[1]) { (d, Expr::Closure(c)) => (d.clone(), c.clone()), _ => return None };
        if cl.inputs.len() != 1 || !(dup_place(&d) || matches!(d, Expr::Lit(_))) { return None; }
        let mut hr = HasReturn { r: false };
        hr.visit_expr(&cl.body);
        if hr.r { return None; }
        let recv = &m.receiver;
        let v = format_ident!("__m{}", self.n);
        self.n += 1;
        let mut bs = vec![];
        let e: Expr = parse_quote!(#v);
        if simple_ident(&cl.inputs[0]) || !matches!(cl.inputs[0], Pat::Tuple(_)) { bind(&cl.inputs[0], &e, false, &mut bs); }
        else { let p = &cl.inputs[0]; bs.push(parse_quote!(let #p = #e;)); }
        let b = &cl.body;
        if self.kind_of(recv) == "result" { Some(parse_quote!(match #recv { Ok(#v) => { #(#bs)* #b }, Err(_) => #d })) }
        else { Some(parse_quote!(match #recv { Some(#v) => { #(#bs)* #b }, None => #d })) }
    }

    fn kind_of(&self, e: &Expr) -> &'static str {
        match e {
            Expr::Paren(p) => self.kind_of(&p.expr),
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    if self.err_vars.contains(&i.to_string()) { return "range"; }
                    if let Some((_, t)) = self.env.iter().rev().find(|(a, _)| *a == i.to_string()) {
                        let s = t.to_token_stream().to_string();
                        if s.starts_with("Option") { return "option"; }
                        if s.starts_with("Result") || s.starts_with("ParseResult") { return "result"; }
                        if s.starts_with("Range") { return "range"; }
                    }
                }
                "?"
            }
            Expr::Field(f) => {
                if let Member::Named(n) = &f.member {
                    if n == "property" || n == "index" || n == "range" { return "option"; }
                }
                "?"
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "parse" | "parse_string" | "parse_number" | "start_node" | "end_node" | "meta_string" | "meta_f64" | "meta_bool" | "ok_or" | "ok_or_else" | "map_err" => "result",
                    "find" | "position" | "first" | "last" | "get" | "next" | "tag" | "string" | "number" | "as_ref" | "checked_add" | "checked_sub" | "checked_mul" | "ok" | "ends_intersect" | "intersect" | "split_first" | "filter" => "option",
                    "map" | "and_then" | "vclone" | "clone" | "or_else" => self.kind_of(&m.receiver),
                    n => ret_kind(n),
                }
            }
            Expr::Call(c) => {
                let n = c.func.to_token_stream().to_string();
                if n.starts_with("read_") || n.starts_with("parse") { "result" }
                else if n == "find_string" || n == "first_line" || n == "unique_byte" { "option" }
                else { ret_kind(n.rsplit("::").next().unwrap().trim()) }
            }
            // the desugared find/position
            Expr::Block(b) => {
                let t = b.to_token_stream().to_string();
                if t.contains("= None ;") && t.contains("__c_") { "option" } else { "?" }
            }
            Expr::Match(m) => {
                if let Some(a) = m.arms.first() {
                    let s = a.body.to_token_stream().to_string();
                    if s.starts_with("Some") { return "option"; }
                    if s.starts_with("Ok") { return "result"; }
                }
                "?"
            }
            _ => "?",
        }
    }

    /// `P if g => b, rest` becomes `P => if g { b } else { match X { rest } }, rest`
    fn guards(&mut self, mut m: ExprMatch) -> Expr {
        let mut pre: Vec<Stmt> = vec![];
        if !dup_place(&m.expr) {
            let v = format_ident!("__g{}", self.n);
            self.n += 1;
            let x = &m.expr;
            pre.push(parse_quote!(let #v = #x;));
            *m.expr = parse_quote!(#v);
        }
        for i in (0..m.arms.len()).rev() {
            if m.arms[i].guard.is_none() { continue; }
            let rest: Vec<Arm> = m.arms[i + 1..].to_vec();
            for r in &rest {
                let mut h = HasLoop { r: false };
                h.visit_arm(r);
                if h.r { self.un.push("loop in a match arm after a guarded arm".into()); }
            }
            let (_, g) = m.arms[i].guard.take().unwrap();
            let b = &m.arms[i].body;
            let x = &m.expr;
            let els: Expr = if rest.len() == 1 && matches!(rest[0].pat, Pat::Wild(_)) { let rb = &rest[0].body; parse_quote!({ #rb }) } else { parse_quote!({ match #x { #(#rest)* } }) };
            let nb: Expr = parse_quote!({ if #g { #b } else #els });
            *m.arms[i].body = nb;
            if m.arms[i].comma.is_none() { m.arms[i].comma = Some(Default::default()); }
        }
        let x = Expr::Match(m);
        if pre.is_empty() { x } else { parse_quote!({ #(#pre)* #x }) }
    }

    /// read_token.lines(|rt| body): the closure becomes a function, the call a loop over the
    /// line driver (the body of ReadToken::lines with the call of the closure taken out).
    fn lines_driver(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let cl = one_closure(m)?;
        if cl.inputs.len() != 1 { return None; }
        let param = match &cl.inputs[0] { Pat::Ident(i) => i.ident.clone(), Pat::Type(t) => match &*t.pat { Pat::Ident(i) => i.ident.clone(), _ => return None }, _ => return None };
        // free variables of the closure known in the environment
        let mut fv = FreeVars { used: BTreeSet::new(), assigned: BTreeSet::new(), declared: BTreeSet::new(), self_used: false };
        fv.visit_expr(&cl.body);
        let mut params: Vec<TokenStream> = vec![];
        let mut args: Vec<Expr> = vec![];
        let mut derefs: BTreeSet<String> = BTreeSet::new();
        let mut done: BTreeSet<String> = BTreeSet::new();
        let mut names: Vec<(String, Type)> = vec![];
        for (n, t) in self.env.iter() {
            if let Some(x) = names.iter_mut().find(|x| x.0 == *n) { x.1 = t.clone(); } else { names.push((n.clone(), t.clone())); }
        }
        for (n, t) in names.iter() {
            if *n == param.to_string() || !fv.used.contains(n) || done.contains(n) { continue; }
            done.insert(n.clone());
            let id = Ident::new(n, Span::call_site());
            match t {
                Type::Reference(r) => {
                    params.push(quote!(#id: #r));
                    if r.mutability.is_some() { args.push(parse_quote!(&mut *#id)); } else { args.push(parse_quote!(#id)); }
                }
                _ => {
                    if fv.assigned.contains(n) {
                        if fv.declared.contains(n) { self.un.push(format!("captured variable {} is shadowed in the closure", n)); return None; }
                        params.push(quote!(#id: &mut #t));
                        args.push(parse_quote!(&mut #id));
                        derefs.insert(n.clone());
                    } else {
                        params.push(quote!(#id: &#t));
                        args.push(parse_quote!(&#id));
                        derefs.insert(n.clone());
                    }
                }
            }
        }
        // variables we know nothing about
        for n in fv.used.iter() {
            if !done.contains(n) && !fv.declared.contains(n) && *n != param.to_string() && n.chars().next().unwrap().is_lowercase() {
                self.un.push(format!("closure captures {} of unknown type", n));
            }
        }
        let mut body = (*cl.body).clone();
        let mut dr = Derefs { names: &derefs };
        dr.visit_expr_mut(&mut body);
        let fnname = format_ident!("{}__closure{}", self.key.replace("::", "__"), self.closure_n);
        let short = format!("closure{}", self.closure_n);
        self.closure_n += 1;
        let selfp = if fv.self_used { quote!(&self,) } else { quote!() };
        let sig: Signature = parse_quote!(fn #fnname(#selfp #(#params,)* #param: &ReadToken) -> Option<Range>);
        let block: Block = match body { Expr::Block(b) if b.label.is_none() => b.block, e => parse_quote!({ #e }) };
        self.hoisted.push((short, sig, block));
        self.notes.push("closure passed to ReadToken::lines converted to a function; ReadToken::lines replaced by the line driver".into());
        let recv = &m.receiver;
        let call: Expr = if fv.self_used { parse_quote!(self.#fnname(#(#args,)* &__rt)) } else { parse_quote!(Self::#fnname(#(#args,)* &__rt)) };
        Some(parse_quote!({
            let mut __ld = LinesDriver::vp_new(#recv);
            loop {
                match __ld.vp_next() {
                    Some(__rt) => { let __lr = #call; __ld.vp_feed(__lr); }
                    None => { break; }
                }
            }
            __ld.vp_finish()
        }))
    }

    fn fmt_pieces(&mut self, toks: &[Expr]) -> Option<Vec<std::result::Result<String, (String, Expr)>>> {
        let lit = match toks.first()? { Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(), _ => return None };
        let mut pos: Vec<Expr> = vec![];
        let mut named: Vec<(String, Expr)> = vec![];
        for t in &toks[1..] {
            if let Expr::Assign(a) = t { named.push((a.left.to_token_stream().to_string(), (*a.right).clone())); } else { pos.push(t.clone()); }
        }
        let mut out = vec![];
        let mut cur = String::new();
        let cs: Vec<char> = lit.chars().collect();
        let mut i = 0;
        let mut next = 0;
        while i < cs.len() {
            if cs[i] == '{' {
                if i + 1 < cs.len() && cs[i + 1] == '{' { cur.push('{'); i += 2; continue; }
                let e = (i..cs.len()).find(|&j| cs[j] == '}')?;
                let inner: String = cs[i + 1..e].iter().collect();
                if !cur.is_empty() { out.push(Ok(std::mem::take(&mut cur))); }
                let (name, spec) = match inner.find(':') { Some(k) => (inner[..k].to_string(), inner[k + 1..].to_string()), None => (inner.clone(), String::new()) };
                let ex = if name.is_empty() { let e = pos.get(next)?.clone(); next += 1; e }
                    else if let Ok(k) = name.parse::<usize>() { pos.get(k)?.clone() }
                    else if let Some((_, e)) = named.iter().find(|(n, _)| *n == name) { e.clone() }
                    else { let id = Ident::new(&name, Span::call_site()); parse_quote!(#id) };
                out.push(Err((spec, ex)));
                i = e + 1;
            } else if cs[i] == '}' { cur.push('}'); i += 2; }
            else { cur.push(cs[i]); i += 1; }
        }
        if !cur.is_empty() { out.push(Ok(cur)); }
        Some(out)
    }

    fn mac(&mut self, m: &Macro) -> Option<Expr> {
        let n = m.path.segments.last()?.ident.to_string();
        use syn::parse::Parser;
        let p = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
        match n.as_str() {
            "format" => { Some(parse_quote!(vp_format())) }
            "vec" => {
                let es: Vec<Expr> = p.parse2(m.tokens.clone()).ok()?.into_iter().collect();
                if es.is_empty() { return Some(parse_quote!(Vec::new())); }
                let mut es = es;
                for e in es.iter_mut() { self.visit_expr_mut(e); }
                let v = format_ident!("__v{}", self.n);
                self.n += 1;
                Some(parse_quote!({ let mut #v = Vec::new(); #(#v.push(#es);)* #v }))
            }
            "panic" | "unreachable" | "unimplemented" | "todo" => Some(parse_quote!(vp_panic())),
            "print" | "println" | "eprintln" | "eprint" => Some(parse_quote!(())),
            "assert" | "debug_assert" => {
                let mut es: Vec<Expr> = p.parse2(m.tokens.clone()).ok()?.into_iter().collect();
                self.visit_expr_mut(&mut es[0]);
                let c = es.first()?;
                Some(parse_quote!(vp_runtime_assert(#c)))
            }
            "matches" => {
                // matches!(e, pat) -> match e { pat => true, _ => false }
                let (e, pat, g) = parse_matches(m.tokens.clone())?;
                let mut x: Expr = match g { Some(g) => parse_quote!(match #e { #pat if #g => true, _ => false }), None => parse_quote!(match #e { #pat => true, _ => false }) };
                self.visit_expr_mut(&mut x);
                Some(x)
            }
            "write" | "writeln" => {
                let mut es: Vec<Expr> = p.parse2(m.tokens.clone()).ok()?.into_iter().collect();
                if es.is_empty() { return None; }
                let w = es.remove(0);
                for e in es.iter_mut() { self.visit_expr_mut(e); }
                if es.is_empty() && n == "writeln" { es.push(parse_quote!("")); }
                let mut ps = self.fmt_pieces(&es)?;
                if n == "writeln" {
                    match ps.last_mut() { Some(Ok(s)) => s.push('\n'), _ => ps.push(Ok("\n".into())) }
                }
                let mut acc: Option<Expr> = None;
                for pc in ps.iter().rev() {
                    let call: Expr = match pc {
                        Ok(s) => {
                            // one call per character keeps the specification of literals simple
                            let cs: Vec<char> = s.chars().collect();
                            let mut a: Option<Expr> = None;
                            let _ = &mut a;
                            if cs.len() == 1 { let c = cs[0]; parse_quote!(#w.w_char(#c)) } else { parse_quote!(#w.w_lit(#s)) }
                        }
                        Err((spec, e)) => {
                            if spec.is_empty() { parse_quote!(#w.w_disp(&(#e))) } else { parse_quote!(#w.w_fmt(#spec, &(#e))) }
                        }
                    };
                    acc = Some(match acc { None => call, Some(a) => parse_quote!((match #call { Ok(()) => #a, Err(__e) => Err(__e) })) });
                }
                Some(acc.unwrap_or_else(|| parse_quote!(Ok(()))))
            }
            _ => None,
        }
    }
}

fn parse_matches(ts: TokenStream) -> Option<(Expr, Pat, Option<Expr>)> {
    use syn::parse::{Parse, ParseStream};
    struct MM(Expr, Pat, Option<Expr>);
    impl Parse for MM {
        fn parse(i: ParseStream) -> syn::Result<Self> {
            let e: Expr = i.parse()?;
            i.parse::<Token![,]>()?;
            let p = Pat::parse_multi_with_leading_vert(i)?;
            let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None };
            let _ = i.parse::<Option<Token![,]>>();
            Ok(MM(e, p, g))
        }
    }
    syn::parse2::<MM>(ts).ok().map(|m| (m.0, m.1, m.2))
}

fn simple_ident(p: &Pat) -> bool { matches!(p, Pat::Ident(i) if i.by_ref.is_none()) }

pub struct HasReturn { pub r: bool }
impl<'a> Visit<'a> for HasReturn {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::Return(_) | Expr::Try(_) => self.r = true,
            Expr::Closure(_) => return,
            _ => {}
        }
        visit::visit_expr(self, e);
    }
}

struct FreeVars { used: BTreeSet<String>, assigned: BTreeSet<String>, declared: BTreeSet<String>, self_used: bool }
impl FreeVars {
    fn root(e: &Expr) -> Option<String> {
        match e {
            Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
            Expr::Field(f) => Self::root(&f.base),
            Expr::Paren(p) => Self::root(&p.expr),
            Expr::Index(i) => Self::root(&i.expr),
            _ => None,
        }
    }
}
impl<'a> Visit<'a> for FreeVars {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::Call(c) if matches!(&*c.func, Expr::Path(_)) => {
                for a in &c.args { self.visit_expr(a); }
                return;
            }
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    if i == "self" { self.self_used = true; } else { self.used.insert(i.to_string()); }
                }
            }
            Expr::Assign(a) => { if let Some(r) = Self::root(&a.left) { self.assigned.insert(r); } }
            Expr::Binary(b) => {
                use BinOp::*;
                if matches!(b.op, AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitOrAssign(_) | BitAndAssign(_) | BitXorAssign(_)) {
                    if let Some(r) = Self::root(&b.left) { self.assigned.insert(r); }
                }
            }
            Expr::Reference(r) if r.mutability.is_some() => { if let Some(r) = Self::root(&r.expr) { self.assigned.insert(r); } }
            _ => {}
        }
        visit::visit_expr(self, e);
    }
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.declared.insert(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
}
struct Derefs<'a> { names: &'a BTreeSet<String> }
impl<'a> VisitMut for Derefs<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Reference(r) = e {
            if let Expr::Path(p) = &*r.expr {
                if let Some(i) = p.path.get_ident() {
                    if self.names.contains(&i.to_string()) {
                        // &x -> &*x, &mut x -> &mut *x
                        let m = &r.mutability;
                        *e = parse_quote!(&#m *#i);
                        return;
                    }
                }
            }
        }
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                if self.names.contains(&i.to_string()) { *e = parse_quote!((*#i)); return; }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

impl VisitMut for Xf {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(e) = self.mac(&m.mac) {
                *s = Stmt::Expr(e, m.semi_token.or(Some(Default::default())));
                return;
            }
        }
        if let Stmt::Local(l) = s { if let Some(i) = &l.init { if has_call(&i.expr, "meta_f64") { second_of_tuple(&l.pat, &mut self.f64_vars); } } }
        // let with a reference / parameter pattern
        if let Stmt::Local(l) = s {
            if let (Pat::Reference(_), Some(i)) = (&l.pat, &l.init) {
                if i.diverge.is_none() {
                    let mut e = (*i.expr).clone();
                    self.visit_expr_mut(&mut e);
                    if !simple_place(&e) { self.un.push("let with reference pattern".into()); return; }
                    let mut out = vec![];
                    bind(&l.pat, &e, true, &mut out);
                    if out.len() == 1 { *s = out.pop().unwrap(); return; }
                    self.un.push("let with reference pattern".into());
                    return;
                }
            }
        }
        if let Stmt::Local(Local { pat: Pat::Ident(i), init: Some(li), .. }) = s {
            if let Expr::MethodCall(m) = &*li.expr {
                if m.method == "char_indices" && m.args.is_empty() {
                    self.ci_vars.insert(i.ident.to_string());
                    let r = &m.receiver;
                    let (id, mu) = (&i.ident, &i.mutability);
                    *s = parse_quote!(let #mu #id = VpCI::vp_new(&#r););
                    return;
                }
            }
        }
        // s.encode_utf8(&mut buf);
        if let Stmt::Expr(Expr::MethodCall(m), Some(_)) = s {
            if m.method == "encode_utf8" && m.args.len() == 1 {
                let r = &m.receiver;
                let a = &m.args[0];
                *s = parse_quote!(vp_encode_utf8(#r, #a););
                return;
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        // remember variables bound by Err(x): they hold a Range<..>
        let mut ev = ErrVars { v: vec![] };
        ev.visit_pat(&a.pat);
        let old = self.err_vars.clone();
        for v in ev.v { self.err_vars.insert(v); }
        visit_mut::visit_arm_mut(self, a);
        self.err_vars = old;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // `while let` is a loop that is left when the pattern does not match
        if let Expr::While(w) = e {
            if matches!(&*w.cond, Expr::Let(_)) {
                let (l, c, b) = (&w.label, &w.cond, &w.body);
                *e = parse_quote!(#l loop { if #c #b else { break; } });
            }
        }
        // macros first (their arguments are visited inside)
        if let Expr::Macro(m) = e {
            if let Some(x) = self.mac(&m.mac) { *e = x; return; }
        }
        if let Expr::MethodCall(m) = e {
            // closures that become functions need their surroundings before children are rewritten
            if m.method == "collect" || m.method == "count" || m.method == "find" || m.method == "position" || m.method == "any" || m.method == "all" || m.method == "fold" || m.method == "for_each" {
                if let Some(mut x) = self.terminal(m) { self.visit_expr_mut(&mut x); *e = x; return; }
            }
        }
        // b |= true
        if let Expr::Binary(b) = e {
            if let (Expr::Path(_), BinOp::BitOrAssign(_), Expr::Lit(ExprLit { lit: Lit::Bool(_), .. })) = (&*b.left, &b.op, &*b.right) {
                let (l, r) = (&b.left, &b.right);
                *e = parse_quote!(#l = #l || #r);
                return;
            }
        }
        // ::std::usize::MAX, std::u32::MAX
        if let Expr::Path(p) = e {
            let n = p.path.segments.len();
            if n >= 3 && p.qself.is_none() {
                let f = p.path.segments[0].ident.to_string();
                let t = p.path.segments[n - 2].ident.clone();
                let c = p.path.segments[n - 1].ident.clone();
                if (f == "std" || f == "core") && n == 3 && ["usize", "isize", "u8", "u16", "u32", "u64", "i32", "i64"].contains(&t.to_string().as_str()) && (c == "MAX" || c == "MIN") { *e = parse_quote!(#t::#c); return; }
            }
        }
        // variables known to hold an f64 (value read by meta_f64 or by a MetaData::F64 pattern)
        if let Expr::Let(l) = e { if has_call(&l.expr, "meta_f64") { second_of_tuple(&l.pat, &mut self.f64_vars); } }
        if let Expr::Match(m) = e { if has_call(&m.expr, "meta_f64") { for a in &m.arms { second_of_tuple(&a.pat, &mut self.f64_vars); } } }
        if let Expr::Cast(c) = e {
            if c.ty.to_token_stream().to_string() == "usize" {
                let mut x = &*c.expr;
                loop { match x { Expr::Paren(p) => x = &p.expr, Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => x = expr, _ => break } }
                if let Expr::Path(p) = x {
                    if p.path.get_ident().map_or(false, |i| self.f64_vars.contains(&i.to_string())) {
                        let a = &c.expr;
                        *e = parse_quote!(vp_f64_as_usize(#a));
                        return;
                    }
                }
            }
        }
        // a temporary behind a mutable reference
        if let Expr::Call(c) = e {
            let tmp = |a: &Expr| if let Expr::Reference(r) = a { r.mutability.is_some() && !dup_place(&r.expr) } else { false };
            if c.args.iter().any(|a| tmp(a)) && c.args.iter().all(|a| tmp(a) || simple_arg(a)) {
                let mut pre: Vec<Stmt> = vec![];
                for a in c.args.iter_mut() {
                    if !tmp(a) { continue; }
                    let v = format_ident!("__t{}", self.n);
                    self.n += 1;
                    if let Expr::Reference(r) = a { let x = &r.expr; pre.push(parse_quote!(let mut #v = #x;)); }
                    *a = parse_quote!(&mut #v);
                }
                let c2 = c.clone();
                *e = parse_quote!({ #(#pre)* #c2 });
            }
        }
        if let Expr::ForLoop(f) = e {
            if let Some(mut x) = self.do_for(f) { self.visit_expr_mut(&mut x); *e = x; return; }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Match(m) => { for a in m.arms.iter_mut() { Inner(0).visit_pat_mut(&mut a.pat); } }
            Expr::Let(l) => Inner(0).visit_pat_mut(&mut l.pat),
            _ => {}
        }
        match e {
            Expr::Match(m) if matches!(&*m.expr, Expr::Tuple(_)) => {
                // `&P` with `ref` names inside a tuple: the same with default binding
                for a in m.arms.iter_mut() { if let Pat::Tuple(t) = &mut a.pat { for x in t.elems.iter_mut() { if has_ref(x) == Some(false) && !by_value(x) { strip_pat(x); Unref.visit_pat_mut(x); } } } }
                if m.arms.iter().any(|a| a.guard.is_some()) { *e = self.guards(m.clone()); }
            }
            Expr::Match(m) => {
                let rs: Vec<bool> = m.arms.iter().filter_map(|a| has_ref(&a.pat)).collect();
                if let Some(&mu) = rs.first() {
                    for a in m.arms.iter_mut() {
                        let had = strip_pat(&mut a.pat);
                        if !had { ident_to_ref(&mut a.pat, mu); }
                    }
                    *m.expr = deref(&m.expr);
                }
                if m.arms.iter().any(|a| a.guard.is_some()) { *e = self.guards(m.clone()); }
            }
            Expr::Let(l) => {
                if has_ref(&l.pat).is_some() {
                    strip_pat(&mut l.pat);
                    *l.expr = deref(&l.expr);
                }
            }
            Expr::MethodCall(m) => {
                let (r, a0) = (&m.receiver, m.args.first());
                let lit = |x: &str| a0.map_or(false, |a| a.to_token_stream().to_string() == x);
                if m.method == "clone" && m.args.is_empty() {
                    m.method = Ident::new("vclone", Span::call_site());
                } else if m.method == "is_whitespace" && m.args.is_empty() {
                    *e = parse_quote!(vp_is_ws(#r));
                } else if m.method == "is_digit" && m.args.len() == 1 && lit("10") {
                    *e = parse_quote!(vp_is_digit(#r));
                } else if m.method == "to_digit" && m.args.len() == 1 && lit("16") {
                    *e = parse_quote!(vp_to_digit16(#r));
                } else if m.method == "starts_with" && m.args.len() == 1 {
                    *e = if let Some(Expr::Lit(ExprLit { lit: Lit::Char(_), .. })) = a0 { parse_quote!(vp_starts_with_char(&#r, #a0)) } else { parse_quote!(vp_starts_with(&#r, &#a0)) };
                } else if m.method == "push" && m.args.len() == 1 && !dup_place(a0.unwrap()) && has_ctl(a0.unwrap()) {
                    // the argument may leave the function
                    let v = format_ident!("__t{}", self.n);
                    self.n += 1;
                    *e = parse_quote!({ let #v = #a0; #r.push(#v) });
                } else if m.method == "into" && m.args.is_empty() && matches!(&**r, Expr::Lit(ExprLit { lit: Lit::Str(_), .. })) {
                    *e = parse_quote!(vp_string(#r));
                } else if m.method == "into" && m.args.is_empty() && self.str_slices && matches!(&**r, Expr::Call(_)) {
                    *e = parse_quote!(vp_string(#r));
                } else if m.args.iter().any(|a| matches!(a, Expr::Closure(_))) {
                    let mm = m.clone();
                    if let Some(x) = self.closure_method(&mm) { *e = x; }
                }
            }
            Expr::Index(ix) if self.str_slices => {
                if let Expr::Range(r) = &*ix.index {
                    let b = &ix.expr;
                    let x: Expr = match (&r.start, &r.end) {
                        (Some(a), None) => parse_quote!(vp_str_from(#b, #a)),
                        (None, Some(z)) => parse_quote!(vp_str_to(#b, #z)),
                        (Some(a), Some(z)) => parse_quote!(vp_str_mid(#b, #a, #z)),
                        _ => return,
                    };
                    if matches!(r.limits, RangeLimits::HalfOpen(_)) { *e = x; }
                }
            }
            Expr::Reference(r) if self.str_slices && r.mutability.is_none() => {
                if let Expr::Call(c) = &*r.expr { if c.func.to_token_stream().to_string().starts_with("vp_str_") { *e = (*r.expr).clone(); } }
            }
            Expr::Call(c) => {
                let n = c.func.to_token_stream().to_string().replace(' ', "");
                if n == "char::from_u32" || n == "std::char::from_u32" { *c.func = parse_quote!(vp_char_from_u32); }
                else if n == "String::with_capacity" { *c.func = parse_quote!(vp_string_cap); }
                else if n == "String::from_utf8" { *c.func = parse_quote!(vp_from_utf8); }
                else if n != "crate" && c.func.to_token_stream().into_iter().count() == 1 && !self.fn_vars.contains(&n) && self.env.iter().any(|(a, t)| *a == n && matches!(t, Type::Reference(_))) {
                    // a function with the name of a (reference) parameter was called by its path: the parameter is no closure
                    let f = &c.func; *c.func = parse_quote!(crate::#f);
                }
                else if self.fn_vars.contains(&n) { let f = &c.func; let a = &c.args; *e = parse_quote!(#f.vp_call(#a)); }
            }
            _ => {}
        }
    }
}
/// lazy_static! { static ref NAME: T = init; }: the value, computed where it is declared
pub struct Lazy;
impl VisitMut for Lazy {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if m.mac.path.segments.last().map_or(false, |x| x.ident == "lazy_static") {
                if let Some(st) = lazy_static(m.mac.tokens.clone()) { *s = st; }
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}
fn lazy_static(t: TokenStream) -> Option<Stmt> {
    use syn::parse::{Parse, ParseStream};
    struct D { n: Ident, t: Type, e: Expr }
    impl Parse for D {
        fn parse(i: ParseStream) -> syn::Result<D> {
            i.parse::<Token![static]>()?; i.parse::<Token![ref]>()?;
            let n = i.parse()?; i.parse::<Token![:]>()?;
            let t = i.parse()?; i.parse::<Token![=]>()?;
            let e = i.parse()?; i.parse::<Token![;]>()?;
            Ok(D { n, t, e })
        }
    }
    let D { n, t, e } = syn::parse2::<D>(t).ok()?;
    Some(parse_quote!(let #n: #t = #e;))
}
struct Ctl { r: bool }
impl<'a> Visit<'a> for Ctl {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e { Expr::Return(_) | Expr::Try(_) | Expr::Break(_) | Expr::Continue(_) => self.r = true, _ => {} }
        visit::visit_expr(self, e);
    }
}
fn has_ctl(e: &Expr) -> bool { let mut c = Ctl { r: false }; c.visit_expr(e); c.r }
fn has_call(e: &Expr, name: &str) -> bool {
    match e {
        Expr::MethodCall(m) => m.method == name || has_call(&m.receiver, name),
        Expr::Try(t) => has_call(&t.expr, name),
        Expr::Paren(p) => has_call(&p.expr, name),
        _ => false,
    }
}
fn second_of_tuple(p: &Pat, out: &mut BTreeSet<String>) {
    match p {
        Pat::TupleStruct(t) => for q in &t.elems { second_of_tuple(q, out) },
        Pat::Tuple(t) => if let Some(Pat::Ident(i)) = t.elems.last() { out.insert(i.ident.to_string()); },
        Pat::Paren(q) => second_of_tuple(&q.pat, out),
        _ => {}
    }
}
fn simple_arg(e: &Expr) -> bool {
    match e {
        Expr::Reference(r) => simple_arg(&r.expr),
        e => dup_place(e),
    }
}
struct ErrVars { v: Vec<String> }
impl<'a> Visit<'a> for ErrVars {
    fn visit_pat_tuple_struct(&mut self, p: &'a PatTupleStruct) {
        if p.path.is_ident("Err") && p.elems.len() == 1 {
            if let Pat::Ident(i) = &p.elems[0] { self.v.push(i.ident.to_string()); }
        }
        visit::visit_pat_tuple_struct(self, p);
    }
}
