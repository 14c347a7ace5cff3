//! vextract: mechanical extraction of Rust source into the subset that Verus accepts.
//!
//! usage: vextract [--known KEYFILE] FILE...
//!
//! Reads the given source files, and prints one JSON document with every type and
//! function it found, the function bodies rewritten by the rules listed in
//! /verif/DESIGN.md ("What the extraction drops and rewrites").  It never looks at
//! contracts; weaving the contracts in is the job of tools/weave.py.
mod xf;
mod inline;

use proc_macro2::{Span, TokenStream};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use syn::visit_mut::VisitMut;
use syn::*;

pub static STR_SLICES: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub struct Func {
    pub key: String,
    pub name: String,
    pub owner: Option<String>,
    pub impl_generics: String,
    pub self_ty: String,
    pub sig: Signature,
    pub block: Block,
    pub file: String,
    pub line: usize,
    pub unsupported: Vec<String>,
    pub notes: Vec<String>,
    pub nloops: usize,
    pub locals: Vec<(String, String)>,
}

pub struct Ty {
    pub name: String,
    pub text: String,
    pub derives: Vec<String>,
    pub kind: &'static str,
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string().replace(' ', "");
        s.contains("cfg(test)") || s == "#[test]" || s == "#[bench]"
    })
}

fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            if let Meta::List(l) = &a.meta {
                for t in l.tokens.to_string().split(',') {
                    v.push(t.trim().to_string());
                }
            }
        }
    }
    v
}

pub struct Paths<'a> {
    pub mods: &'a BTreeSet<String>,
    /// names under which the file imports items of `std::fmt` and `std::io`
    pub uses: &'a BTreeMap<String, String>,
}
/// `use` declarations of items of `std::fmt` and `std::io` whose short name is ambiguous
fn std_uses(t: &UseTree, pre: &str, o: &mut BTreeMap<String, String>) {
    let full = |i: &Ident| if pre.is_empty() { i.to_string() } else { format!("{}::{}", pre, i) };
    let mut add = |f: String, n: String| {
        if ["std::fmt::Error", "std::fmt::Result", "std::fmt::Formatter", "std::io::Error", "std::io::Write", "std::fmt", "std::io"].contains(&f.as_str()) { o.insert(n, f); }
    };
    match t {
        UseTree::Path(p) => std_uses(&p.tree, &full(&p.ident), o),
        UseTree::Name(n) => {
            if n.ident == "self" { add(pre.to_string(), pre.rsplit("::").next().unwrap().to_string()) } else { add(full(&n.ident), n.ident.to_string()) }
        }
        UseTree::Rename(r) => {
            if r.ident == "self" { add(pre.to_string(), r.rename.to_string()) } else { add(full(&r.ident), r.rename.to_string()) }
        }
        UseTree::Group(g) => for x in &g.items { std_uses(x, pre, o) },
        UseTree::Glob(_) => {}
    }
}
impl<'a> VisitMut for Paths<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        if let Some(f) = self.uses.get(&p.segments[0].ident.to_string()) {
            let mut np: Path = parse_str(f).unwrap();
            np.segments.last_mut().unwrap().arguments = p.segments[0].arguments.clone();
            np.segments.extend(p.segments.iter().skip(1).cloned());
            *p = np;
        }
        loop {
            if p.segments.len() < 2 { break; }
            let s = p.segments[0].ident.to_string();
            let strip = matches!(s.as_str(), "self" | "super" | "crate" | "all") || self.mods.contains(&s);
            if !strip { break; }
            p.segments = p.segments.iter().skip(1).cloned().collect();
            p.leading_colon = None;
        }
        if p.segments.len() > 1 && p.segments[0].ident == "std" {
            p.leading_colon = None;
            let l = p.segments.last().unwrap().clone();
            let full: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
            let full = full.join("::");
            if full == "std::cmp::min" || full == "std::cmp::max" || full.starts_with("std::sync::Arc")
                || full == "std::boxed::Box" || full == "std::vec::Vec" || full == "std::string::String" {
                let mut np = Path { leading_colon: None, segments: Default::default() };
                np.segments.push(l);
                *p = np;
            }
        }
        p.leading_colon = None;
        let full: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        match full.join("::").as_str() {
            "min" => { p.segments[0].ident = Ident::new("vp_min", Span::call_site()); }
            "max" => { p.segments[0].ident = Ident::new("vp_max", Span::call_site()); }
            "cmp::min" => { *p = parse_quote!(vp_min); }
            "cmp::max" => { *p = parse_quote!(vp_max); }
            "std::fmt::Error" | "fmt::Error" => { *p = parse_quote!(VIoError); }
            "std::fmt::Result" | "fmt::Result" => { *p = parse_quote!(Result<(), VIoError>); }
            "std::fmt::Formatter" | "fmt::Formatter" | "Formatter" => { *p = parse_quote!(VFormatter); }
            "std::io::Error" | "io::Error" => { *p = parse_quote!(VIoError); }
            "std::io::Write" | "io::Write" | "Write" => { *p = parse_quote!(VWrite); }
            _ => {}
        }
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) { a.clear(); }
    fn visit_block_mut(&mut self, b: &mut Block) {
        // nested `use` items carry no behaviour once paths are flattened
        b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Use(_))));
        // a constant of the block: a variable bound at its start
        let consts: Vec<ItemConst> = b.stmts.iter().filter_map(|s| if let Stmt::Item(Item::Const(c)) = s { Some(c.clone()) } else { None }).collect();
        if !consts.is_empty() {
            b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Const(_))));
            for (k, c) in consts.into_iter().enumerate() {
                let (i, t, e) = (&c.ident, &c.ty, &c.expr);
                b.stmts.insert(k, parse_quote!(let #i: #t = #e;));
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
}

struct Ctx {
    tys: Vec<Ty>,
    funcs: Vec<Func>,
    dropped: Vec<String>,
    aliases: Vec<String>,
    consts: Vec<String>,
    mods: BTreeSet<String>,
    uses: BTreeMap<String, String>,
}

impl Ctx {
    fn push_fn(&mut self, key_prefix: &str, owner: Option<String>, ig: String, st: String, mut sig: Signature, mut block: Block, file: &str) {
        let line = sig.ident.span().start().line;
        // hoist nested functions
        let mut nested = vec![];
        block.stmts.retain(|s| {
            if let Stmt::Item(Item::Fn(f)) = s { nested.push(f.clone()); false } else { true }
        });
        let name = sig.ident.to_string();
        let key = match &owner { Some(o) => format!("{}::{}", o, name), None => format!("{}{}", key_prefix, name) };
        for f in nested {
            self.push_fn("", None, String::new(), String::new(), f.sig, *f.block, file);
        }
        let mut p = Paths { mods: &self.mods, uses: &self.uses };
        xf::Lazy.visit_block_mut(&mut block);
        p.visit_signature_mut(&mut sig);
        p.visit_block_mut(&mut block);
        self.funcs.push(Func { key, name, owner, impl_generics: ig, self_ty: st, sig, block, file: file.into(), line,
            unsupported: vec![], notes: vec![], nloops: 0, locals: vec![] });
    }
    fn items(&mut self, items: Vec<Item>, file: &str) {
        for it in items {
            match it {
                Item::Use(_) | Item::ExternCrate(_) => {}
                Item::Fn(f) => {
                    if is_test(&f.attrs) { continue; }
                    self.push_fn("", None, String::new(), String::new(), f.sig, *f.block, file);
                }
                Item::Struct(mut s) => {
                    if is_test(&s.attrs) { continue; }
                    let d = derives(&s.attrs);
                    Paths { mods: &self.mods, uses: &self.uses }.visit_item_struct_mut(&mut s);
                    s.attrs.clear();
                    s.vis = parse_quote!(pub);
                    for f in s.fields.iter_mut() { f.attrs.clear(); f.vis = parse_quote!(pub); }
                    self.tys.push(Ty { name: s.ident.to_string(), text: s.to_token_stream().to_string(), derives: d, kind: "struct" });
                }
                Item::Enum(mut s) => {
                    if is_test(&s.attrs) { continue; }
                    let d = derives(&s.attrs);
                    Paths { mods: &self.mods, uses: &self.uses }.visit_item_enum_mut(&mut s);
                    s.attrs.clear();
                    s.vis = parse_quote!(pub);
                    for v in s.variants.iter_mut() { v.attrs.clear(); for f in v.fields.iter_mut() { f.attrs.clear(); } }
                    self.tys.push(Ty { name: s.ident.to_string(), text: s.to_token_stream().to_string(), derives: d, kind: "enum" });
                }
                Item::Type(mut t) => {
                    Paths { mods: &self.mods, uses: &self.uses }.visit_item_type_mut(&mut t);
                    t.attrs.clear();
                    t.vis = parse_quote!(pub);
                    self.aliases.push(t.to_token_stream().to_string());
                }
                Item::Const(mut t) => {
                    Paths { mods: &self.mods, uses: &self.uses }.visit_item_const_mut(&mut t);
                    t.attrs.clear();
                    t.vis = parse_quote!(pub);
                    self.consts.push(t.to_token_stream().to_string());
                }
                Item::Mod(m) => {
                    if is_test(&m.attrs) { continue; }
                    if let Some((_, its)) = m.content { self.items(its, file); }
                }
                Item::Impl(im) => {
                    if is_test(&im.attrs) { continue; }
                    let mut st = (*im.self_ty).clone();
                    Paths { mods: &self.mods, uses: &self.uses }.visit_type_mut(&mut st);
                    let owner = match &st {
                        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                        _ => st.to_token_stream().to_string(),
                    };
                    if let Some((_, tr, _)) = &im.trait_ {
                        let t = tr.segments.last().unwrap().ident.to_string();
                        // `Default` and `Display` become inherent functions; other formatting, equality and
                        // conversion impls are not part of any contract.
                        if t != "Default" && t != "Display" {
                            self.dropped.push(format!("impl {} for {}", t, owner));
                            continue;
                        }
                    }
                    let (ig, _, wc) = im.generics.split_for_impl();
                    let ig = format!("{} {}", ig.to_token_stream(), "");
                    if wc.is_some() { self.dropped.push(format!("where clause on impl {}", owner)); }
                    for x in im.items {
                        if let ImplItem::Fn(f) = x {
                            if is_test(&f.attrs) { continue; }
                            self.push_fn("", Some(owner.clone()), ig.trim().to_string(), st.to_token_stream().to_string(), f.sig, f.block, file);
                        }
                    }
                }
                Item::Macro(m) => { self.dropped.push(format!("macro {}", m.mac.path.to_token_stream())); }
                other => { self.dropped.push(format!("item {}", other.to_token_stream().to_string().chars().take(60).collect::<String>())); }
            }
        }
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))
}

fn rustfmt(bodies: &[String]) -> std::result::Result<Vec<String>, String> {
    let mut src = String::new();
    for (i, b) in bodies.iter().enumerate() {
        src.push_str(&format!("fn __vp_b{}() {}\n", i, b));
    }
    let mut ch = std::process::Command::new("rustfmt")
        .args(["--edition", "2018", "--config", "max_width=140,use_small_heuristics=Off,control_brace_style=AlwaysSameLine"])
        .stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped())
        .spawn().map_err(|e| e.to_string())?;
    ch.stdin.take().unwrap().write_all(src.as_bytes()).map_err(|e| e.to_string())?;
    let out = ch.wait_with_output().map_err(|e| e.to_string())?;
    if !out.status.success() {
        return Err(format!("{}\n---\n{}", String::from_utf8_lossy(&out.stderr), src));
    }
    let t = String::from_utf8(out.stdout).map_err(|e| e.to_string())?;
    let mut res = vec![];
    let mut cur: Option<String> = None;
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("fn __vp_b") {
            if let Some(c) = cur.take() { res.push(c); }
            let k = r.find("() ").unwrap();
            cur = Some(format!("{}\n", &r[k + 3..]));
        } else if let Some(c) = cur.as_mut() {
            c.push_str(l);
            c.push('\n');
        }
    }
    if let Some(c) = cur.take() { res.push(c); }
    Ok(res)
}

fn main() {
    let mut known: BTreeSet<String> = BTreeSet::new();
    let mut files = vec![];
    let mut args = std::env::args().skip(1);
    while let Some(a) = args.next() {
        if a == "--known" {
            let f = args.next().unwrap();
            for l in std::fs::read_to_string(&f).expect("known file").lines() {
                if !l.trim().is_empty() { known.insert(l.trim().to_string()); }
            }
        } else if a == "--str-slices" { STR_SLICES.store(true, std::sync::atomic::Ordering::Relaxed); }
        else { files.push(a); }
    }
    let mut cx = Ctx { tys: vec![], funcs: vec![], dropped: vec![], aliases: vec![], consts: vec![], mods: BTreeSet::new(), uses: BTreeMap::new() };
    for m in ["meta_rules", "tokenizer", "parse_error", "parse_error_handler", "bootstrap", "json", "optimize",
              "range", "read_token", "piston_meta", "convert", "rules"] {
        cx.mods.insert(m.to_string());
    }
    for f in &files {
        let stem = std::path::Path::new(f).file_stem().unwrap().to_string_lossy().to_string();
        if stem != "lib" && stem != "mod" { cx.mods.insert(stem); }
    }
    for f in &files {
        let src = match std::fs::read_to_string(f) { Ok(s) => s, Err(e) => { eprintln!("{}: {}", f, e); std::process::exit(3); } };
        let ast = match parse_file(&src) { Ok(a) => a, Err(e) => { eprintln!("{}: {}", f, e); std::process::exit(3); } };
        cx.uses.clear();
        for it in &ast.items { if let Item::Use(u) = it { std_uses(&u.tree, "", &mut cx.uses); } }
        cx.items(ast.items, f);
    }
    // disambiguate equal keys (first definition keeps the plain key)
    let mut seen: BTreeMap<String, usize> = BTreeMap::new();
    for f in cx.funcs.iter_mut() {
        let n = seen.entry(f.key.clone()).or_insert(0);
        if *n > 0 {
            f.key = format!("{}#{}", f.key, n);
            f.name = format!("{}__{}", f.name, n);
            f.notes.push("name collision after flattening".into());
            f.sig.ident = Ident::new(&f.name, Span::call_site());
        }
        *n += 1;
    }
    // functions without a contract are inlined at their call sites
    if !known.is_empty() { inline::inline_helpers(&mut cx.funcs, &known); }
    xf::returns(&cx.funcs);
    let mut extra = vec![];
    for f in cx.funcs.iter_mut() { xf::transform(f, &mut extra); }
    cx.funcs.extend(extra);
    let mut bodies = vec![];
    for f in cx.funcs.iter_mut() {
        let mut b = f.block.to_token_stream().to_string();
        xf::renumber_loops(f, &mut b);
        bodies.push(b);
    }
    let fm = match rustfmt(&bodies) { Ok(x) => x, Err(e) => { eprintln!("rustfmt: {}", e); std::process::exit(4); } };
    assert_eq!(fm.len(), bodies.len());
    let mut o = String::from("{\n\"types\":[\n");
    o.push_str(&cx.tys.iter().map(|t| format!("{{\"name\":{},\"kind\":{},\"text\":{},\"derives\":{}}}", js(&t.name), js(t.kind), js(&t.text), jl(&t.derives))).collect::<Vec<_>>().join(",\n"));
    o.push_str("\n],\n\"aliases\":"); o.push_str(&jl(&cx.aliases));
    o.push_str(",\n\"consts\":"); o.push_str(&jl(&cx.consts));
    o.push_str(",\n\"dropped\":"); o.push_str(&jl(&cx.dropped));
    o.push_str(",\n\"functions\":[\n");
    let mut first = true;
    for (f, b) in cx.funcs.iter().zip(fm.iter()) {
        if !first { o.push_str(",\n"); }
        first = false;
        let inputs = { let i = &f.sig.inputs; quote!(#i).to_string() };
        let gen = { let g = &f.sig.generics; let (a, _, _) = g.split_for_impl(); quote!(#a).to_string() };
        let wh = { let g = &f.sig.generics; let w = &g.where_clause; quote!(#w).to_string() };
        let ret = match &f.sig.output { ReturnType::Default => String::new(), ReturnType::Type(_, t) => quote!(#t).to_string() };
        let locals: Vec<String> = f.locals.iter().map(|(a, b)| format!("[{},{}]", js(a), js(b))).collect();
        o.push_str(&format!("{{\"key\":{},\"name\":{},\"owner\":{},\"impl_generics\":{},\"self_ty\":{},\"generics\":{},\"inputs\":{},\"ret\":{},\"where\":{},\"file\":{},\"line\":{},\"nloops\":{},\"unsupported\":{},\"notes\":{},\"locals\":[{}],\"body\":{}}}",
            js(&f.key), js(&f.name), match &f.owner { Some(x) => js(x), None => "null".into() }, js(&f.impl_generics), js(&f.self_ty),
            js(&gen), js(&inputs), js(&ret), js(&wh), js(&f.file), f.line, f.nloops, jl(&f.unsupported), jl(&f.notes), locals.join(","), js(b)));
    }
    o.push_str("\n]}\n");
    println!("{}", o);
    let _ = TokenStream::new();
}
