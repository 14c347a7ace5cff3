//! Conversion, references and cursor: C11..C14.
use crate::gen::*;
use crate::rng::Rng;
use crate::Out;
use piston_meta::bootstrap::convert;
use piston_meta::meta_rules::*;
use piston_meta::*;

type D = Range<MetaData>;
fn sn(n: &str) -> MetaData { MetaData::StartNode(st(n)) }
fn en(n: &str) -> MetaData { MetaData::EndNode(st(n)) }

// ---- generator of descriptions -------------------------------------------------------------
fn junk(r: &mut Rng, out: &mut Vec<MetaData>) {
    match r.n(7) {
        0 => out.push(MetaData::Bool(st(*r.pick(&["optional", "zzz", "not", "indent"])), r.b())),
        1 => out.push(MetaData::String(st(*r.pick(&["name", "zzz", "text", "ref", "value"])), st("q"))),
        2 => out.push(MetaData::F64(st(*r.pick(&["id", "zzz"])), *r.pick(&[3.0, -1.0, 1e300, f64::NAN, 1.8e16]))),
        3 => { out.push(sn("zzz")); out.push(en("zzz")); }
        4 => { out.push(sn("zzz")); junk(r, out); out.push(sn("y")); out.push(en("y")); out.push(en("zzz")); }
        5 => { let k = *r.pick(&["rule", "by", "property", "text", "tag"]); out.push(sn(k)); junk(r, out); out.push(en(k)); }
        _ => {}
    }
}
fn set(r: &mut Rng, node: &str) -> Vec<MetaData> {
    let mut v = vec![sn(node)];
    for _ in 0..1 + r.n(5) / 4 {
        if r.b() { v.push(MetaData::String(st("ref"), st(*r.pick(&["s0", "s1", "s2", "nope"])))); }
        else { v.push(MetaData::String(st("value"), st(*r.pick(&["a", "bé", ""])))); }
    }
    if r.p(1, 25) { junk(r, &mut v); }
    v.push(en(node));
    v
}
fn boolean(r: &mut Rng, n: &str) -> Vec<MetaData> { vec![MetaData::Bool(st(n), r.b())] }
fn wrap(r: &mut Rng, node: &str, mut at: Vec<Vec<MetaData>>, out: &mut Vec<MetaData>, keep: bool) {
    if !keep {
        if r.p(1, 3) && at.len() > 1 { let i = r.n(at.len()); let j = r.n(at.len()); at.swap(i, j); }
        if r.p(1, 8) && !at.is_empty() { let i = r.n(at.len()); at.remove(i); }
        if r.p(1, 10) && !at.is_empty() { let i = r.n(at.len()); let x = at[i].clone(); at.push(x); }
    }
    out.push(sn(node));
    for a in at { if r.p(1, 12) { junk(r, out); } out.extend(a); }
    if r.p(1, 12) { junk(r, out); }
    out.push(en(node));
}
fn rule(r: &mut Rng, prop: &str, d: usize) -> Vec<MetaData> {
    let mut o = vec![];
    let k = if d == 0 { r.n(7) } else { r.n(14) };
    let mut inner = vec![];
    let opt = |r: &mut Rng, v: Vec<MetaData>| if r.p(2, 3) { v } else { vec![] };
    match k {
        0 => { let b = boolean(r, "optional"); inner.push(sn("whitespace")); if r.p(14, 15) { inner.extend(b); } if r.p(1, 15) { junk(r, &mut inner); } inner.push(en("whitespace")); }
        1 => { let (a, b) = (set(r, "text"), set(r, "property")); let (c, e) = (boolean(r, "not"), boolean(r, "inverted")); let v = vec![a, opt(r, b), opt(r, c), opt(r, e)]; wrap(r, "tag", v, &mut inner, false) }
        2 => { let (a, b) = (set(r, "any_characters"), set(r, "property")); let c = boolean(r, "optional"); let v = vec![a, opt(r, c), opt(r, b)]; wrap(r, "until_any", v, &mut inner, false) }
        3 => { let (a, b) = (set(r, "any_characters"), set(r, "property")); let c = boolean(r, "optional"); let v = vec![a, opt(r, c), opt(r, b)]; wrap(r, "until_any_or_whitespace", v, &mut inner, false) }
        4 => { let b = set(r, "property"); let c = boolean(r, "allow_empty"); let v = vec![opt(r, c), opt(r, b)]; wrap(r, "text", v, &mut inner, false) }
        5 => { let b = set(r, "property"); let c = boolean(r, "underscore"); let v = vec![opt(r, c), opt(r, b)]; wrap(r, "number", v, &mut inner, false) }
        6 => { let b = set(r, "property"); let n = vec![MetaData::String(st("name"), st(*r.pick(&["n0", "n1", "n2", "nx"])))]; let v = vec![n, opt(r, b)]; wrap(r, "reference", v, &mut inner, false) }
        7 | 8 => { let v = (0..r.n(4)).map(|_| rule(r, "rule", d - 1)).collect(); wrap(r, if k == 7 { "sequence" } else { "select" }, v, &mut inner, false) }
        9 | 10 => { let v = vec![rule(r, "rule", d - 1)]; let keep = r.p(9, 10); let n = if k == 9 { "optional" } else { "not" }; if keep { inner.push(sn(n)); inner.extend(v[0].clone()); inner.push(en(n)); } else { wrap(r, n, v, &mut inner, false) } }
        11 => { let (a, b) = (rule(r, "by", d - 1), rule(r, "rule", d - 1)); let (c, e) = (boolean(r, "optional"), boolean(r, "allow_trail")); let v = vec![opt(r, c), opt(r, e), a, b]; wrap(r, "separated_by", v, &mut inner, false) }
        12 => { inner.push(sn("lines")); if r.b() { let b = boolean(r, "indent"); inner.extend(b); } inner.extend(rule(r, "rule", d - 1)); if r.p(1, 20) { junk(r, &mut inner); } inner.push(en("lines")); }
        _ => { let a = rule(r, "rule", d - 1); let c = boolean(r, "optional"); let v = vec![c, a]; wrap(r, "repeat", v, &mut inner, false) }
    }
    o.push(sn(prop));
    o.extend(inner);
    if r.p(1, 40) { junk(r, &mut o); }
    o.push(en(prop));
    o
}
fn document(r: &mut Rng) -> Vec<MetaData> {
    let mut out = vec![];
    for i in 0..r.n(4) {
        let i = if r.p(1, 6) { 0 } else { i };
        let a = vec![vec![MetaData::String(st("name"), st(&format!("s{}", i)))], vec![MetaData::String(st("text"), st(*r.pick(&["x", "yy", "é"])))]];
        if r.p(9, 10) { out.push(sn("string")); if r.b() { out.extend(a[0].clone()); out.extend(a[1].clone()); } else { out.extend(a[1].clone()); out.extend(a[0].clone()); } out.push(en("string")); }
        else { wrap(r, "string", a, &mut out, false); }
    }
    for i in 0..r.n(4) {
        let i = if r.p(1, 6) { 0 } else { i };
        let id = vec![MetaData::F64(st("id"), *r.pick(&[0.0, 1.0, 2.0, 20.0, 3.7, -4.0, 1e300, 1.9e16, f64::NAN]))];
        let a = vec![id, vec![MetaData::String(st("name"), st(&format!("n{}", i)))], rule(r, "rule", 3)];
        let keep = r.p(5, 6);
        wrap(r, "node", a, &mut out, keep);
    }
    if r.p(1, 20) { junk(r, &mut out); }
    out
}
fn damage(r: &mut Rng, v: &mut Vec<MetaData>) {
    for _ in 0..1 + r.n(3) {
        let n = v.len();
        match r.n(6) {
            0 => { if n > 0 { v.remove(r.n(n)); } }
            1 => { if n > 0 { let i = r.n(n); let x = v[i].clone(); let j = r.n(n); v.insert(j, x); } }
            2 => { if n > 0 { let (i, j) = (r.n(n), r.n(n)); v.swap(i, j); } }
            3 => { v.truncate(r.n(n + 1)); }
            4 => { let k = *r.pick(&["node", "rule", "zzz", "tag", "sequence", "string", "select", "by"]); let i = r.n(n + 1); v.insert(i, if r.b() { sn(k) } else { en(k) }); }
            _ => { let i = r.n(n + 1); let mut j = vec![]; junk(r, &mut j); for x in j { v.insert(i, x); } }
        }
    }
}
fn ranged(r: &mut Rng, v: Vec<MetaData>) -> Vec<D> {
    let mut o = 0;
    v.into_iter().map(|d| { o += r.n(3); let l = r.n(3); let x = Range::new(o, l).wrap(d); o += l; x }).collect()
}

// ---- what a description means ----------------------------------------------------------------
struct Cv<'a> { d: &'a [D], strings: Vec<(S, S)>, ignored: Vec<Range>, id: usize }
impl<'a> Cv<'a> {
    fn at(&self, p: usize) -> Option<&'a MetaData> { self.d.get(p).map(|x| &x.data) }
    fn start(&self, p: usize, n: &str) -> bool { matches!(self.at(p), Some(MetaData::StartNode(x)) if **x == n) }
    fn end(&self, p: usize, n: &str) -> bool { matches!(self.at(p), Some(MetaData::EndNode(x)) if **x == n) }
    fn s(&self, p: usize, n: &str) -> Option<S> { match self.at(p) { Some(MetaData::String(x, v)) if **x == n => Some(v.clone()), _ => None } }
    fn b(&self, p: usize, n: &str) -> Option<bool> { match self.at(p) { Some(MetaData::Bool(x, v)) if **x == n => Some(*v), _ => None } }
    fn f(&self, p: usize, n: &str) -> Option<f64> { match self.at(p) { Some(MetaData::F64(x, v)) if **x == n => Some(*v), _ => None } }
    fn body<F: FnMut(&mut Self, usize) -> Option<usize>>(&mut self, p: usize, node: &str, skip: bool, mut f: F) -> Option<usize> {
        if !self.start(p, node) { return None; }
        let mut p = p + 1;
        loop {
            if self.end(p, node) { return Some(p + 1); }
            if let Some(q) = f(self, p) { p = q; continue; }
            if !skip { return None; }
            let n = skip_len(&self.d[p.min(self.d.len())..]);
            if n == 0 { return None; }
            self.ignored.push(Range::new(p, n));
            p += n;
        }
    }
    fn set(&mut self, p: usize, node: &str) -> Option<(usize, S)> {
        let mut t = None;
        let q = self.body(p, node, false, |c, p| {
            if let Some(v) = c.s(p, "ref") { t = c.strings.iter().find(|x| x.0 == v).map(|x| x.1.clone()); return Some(p + 1); }
            if let Some(v) = c.s(p, "value") { t = Some(v); return Some(p + 1); }
            None
        })?;
        Some((q, t?))
    }
    fn next(&mut self) -> usize { self.id += 1; self.id }
    fn rule(&mut self, p: usize, prop: &str) -> Option<(usize, Rule)> {
        if !self.start(p, prop) { return None; }
        let (q, r) = self.inner(p + 1)?;
        if self.end(q, prop) { Some((q + 1, r)) } else { None }
    }
    fn rules(&mut self, p: usize, node: &str) -> Option<(usize, Vec<Rule>)> {
        let mut v = vec![];
        let q = self.body(p, node, true, |c, p| c.rule(p, "rule").map(|(q, r)| { v.push(r); q }))?;
        Some((q, v))
    }
    fn single(&mut self, p: usize, node: &str) -> Option<(usize, Rule)> {
        let (q, r) = self.rule(p, "rule")?;
        if self.end(q, node) { Some((q + 1, r)) } else { None }
    }
    fn inner(&mut self, p: usize) -> Option<(usize, Rule)> {
        let kind = match self.at(p) { Some(MetaData::StartNode(n)) => n.clone(), _ => return None };
        Some(match &**kind {
            "sequence" => { let (q, args) = self.rules(p, "sequence")?; (q, Rule::Sequence(Sequence { debug_id: self.next(), args })) }
            "select" => { let (q, args) = self.rules(p, "select")?; (q, Rule::Select(Select { debug_id: self.next(), args })) }
            "until_any_or_whitespace" | "until_any" => {
                let (mut any, mut optional, mut property) = (None, false, None);
                let q = self.body(p, &kind, true, |c, p| {
                    if let Some((q, v)) = c.set(p, "any_characters") { any = Some(v); return Some(q); }
                    if let Some(v) = c.b(p, "optional") { optional = v; return Some(p + 1); }
                    if let Some((q, v)) = c.set(p, "property") { property = Some(v); return Some(q); }
                    None
                })?;
                let any_characters = any?;
                let debug_id = self.next();
                (q, if &**kind == "until_any" { Rule::UntilAny(UntilAny { any_characters, optional, property, debug_id }) }
                    else { Rule::UntilAnyOrWhitespace(UntilAnyOrWhitespace { any_characters, optional, property, debug_id }) })
            }
            "tag" => {
                let (mut text, mut property, mut not, mut inverted) = (None, None, false, false);
                let q = self.body(p, &kind, true, |c, p| {
                    if let Some((q, v)) = c.set(p, "text") { text = Some(v); return Some(q); }
                    if let Some((q, v)) = c.set(p, "property") { property = Some(v); return Some(q); }
                    if let Some(v) = c.b(p, "not") { not = v; return Some(p + 1); }
                    if let Some(v) = c.b(p, "inverted") { inverted = v; return Some(p + 1); }
                    None
                })?;
                (q, Rule::Tag(Tag { text: text?, property, not, inverted, debug_id: self.next() }))
            }
            "whitespace" => {
                let optional = self.b(p + 1, "optional")?;
                if !self.end(p + 2, "whitespace") { return None; }
                (p + 3, Rule::Whitespace(Whitespace { optional, debug_id: self.next() }))
            }
            "text" => {
                let (mut allow_empty, mut property) = (true, None);
                let q = self.body(p, &kind, true, |c, p| {
                    if let Some(v) = c.b(p, "allow_empty") { allow_empty = v; return Some(p + 1); }
                    if let Some((q, v)) = c.set(p, "property") { property = Some(v); return Some(q); }
                    None
                })?;
                (q, Rule::Text(Text { allow_empty, property, debug_id: self.next() }))
            }
            "number" => {
                let (mut allow_underscore, mut property) = (false, None);
                let q = self.body(p, &kind, true, |c, p| {
                    if let Some(v) = c.b(p, "underscore") { allow_underscore = v; return Some(p + 1); }
                    if let Some((q, v)) = c.set(p, "property") { property = Some(v); return Some(q); }
                    None
                })?;
                (q, Rule::Number(Number { allow_underscore, property, debug_id: self.next() }))
            }
            "reference" => {
                let (mut name, mut property) = (None, None);
                let q = self.body(p, &kind, true, |c, p| {
                    if let Some(v) = c.s(p, "name") { name = Some(v); return Some(p + 1); }
                    if let Some((q, v)) = c.set(p, "property") { property = Some(v); return Some(q); }
                    None
                })?;
                (q, Rule::Node(Node { name: name?, property, index: None, debug_id: self.next() }))
            }
            "optional" => { let (q, rule) = self.single(p + 1, "optional")?; (q, Rule::Optional(Box::new(Optional { rule, debug_id: self.next() }))) }
            "not" => { let (q, rule) = self.single(p + 1, "not")?; (q, Rule::Not(Box::new(Not { rule, debug_id: self.next() }))) }
            "lines" => {
                let (indent, p) = match self.b(p + 1, "indent") { Some(v) => (v, p + 2), None => (false, p + 1) };
                let (q, rule) = self.single(p, "lines")?;
                (q, Rule::Lines(Box::new(Lines { rule, indent, debug_id: self.next() })))
            }
            "separated_by" => {
                let (mut optional, mut allow_trail, mut by, mut rule) = (true, false, None, None);
                let q = self.body(p, &kind, true, |c, p| {
                    if let Some(v) = c.b(p, "optional") { optional = v; return Some(p + 1); }
                    if let Some(v) = c.b(p, "allow_trail") { allow_trail = v; return Some(p + 1); }
                    if let Some((q, v)) = c.rule(p, "by") { by = Some(v); return Some(q); }
                    if let Some((q, v)) = c.rule(p, "rule") { rule = Some(v); return Some(q); }
                    None
                })?;
                let (by, rule) = (by?, rule?);
                (q, Rule::SeparateBy(Box::new(SeparateBy { by, rule, optional, allow_trail, debug_id: self.next() })))
            }
            "repeat" => {
                let (mut optional, mut rule) = (None, None);
                let q = self.body(p, &kind, true, |c, p| {
                    if let Some(v) = c.b(p, "optional") { optional = Some(v); return Some(p + 1); }
                    if let Some((q, v)) = c.rule(p, "rule") { rule = Some(v); return Some(q); }
                    None
                })?;
                let (rule, optional) = (rule?, optional?);
                (q, Rule::Repeat(Box::new(Repeat { rule, optional, debug_id: self.next() })))
            }
            _ => return None,
        })
    }
    fn node(&mut self, p: usize) -> Option<(usize, S, Rule)> {
        let (mut id, mut name, mut rule) = (0usize, None, None);
        let q = self.body(p, "node", true, |c, p| {
            if let Some(v) = c.f(p, "id") { id = v as usize; return Some(p + 1); }
            if let Some(v) = c.s(p, "name") { name = Some(v); return Some(p + 1); }
            c.id = id.min(usize::MAX / 2000) * 1000;
            if let Some((q, v)) = c.rule(p, "rule") { rule = Some(v); return Some(q); }
            None
        })?;
        Some((q, name?, rule?))
    }
    fn string(&mut self, p: usize) -> Option<(usize, S, S)> {
        let (mut name, mut text) = (None, None);
        let q = self.body(p, "string", false, |c, p| {
            if let Some(v) = c.s(p, "name") { name = Some(v); return Some(p + 1); }
            if let Some(v) = c.s(p, "text") { text = Some(v); return Some(p + 1); }
            None
        })?;
        Some((q, name?, text?))
    }
    fn all(&mut self) -> Option<Syntax> {
        let mut p = 0;
        while let Some((q, n, t)) = self.string(p) { self.strings.push((n, t)); p = q; }
        let mut s = Syntax::new();
        while let Some((q, n, t)) = self.node(p) { s.rules.push(t); s.names.push(n); p = q; }
        if p < self.d.len() { return None; }
        let names = s.names.clone();
        for r in &mut s.rules { resolve(r, &names); }
        Some(s)
    }
}
/// number of items of the next item or node; nothing at an end marker or at the end
fn skip_len(d: &[D]) -> usize {
    match d.first().map(|x| &x.data) {
        None | Some(MetaData::EndNode(_)) => 0,
        Some(MetaData::StartNode(_)) => {
            let mut open = 0usize;
            for (i, x) in d.iter().enumerate() {
                match x.data { MetaData::StartNode(_) => open += 1, MetaData::EndNode(_) => open -= 1, _ => {} }
                if open == 0 { return i + 1; }
            }
            d.len()
        }
        Some(_) => 1,
    }
}
pub fn resolve(r: &mut Rule, names: &[S]) {
    match r {
        Rule::Node(n) => if n.index.is_none() { n.index = names.iter().position(|x| **x == *n.name) },
        Rule::Select(s) => for a in &mut s.args { resolve(a, names) },
        Rule::Sequence(s) => for a in &mut s.args { resolve(a, names) },
        Rule::SeparateBy(s) => { resolve(&mut s.rule, names); resolve(&mut s.by, names) }
        Rule::Repeat(s) => resolve(&mut s.rule, names),
        Rule::Lines(s) => resolve(&mut s.rule, names),
        Rule::Optional(s) => resolve(&mut s.rule, names),
        Rule::Not(s) => resolve(&mut s.rule, names),
        _ => {}
    }
}
fn unresolve(r: &mut Rng, x: &mut Rule, names: &[S]) {
    match x {
        Rule::Node(n) => { n.name = r.pick(names).clone(); if r.p(2, 3) { n.index = None } else if r.b() { n.index = Some(r.n(9)) } }
        Rule::Select(s) => for a in &mut s.args { unresolve(r, a, names) },
        Rule::Sequence(s) => for a in &mut s.args { unresolve(r, a, names) },
        Rule::SeparateBy(s) => { unresolve(r, &mut s.rule, names); unresolve(r, &mut s.by, names) }
        Rule::Repeat(s) => unresolve(r, &mut s.rule, names),
        Rule::Lines(s) => unresolve(r, &mut s.rule, names),
        Rule::Optional(s) => unresolve(r, &mut s.rule, names),
        Rule::Not(s) => unresolve(r, &mut s.rule, names),
        _ => {}
    }
}
fn show(d: &[D]) -> String { d.iter().enumerate().map(|(i, x)| format!("  {} [{},{}] {:?}\n", i, x.offset, x.length, x.data)).collect() }

pub fn run(p: &str, r: &mut Rng) -> Out {
    match p {
        "C11" | "C12" => {
            let mut v = document(r);
            if p == "C11" || r.p(1, 4) { damage(r, &mut v); }
            let d = ranged(r, v);
            crate::note(|| show(&d));
            let mut ig = vec![Range::new(7, 7)];
            let got = convert(&d, &mut ig);
            if p == "C12" {
                let mut c = Cv { d: &d, strings: vec![], ignored: vec![Range::new(7, 7)], id: 0 };
                let want = c.all();
                if got.as_ref().ok() != want.as_ref() { return Out::Fail(format!("{}  got {:?}\n  expected {:?}\n", show(&d), got, want)); }
                if ig != c.ignored { return Out::Fail(format!("{}  ignored {:?}\n  expected {:?}\n", show(&d), ig, c.ignored)); }
            }
            Out::Pass
        }
        "C13" => {
            let f = &ALL;
            let mut s = gsyntax(r, f);
            let pool: Vec<S> = vec![st("r0"), st("r1"), st("r2"), st(""), st("é"), st("x")];
            for k in 0..s.rules.len() { unresolve(r, &mut s.rules[k], &pool); }
            for n in &mut s.names { if r.p(1, 3) { *n = r.pick(&pool).clone(); } }
            let mut want = s.clone();
            let names = want.names.clone();
            for x in &mut want.rules { resolve(x, &names); }
            let before = format!("{:?}", s);
            crate::note(|| before.clone());
            update_refs(&mut s);
            if s != want { return Out::Fail(format!("  {}\n  got {:?}\n  expected {:?}\n", before, s, want)); }
            Out::Pass
        }
        _ => cursor(r),
    }
}
use piston_meta::meta_rules::update_refs;

fn cursor(r: &mut Rng) -> Out {
    let mut v = document(r);
    v.truncate(12);
    if r.b() { damage(r, &mut v); }
    let d = ranged(r, v);
    crate::note(|| show(&d));
    let n = d.len();
    let mut cs: Vec<Convert> = vec![Convert::new(&d)];
    for p in 1..=n {
        let q = r.n(p);
        let mut c = cs[q];
        if r.b() {
            // an empty range leaves the rest as it is, and a range may be split
            let m = q + r.n(p - q + 1);
            c.update(Range::new(q, 0));
            c.update(Range::new(q, m - q));
            c.update(Range::new(m, p - m));
            c.update(Range::new(p, 0));
        } else { c.update(Range::new(q, p - q)); }
        cs.push(c);
    }
    for p in 0..=n {
        let c = cs[p];
        let fail = |m: String| Out::Fail(format!("{}  cursor at {}\n  {}\n", show(&d), p, m));
        if c.remaining_data_len() != n - p { return fail(format!("remaining {}", c.remaining_data_len())); }
        let names = ["node", "name", "rule", "optional", "id", "string", "zzz", "text", "", "tag", "nod", "nodes", "tex", "texts", "Node", "until_any", "until_any_or_whitespace"];
        let one = Range::new(p, 1);
        for nm in names {
            let at = d.get(p).map(|x| &x.data);
            let w = match at { Some(MetaData::StartNode(x)) if **x == nm => Ok(one), _ => Err(()) };
            if c.start_node(nm) != w { return fail(format!("start_node({:?}) = {:?}", nm, c.start_node(nm))); }
            let w = match at { Some(MetaData::EndNode(x)) if **x == nm => Ok(one), _ => Err(()) };
            if c.end_node(nm) != w { return fail(format!("end_node({:?}) = {:?}", nm, c.end_node(nm))); }
            let w = match at { Some(MetaData::String(x, v)) if **x == nm => Ok((one, v.clone())), _ => Err(()) };
            if c.meta_string(nm) != w { return fail(format!("meta_string({:?}) = {:?}", nm, c.meta_string(nm))); }
            let w = match at { Some(MetaData::Bool(x, v)) if **x == nm => Ok((one, *v)), _ => Err(()) };
            if c.meta_bool(nm) != w { return fail(format!("meta_bool({:?}) = {:?}", nm, c.meta_bool(nm))); }
            let w = match at { Some(MetaData::F64(x, v)) if **x == nm => Ok((one, v.to_bits())), _ => Err(()) };
            if c.meta_f64(nm).map(|x| (x.0, x.1.to_bits())) != w { return fail(format!("meta_f64({:?}) = {:?}", nm, c.meta_f64(nm))); }
        }
        let w = Range::new(p, skip_len(&d[p..]));
        if c.ignore() != w { return fail(format!("ignore() = {:?}, expected {:?}", c.ignore(), w)); }
        if c.remaining_data_len() != n - p { return fail("a read moved the cursor".into()); }
        for q in 0..=p {
            let b = cs[q];
            if c.subtract(b) != Range::new(q, p - q) { return fail(format!("subtract({}) = {:?}", q, c.subtract(b))); }
            let w = if q == p { None } else { let (a, e) = (d[q].offset, d[p - 1].next_offset()); Some(Range::new(a, e - a)) };
            if c.source(b) != w { return fail(format!("source({}) = {:?}, expected {:?}", q, c.source(b), w)); }
            if q < p && b.source(c).is_some() { return fail(format!("source backwards from {} = {:?}", q, b.source(c))); }
        }
    }
    Out::Pass
}
