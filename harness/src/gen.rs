//! Generators for syntaxes, texts and meta data.
use crate::rng::Rng;
use crate::spec::Ind;
use piston_meta::meta_rules::*;
use piston_meta::{MetaData, Range, Syntax};
use std::sync::Arc;

pub type S = Arc<String>;
pub fn st(s: &str) -> S { Arc::new(s.to_string()) }

/// weights of the rule kinds: [ws, tag, until, until_ws, text, number, select, sequence, sep, repeat, lines, node, opt, not]
pub struct Focus { pub w: [usize; 14], pub lines: bool }
pub const ALL: Focus = Focus { w: [2, 6, 1, 1, 1, 2, 4, 5, 2, 2, 1, 4, 2, 2], lines: true };

pub struct G<'a> { pub r: &'a mut Rng, pub id: usize, pub f: &'a Focus, pub nodes: usize }

const NAMES: &[&str] = &["a", "b", "c", "é", "n", "A", "aa", "", "a name of several words", "€"];
const TAGS: &[&str] = &["a", "b", "ab", "aa", "é", "€x", "\n", " ", "\t", "1", "-", "\"", "", "abc", ".", "è", "b\n", "a ", "_", "A", "c", "d", "e", "f", "g", "h", "i", "𝄞", "€y", "abcd", "\r\n", "  ", "\\", "0", "\u{7f}", "ß", "ab€", "a long tag of many letters", "\u{3000}", "\u{a0}", "\u{feff}", "\0"];
const ANY: &[&str] = &["a", "b ", "", "é\n", "\n", "1\"", "ab", "€", "𝄞.", "è", "{}[]();,", "c", "\u{3000}", "\r\n\t"];

impl<'a> G<'a> {
    fn prop(&mut self) -> Option<S> { if self.r.p(2, 3) { let n = if self.r.p(4, 5) { 5 } else { NAMES.len() }; Some(st(NAMES[self.r.n(n)])) } else { None } }
    fn nid(&mut self) -> usize { self.id += 1; self.id }
    pub fn leaf(&mut self) -> Rule { let k = self.pick(6); self.of(k, 0, 0) }
    fn pick(&mut self, upto: usize) -> usize {
        let t: usize = self.f.w[..upto].iter().sum();
        let mut x = self.r.n(t);
        for k in 0..upto { if x < self.f.w[k] { return k; } x -= self.f.w[k]; }
        1
    }
    pub fn rule(&mut self, depth: usize, cur: usize) -> Rule {
        if depth == 0 {
            if cur > 0 && self.r.p(1, 4) { return self.of(11, 0, cur); }
            return self.leaf();
        }
        let k = self.pick(14);
        self.of(k, depth - 1, cur)
    }
    fn of(&mut self, k: usize, d: usize, cur: usize) -> Rule {
        let debug_id = self.nid();
        match k {
            0 => Rule::Whitespace(Whitespace { optional: self.r.p(2, 3), debug_id }),
            2 => Rule::UntilAny(UntilAny { any_characters: st(*self.r.pick(ANY)), optional: self.r.b(), property: self.prop(), debug_id }),
            3 => Rule::UntilAnyOrWhitespace(UntilAnyOrWhitespace { any_characters: st(*self.r.pick(ANY)), optional: self.r.b(), property: self.prop(), debug_id }),
            4 => Rule::Text(Text { allow_empty: self.r.b(), property: self.prop(), debug_id }),
            5 => Rule::Number(Number { property: self.prop(), debug_id, allow_underscore: self.r.b() }),
            // many alternatives, each with another first character
            6 if d > 0 && self.r.p(1, 150) => {
                let (n, a) = (self.r.n(190), self.r.n(150) as u32);
                let mut args: Vec<Rule> = (0..n as u32).map(|i| {
                    let c = a + i;
                    let t = if c < 0x60 { char::from_u32(0x20 + c) } else { char::from_u32(0x80 + (c - 0x60) * 64) };
                    Rule::Tag(Tag { text: st(&t.unwrap_or('x').to_string()), not: false, inverted: false, property: Some(st(&format!("p{}", i))), debug_id: debug_id + i as usize })
                }).collect();
                for _ in 0..self.r.n(3) { let k = self.r.n(args.len() + 1); let x = self.rule(d - 1, cur); args.insert(k, x); }
                self.id += n;
                Rule::Select(Select { args, debug_id })
            }
            6 => { let n = if self.r.p(1, 30) { 0 } else if self.r.p(1, 20) { 6 + self.r.n(20) } else { 1 + self.r.n(5) }; Rule::Select(Select { args: (0..n).map(|_| self.rule(d, cur)).collect(), debug_id }) }
            7 => { let n = if self.r.p(1, 20) { 0 } else if self.r.p(1, 30) { 4 + self.r.n(8) } else { 1 + self.r.n(3) }; Rule::Sequence(Sequence { args: (0..n).map(|_| self.rule(d, cur)).collect(), debug_id }) }
            8 => Rule::SeparateBy(Box::new(SeparateBy { rule: self.rule(d, cur), by: self.rule(d.min(1), cur), optional: self.r.b(), allow_trail: self.r.b(), debug_id })),
            9 => Rule::Repeat(Box::new(Repeat { rule: self.rule(d, cur), optional: self.r.b(), debug_id })),
            10 => Rule::Lines(Box::new(Lines { rule: self.rule(d, cur), debug_id, indent: self.r.b() })),
            11 => {
                // usually an earlier rule, now and then a recursive reference
                let i = if cur > 0 && self.r.p(5, 6) { self.r.n(cur) } else { self.r.n(self.nodes) };
                Rule::Node(Node { name: name(i), property: self.prop(), debug_id, index: Some(i) })
            }
            12 => Rule::Optional(Box::new(Optional { rule: self.rule(d, cur), debug_id })),
            13 => Rule::Not(Box::new(Not { rule: self.rule(d, cur), debug_id })),
            _ => Rule::Tag(Tag { text: { let n = if self.r.p(4, 5) { 19 } else { TAGS.len() }; st(TAGS[self.r.n(n)]) }, not: self.r.p(1, 6), inverted: self.r.b(), property: self.prop(), debug_id }),
        }
    }
}
pub fn name(i: usize) -> S { st(&format!("r{}", i)) }

pub fn gsyntax(r: &mut Rng, f: &Focus) -> Syntax {
    let nodes = if r.p(1, 400) { 256 + r.n(20) } else if r.p(1, 25) { 4 + r.n(9) } else { 1 + r.n(3) };
    let mut s = Syntax::new();
    let depth = if nodes > 20 { 1 } else { 1 + r.n(3) };
    let id = *r.pick(&[0, 0, 0, 999, 1 << 20, u32::MAX as usize, usize::MAX - 100_000]);
    let mut g = G { r, id, f, nodes };
    for i in 0..nodes {
        let rule = g.rule(depth, i);
        s.push(name(i), rule);
    }
    s
}
pub fn has_lines(s: &Syntax) -> bool { format!("{:?}", s).contains("Lines(") }
/// `ReadToken::lines` of the dependency miscounts blank lines with white space wider than a byte
pub fn wide_white(t: &str) -> bool { t.chars().any(|c| c.is_whitespace() && c.len_utf8() > 1) }

pub fn indent(r: &mut Rng) -> Ind {
    Ind { indent: if r.p(2, 3) { 0 } else if r.p(1, 40) { u32::MAX - r.n(2) as u32 } else if r.p(1, 8) { r.n(20) as u32 } else { r.n(4) as u32 }, align_first: r.p(2, 3), tab_spaces: *r.pick(&[4u8, 2, 1, 3, 0, 8, 255]) }
}

thread_local! { static STEPS: std::cell::Cell<usize> = std::cell::Cell::new(0); }
/// a text that follows the rule most of the time
pub fn sample(r: &mut Rng, rules: &[Rule], rule: &Rule, depth: usize, out: &mut String, level: usize, lim: usize) {
    let many = if lim > 60 && r.b() { 4 } else { 1 };
    let left = STEPS.with(|x| { let l = x.get(); x.set(l.saturating_sub(1)); l });
    if out.len() > lim || depth == 0 || left == 0 { return; }
    let d = depth - 1;
    match rule {
        Rule::Whitespace(w) => { if !w.optional || r.b() { if r.p(1, 30) { let n = r.n(300); out.push_str(&" ".repeat(n)) } else { out.push_str(*r.pick(&[" ", "\n", "\t", "  ", " \n", "\u{3000}", "\u{a0} ", "\r\n", "\u{b}"])) } } }
        Rule::Tag(t) => { if !t.not || r.p(1, 5) { out.push_str(&t.text) } }
        Rule::UntilAny(_) | Rule::UntilAnyOrWhitespace(_) => { for _ in 0..if r.p(1, 40) { r.n(400) } else { r.n(3) } { out.push_str(*r.pick(&["a", "x", "é", "b", " "])); } }
        Rule::Text(_) => out.push_str(*r.pick(&["\"\"", "\"a\"", "\"é\\n\"", "\"\\u0041\"", "\"\\\"\"", "\"\\x\"", "\"\\u12\"", "\"a", "\"\\u00e9z\"", "\"\\ud800\"", "\"\\b\\f\\n\\r\\t\\/\"", "\"  \"", "\"\u{3000}𝄞\"", "\"a rather long text with many words, and with \\\"quotes\\\" in it: é€𝄞\""])),
        Rule::Number(_) => out.push_str(*r.pick(&["1", "-1", "1.5", "2e3", "1_0", "+", "1e", ".", "12", "0.0", "-", "1.2.3", "1e5", "1e-2", "7_", "_1", "1p", "123456789012345678901234567890", "1_000_000.000_1", "1__0", "-0", "1e308", "1e-320", "9007199254740993", "1.", ".5", "1E5", "1_e1", "1_.5"])),
        Rule::Select(s) => { if !s.args.is_empty() { let i = r.n(s.args.len()); sample(r, rules, &s.args[i], d, out, level, lim) } }
        Rule::FastSelect(s) => { if !s.args.is_empty() { let i = r.n(s.args.len()); sample(r, rules, &s.args[i], d, out, level, lim) } }
        Rule::Sequence(s) => for a in &s.args { sample(r, rules, a, d, out, level, lim) },
        Rule::SeparateBy(s) => {
            let n = r.n(4 * many);
            for i in 0..n { if i > 0 { sample(r, rules, &s.by, d, out, level, lim) } sample(r, rules, &s.rule, d, out, level, lim) }
            if r.p(1, 3) { sample(r, rules, &s.by, d, out, level, lim) }
        }
        Rule::Repeat(s) => for _ in 0..r.n(4 * many) { sample(r, rules, &s.rule, d, out, level, lim) },
        Rule::Lines(s) => {
            for i in 0..r.n(4 * many) {
                if i > 0 || r.b() { out.push('\n'); }
                if r.p(1, 5) { out.push_str(*r.pick(&["\n", " \n", "\t\n", "\n\n"])); }
                if s.indent {
                    if r.p(4, 5) { for _ in 0..level { out.push(' '); } }
                    else { out.push_str(*r.pick(&["\t", " ", "  ", "    ", "\t\t", " \t"])); }
                }
                sample(r, rules, &s.rule, d, out, level + 1, lim)
            }
            if r.p(1, 3) { out.push_str(*r.pick(&["\n", " ", "\n ", "\n\n"])); }
        }
        Rule::Node(n) => { if let Some(i) = n.index { sample(r, rules, &rules[i], d, out, level, lim) } }
        Rule::Optional(o) => { if r.b() { sample(r, rules, &o.rule, d, out, level, lim) } }
        Rule::Not(o) => { if r.p(1, 5) { sample(r, rules, &o.rule, d, out, level, lim) } }
    }
}
const CH: &[&str] = &["a", "b", "\"", "1", ".", "-", "e", " ", "\t", "\n", "é", "€", "\\", "𝄞", "_", "u", "\r", "è", "\u{3000}"];
pub fn random_text(r: &mut Rng, max: usize) -> String { (0..r.n(max + 1)).map(|_| *r.pick(CH)).collect() }
pub fn mutate(r: &mut Rng, t: &str) -> String {
    let mut c: Vec<String> = t.chars().map(|c| c.to_string()).collect();
    for _ in 0..1 + r.n(2) {
        match r.n(4) {
            0 => { if !c.is_empty() { let i = r.n(c.len()); c.remove(i); } }
            1 => { let i = r.n(c.len() + 1); c.insert(i, r.pick(CH).to_string()); }
            2 => { let i = r.n(c.len() + 1); c.truncate(i); }
            _ => { if !c.is_empty() { let i = r.n(c.len()); c[i] = r.pick(CH).to_string(); } }
        }
    }
    c.concat()
}
pub fn text_for(r: &mut Rng, s: &Syntax, root: usize) -> String {
    if r.p(1, 10) || s.rules.is_empty() { return random_text(r, 8); }
    let mut out = String::new();
    let lvl = r.n(2);
    let big = if r.p(1, 300) { 2 } else if r.p(1, 12) { 1 } else { 0 };
    STEPS.with(|x| x.set(20000));
    sample(r, &s.rules, &s.rules[root], [8, 14, 60][big], &mut out, lvl, [60, 400, 6000][big]);
    if r.p(1, 3) { out = mutate(r, &out); }
    if r.p(1, 12) { out.push_str(*r.pick(CH)); }
    out
}
/// tokens a caller may already have
pub fn old_tokens(r: &mut Rng) -> Vec<Range<MetaData>> {
    (0..if r.p(1, 300) { 300 } else { r.n(4) }).map(|i| {
        let d = match r.n(4) {
            0 => MetaData::StartNode(st("old")), 1 => MetaData::EndNode(st("old")),
            2 => MetaData::Bool(st("old"), true), _ => MetaData::String(st("old"), st("x")),
        };
        Range::new(1000 + i, 1).wrap(d)
    }).collect()
}
