//! Reference meaning of parsing, written from the property statements (not from the code under
//! test): a functional interpreter over byte offsets.  It is only used to look for a concrete
//! failing input after a proof obligation failed, and as the bounded stand-in.
use piston_meta::meta_rules::*;
use piston_meta::{MetaData, ParseError, Range, Syntax};
use read_token::{NumberSettings, ReadToken};
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct E { pub off: usize, pub len: usize, pub e: Rc<ParseError> }
impl E { fn end(&self) -> usize { self.off + self.len } }
fn er(off: usize, len: usize, e: ParseError) -> E { E { off, len, e: Rc::new(e) } }

pub type Toks = Vec<Range<MetaData>>;
pub struct Ok_ { pub end: usize, pub toks: Toks, pub err: Option<E> }
pub enum Fail { Fails(E), OutOfFuel }
pub type Res = Result<Ok_, Fail>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Ind { pub indent: u32, pub align_first: bool, pub tab_spaces: u8 }

pub struct Ev<'a> { pub text: &'a str, pub refs: &'a [Rule], pub ind: Ind, pub fuel: usize, pub depth: usize, pub left: usize }

/// the later of two equally deep errors wins
fn merge(a: Option<E>, b: Option<E>) -> Option<E> {
    match (a, b) {
        (None, b) => b,
        (a, None) => a,
        (Some(a), Some(b)) => if a.end() <= b.end() { Some(b) } else { Some(a) },
    }
}
/// the actual failure `a` wins over an equally deep earlier one
fn finally(a: E, b: Option<E>) -> E {
    match b { Some(b) if b.end() > a.end() => b, _ => a }
}

pub fn rng(off: usize, len: usize) -> Range { Range::new(off, len) }

impl<'a> Ev<'a> {
    pub fn new(text: &'a str, refs: &'a [Rule], ind: Ind) -> Ev<'a> {
        Ev { text, refs, ind, fuel: 4000, depth: 0, left: 0 }
    }
    fn rest(&self, s: usize) -> &'a str { &self.text[s..] }
    fn white(&self, s: usize) -> usize {
        self.rest(s).chars().take_while(|c| c.is_whitespace()).map(|c| c.len_utf8()).sum()
    }
    fn until(&self, s: usize, any: &str, ws: bool) -> usize {
        self.rest(s).chars().take_while(|c| !(any.contains(*c) || ws && c.is_whitespace())).map(|c| c.len_utf8()).sum()
    }
    fn string(&self, s: usize) -> Option<usize> {
        let b = self.rest(s).as_bytes();
        if b.first() != Some(&b'"') { return None; }
        let mut i = 1;
        while i < b.len() {
            if b[i] == b'\\' { i += 2; continue; }
            if b[i] == b'"' { return Some(i + 1); }
            i += 1;
        }
        None
    }
    fn one(&self, s: usize, len: usize, d: Option<MetaData>) -> Res {
        Ok(Ok_ { end: s + len, toks: d.into_iter().map(|d| rng(s, len).wrap(d)).collect(), err: None })
    }
    pub fn ev(&mut self, r: &Rule, s: usize) -> Res {
        if self.fuel == 0 || self.depth > 120 { return Err(Fail::OutOfFuel); }
        self.fuel -= 1;
        self.depth += 1;
        let x = self.ev1(r, s);
        self.depth -= 1;
        x
    }
    fn fail(&self, off: usize, len: usize, e: ParseError) -> Res { Err(Fail::Fails(er(off, len, e))) }
    fn ev1(&mut self, r: &Rule, s: usize) -> Res {
        match r {
            Rule::Whitespace(w) => {
                let n = self.white(s);
                if n == 0 && !w.optional { self.fail(s, 0, ParseError::ExpectedWhitespace(w.debug_id)) } else { self.one(s, n, None) }
            }
            Rule::Tag(t) => {
                let hit = self.rest(s).starts_with(&**t.text);
                if t.not {
                    if hit { self.fail(s, t.text.len(), ParseError::DidNotExpectTag(t.text.clone(), t.debug_id)) }
                    else { self.one(s, 0, t.property.clone().map(|p| MetaData::Bool(p, !t.inverted))) }
                } else if hit { self.one(s, t.text.len(), t.property.clone().map(|p| MetaData::Bool(p, !t.inverted))) }
                else { self.fail(s, 0, ParseError::ExpectedTag(t.text.clone(), t.debug_id)) }
            }
            Rule::UntilAny(u) => {
                let n = self.until(s, &u.any_characters, false);
                if n == 0 && !u.optional { self.fail(s, 0, ParseError::ExpectedSomething(u.debug_id)) }
                else { let v = self.rest(s)[..n].to_string(); self.one(s, n, u.property.clone().map(|p| MetaData::String(p, Arc::new(v)))) }
            }
            Rule::UntilAnyOrWhitespace(u) => {
                let n = self.until(s, &u.any_characters, true);
                if n == 0 && !u.optional { self.fail(s, 0, ParseError::ExpectedSomething(u.debug_id)) }
                else { let v = self.rest(s)[..n].to_string(); self.one(s, n, u.property.clone().map(|p| MetaData::String(p, Arc::new(v)))) }
            }
            Rule::Text(t) => match self.string(s) {
                None => self.fail(s, 0, ParseError::ExpectedText(t.debug_id)),
                Some(2) if !t.allow_empty => self.fail(s, 2, ParseError::EmptyTextNotAllowed(t.debug_id)),
                Some(n) => match ReadToken::new(self.rest(s), s).parse_string(n) {
                    Err(e) => { let (o, l) = (e.offset, e.length); self.fail(o, l, ParseError::ParseStringError(e.data, t.debug_id)) }
                    Ok(v) => self.one(s, n, t.property.clone().map(|p| MetaData::String(p, Arc::new(v)))),
                },
            },
            Rule::Number(t) => {
                let st = NumberSettings { allow_underscore: t.allow_underscore };
                let rt = ReadToken::new(self.rest(s), s);
                match rt.number(&st) {
                    None => self.fail(s, 0, ParseError::ExpectedNumber(t.debug_id)),
                    Some(g) => match rt.parse_number(&st, g.length) {
                        Err(e) => self.fail(s, g.length, ParseError::ParseNumberError(e, t.debug_id)),
                        Ok(v) => self.one(s, g.length, t.property.clone().map(|p| MetaData::F64(p, v))),
                    },
                }
            }
            Rule::Sequence(q) => {
                let (mut at, mut toks, mut err) = (s, vec![], None);
                for a in &q.args {
                    match self.ev(a, at) {
                        Ok(o) => { at = o.end; toks.extend(o.toks); err = merge(err, o.err); }
                        Err(Fail::Fails(e)) => return Err(Fail::Fails(finally(e, err))),
                        Err(x) => return Err(x),
                    }
                }
                Ok(Ok_ { end: at, toks, err })
            }
            Rule::Select(q) => {
                let mut err = None;
                for a in &q.args {
                    match self.ev(a, s) {
                        Ok(o) => return Ok(Ok_ { err: merge(err, o.err), ..o }),
                        Err(Fail::Fails(e)) => err = merge(err, Some(e)),
                        Err(x) => return Err(x),
                    }
                }
                match err {
                    None => self.fail(s, 0, ParseError::InvalidRule("`Select` requires at least one sub rule", q.debug_id)),
                    Some(e) => Err(Fail::Fails(e)),
                }
            }
            Rule::FastSelect(q) => {
                let hit = self.rest(s).bytes().next().map(|b| q.table[b as usize]).filter(|&i| i != 255);
                let mut err = None;
                if let Some(i) = hit {
                    match self.ev(&q.args[i as usize], s) {
                        Err(Fail::Fails(e)) if q.tail => err = Some(e),
                        x => return x,
                    }
                }
                if q.tail {
                    match self.ev(&q.args[q.args.len() - 1], s) {
                        Ok(o) => Ok(Ok_ { err: merge(err, o.err), ..o }),
                        Err(Fail::Fails(e)) => Err(Fail::Fails(finally(e, err))),
                        x => x,
                    }
                } else { self.fail(s, 0, ParseError::ExpectedSomething(q.debug_id)) }
            }
            Rule::Optional(q) => match self.ev(&q.rule, s) {
                Err(Fail::Fails(e)) => Ok(Ok_ { end: s, toks: vec![], err: Some(e) }),
                x => x,
            },
            Rule::Not(q) => match self.ev(&q.rule, s) {
                Ok(o) => { let t = self.text[s..o.end].to_string(); self.fail(s, o.end - s, ParseError::DidNotExpectTag(Arc::new(t), q.debug_id)) }
                Err(Fail::Fails(_)) => Ok(Ok_ { end: s, toks: vec![], err: None }),
                Err(x) => Err(x),
            },
            Rule::Repeat(q) => {
                let (mut at, mut toks, mut err, mut n) = (s, vec![], None, 0usize);
                loop {
                    match self.ev(&q.rule, at) {
                        Ok(o) => { at = o.end; toks.extend(o.toks); err = merge(err, o.err); n += 1; }
                        Err(Fail::Fails(e)) => {
                            if n == 0 && !q.optional { return Err(Fail::Fails(finally(e, err))); }
                            return Ok(Ok_ { end: at, toks, err: merge(err, Some(e)) });
                        }
                        Err(x) => return Err(x),
                    }
                }
            }
            Rule::SeparateBy(q) => {
                let (mut at, mut toks, mut err, mut n): (usize, Toks, Option<E>, usize) = (s, vec![], None, 0);
                loop {
                    match self.ev(&q.rule, at) {
                        Ok(o) => { at = o.end; toks.extend(o.toks); err = merge(err, o.err); n += 1; }
                        Err(Fail::Fails(e)) => {
                            let fine = if n == 0 { q.optional } else { q.allow_trail };
                            if !fine { return Err(Fail::Fails(finally(e, err))); }
                            return Ok(Ok_ { end: at, toks, err: merge(err, Some(e)) });
                        }
                        Err(x) => return Err(x),
                    }
                    match self.ev(&q.by, at) {
                        Ok(o) => { at = o.end; toks.extend(o.toks); err = merge(err, o.err); }
                        Err(Fail::Fails(e)) => return Ok(Ok_ { end: at, toks, err: merge(err, Some(e)) }),
                        Err(x) => return Err(x),
                    }
                }
            }
            Rule::Node(q) => {
                let i = match q.index {
                    None => return self.fail(s, 0, ParseError::InvalidRule("Node rule is not updated to reference", q.debug_id)),
                    Some(i) => i,
                };
                let refs = self.refs;
                let o = self.ev(&refs[i], s)?;
                match &q.property {
                    None => Ok(o),
                    Some(p) => {
                        let mut toks = vec![rng(s, 0).wrap(MetaData::StartNode(p.clone()))];
                        toks.extend(o.toks);
                        toks.push(rng(s, o.end - s).wrap(MetaData::EndNode(p.clone())));
                        Ok(Ok_ { toks, ..o })
                    }
                }
            }
            Rule::Lines(q) => self.lines(q, s),
        }
    }
    fn lines(&mut self, q: &Lines, s: usize) -> Res {
        let (mut at, mut toks, mut err): (usize, Toks, Option<E>) = (s, vec![], None);
        let mut fresh = true;   // a match may start here
        let mut first = true;
        loop {
            // skip blank lines
            let w = self.white(at);
            let ws = &self.text[at..at + w];
            let at_end = at + w == self.text.len();
            match ws.rfind('\n') {
                Some(i) => { fresh = true; at += i + 1; }
                None => {}
            }
            if at_end { return Ok(Ok_ { end: self.text.len(), toks, err }); }
            if !fresh { return Err(Fail::Fails(finally(er(at, 0, ParseError::ExpectedNewLine(q.debug_id)), err))); }
            let mut start = at;
            if q.indent {
                let mut n = self.ind.indent as u64;
                let t = self.ind.tab_spaces as u64;
                while n > 0 {
                    match self.rest(start).chars().next() {
                        Some(' ') => { start += 1; n -= 1; }
                        Some('\t') => { start += 1; n = n.saturating_sub(t); }
                        _ => return Ok(Ok_ { end: at, toks, err }),
                    }
                }
                if first && self.ind.align_first {
                    first = false;
                    loop {
                        match self.rest(start).chars().next() {
                            Some(' ') => { start += 1; self.ind.indent = self.ind.indent.saturating_add(1); }
                            Some('\t') => { start += 1; self.ind.indent = self.ind.indent.saturating_add(t as u32); }
                            _ => break,
                        }
                    }
                } else if self.rest(start).starts_with(' ') {
                    return Ok(Ok_ { end: at, toks, err });
                }
            }
            let old = self.ind.indent;
            if q.indent { self.ind.indent = self.ind.indent.saturating_add(1); }
            let o = self.ev(&q.rule, start);
            if q.indent { self.ind.indent = old; }
            match o {
                Ok(o) => {
                    fresh = {
                        let t = &self.text[at..o.end];
                        let w: usize = t.chars().rev().take_while(|c| c.is_whitespace()).map(|c| c.len_utf8()).sum();
                        t[t.len() - w..].contains('\n')
                    };
                    at = o.end; toks.extend(o.toks); err = merge(err, o.err);
                }
                Err(Fail::Fails(e)) => return Ok(Ok_ { end: at, toks, err: merge(err, Some(e)) }),
                Err(x) => return Err(x),
            }
        }
    }
}

pub enum Doc { Accept(Toks), Reject(E), NoRules, Unknown }
/// the meaning of parsing a whole document
pub fn document(rules: &Syntax, text: &str, ind: Ind) -> Doc {
    if rules.rules.is_empty() { return Doc::NoRules; }
    let mut ev = Ev::new(text, &rules.rules, ind);
    match ev.ev(&rules.rules[rules.rules.len() - 1], 0) {
        Err(Fail::OutOfFuel) => Doc::Unknown,
        Err(Fail::Fails(e)) => Doc::Reject(e),
        Ok(o) => if o.end == text.len() { Doc::Accept(o.toks) }
            else { Doc::Reject(finally(er(o.end, 0, ParseError::ExpectedEnd), o.err)) },
    }
}
