//! Parsing properties: C01..C10, C18.
use crate::gen::*;
use crate::rng::Rng;
use crate::spec::*;
use crate::Out;
use piston_meta::meta_rules::*;
use piston_meta::tokenizer::TokenizerState;
use piston_meta::*;
use read_token::ReadToken;

const SEQ: Focus = Focus { w: [1, 6, 1, 1, 1, 1, 6, 6, 0, 1, 0, 6, 5, 5], lines: false };
const REP: Focus = Focus { w: [1, 6, 1, 1, 1, 1, 1, 2, 8, 8, 0, 2, 1, 1], lines: false };
const LEAF: Focus = Focus { w: [3, 6, 4, 4, 5, 5, 0, 1, 0, 0, 0, 0, 0, 0], lines: false };
const LINE: Focus = Focus { w: [2, 6, 1, 1, 1, 2, 2, 4, 1, 1, 10, 2, 1, 1], lines: true };
const SEL: Focus = Focus { w: [1, 8, 1, 1, 2, 1, 12, 4, 2, 2, 1, 4, 2, 2], lines: true };

pub fn settings(i: Ind) -> IndentSettings { IndentSettings { indent: i.indent, align_first: i.align_first, tab_spaces: i.tab_spaces } }

fn show(s: &Syntax, text: &str, i: Ind, extra: &str) -> String {
    let mut o = String::new();
    for (k, r) in s.rules.iter().enumerate() { o += &format!("  rule {} {} = {:?}\n", k, s.names[k], r); }
    format!("{}  text = {:?}\n  indent = {:?}\n{}", o, text, i, extra)
}
/// meta data differs; NaN (read from e.g. `0e999`) equals itself
fn ne(a: &[Range<MetaData>], b: &[Range<MetaData>]) -> bool {
    a.len() != b.len() || a.iter().zip(b).any(|(x, y)| x != y && !(x.range() == y.range() && matches!((&x.data, &y.data), (MetaData::F64(n, u), MetaData::F64(m, v)) if n == m && u.is_nan() && v.is_nan())))
}
fn same(e: &E, r: &Range<ParseError>) -> bool { e.off == r.offset && e.len == r.length && *e.e == r.data }

fn balanced(t: &[Range<MetaData>]) -> bool {
    let mut st: Vec<&str> = vec![];
    for x in t {
        match &x.data {
            MetaData::StartNode(n) => st.push(n),
            MetaData::EndNode(n) => if st.pop() != Some(n.as_str()) { return false; },
            _ => {}
        }
    }
    st.is_empty()
}
/// where rules are started: everywhere, except for long texts and many rules
fn places(r: &mut Rng, t: &str, rules: usize) -> Vec<usize> {
    (0..=t.len()).filter(|&i| t.is_char_boundary(i) && (t.len() * rules < 500 || r.n(t.len() * rules) < 200)).collect()
}
fn bound(t: &str, o: usize) -> bool { t.is_char_boundary(o) }

pub fn run(p: &str, r: &mut Rng) -> Out {
    let focus = match p {
        "C02" => &SEQ, "C03" => &REP, "C04" => &LEAF, "C05" => &LINE, "C10" => &SEL,
        _ => if r.p(1, 4) { &SEQ } else if r.p(1, 4) { &LINE } else if r.p(1, 5) { &SEL } else { &ALL },
    };
    let mut s = gsyntax(r, focus);
    if p == "C01" && r.p(1, 60) { s = Syntax::new(); }
    let nr = s.rules.len();
    let ind = indent(r);
    let root = if nr == 0 { 0 } else { nr - 1 };
    let mut fails = 0;
    let mut done = 0;
    for _ in 0..4 {
        let text = text_for(r, &s, root);
        if has_lines(&s) && wide_white(&text) { continue; }
        match one(p, r, &s, &text, ind) {
            Out::Fail(f) => return Out::Fail(f),
            Out::Pass => done += 1,
            Out::Skip => { fails += 1; if fails > 1 { break; } }
        }
    }
    if done > 0 { Out::Pass } else { Out::Skip }
}

fn one(p: &str, r: &mut Rng, s: &Syntax, text: &str, ind: Ind) -> Out {
    let fail = |m: String| Out::Fail(show(s, text, ind, &m));
    let doc = document(s, text, ind);
    if let Doc::Unknown = doc { return Out::Skip; }
    crate::note(|| show(s, text, ind, ""));
    let st0 = settings(ind);
    let old = old_tokens(r);
    if p == "C10" {
        let o = s.clone().optimize();
        let (mut a, mut b) = (old.clone(), old.clone());
        let x = parse_with_indent(s, text, &mut a, &st0);
        let y = parse_with_indent(&o, text, &mut b, &st0);
        if x.is_ok() != y.is_ok() { return fail(format!("  original: {:?}\n  optimized: {:?}\n", x, y)); }
        if x.is_ok() && ne(&a, &b) { return fail(format!("  original meta data: {:?}\n  optimized meta data: {:?}\n", a, b)); }
        // sub rules as well: rule by rule, at every start
        for k in 0..s.rules.len() {
            for at in places(r, &text, s.rules.len()) {
                let mut ev = Ev::new(text, &s.rules, ind);
                let e = match ev.ev(&s.rules[k], at) { Err(spec::Fail::OutOfFuel) => continue, e => e };
                let mut t = old.clone();
                let got = o.rules[k].parse(&mut t, &TokenizerState(old.len()), &ReadToken::new(&text[at..], at), &o.rules, &mut settings(ind));
                match (&e, &got) {
                    (Ok(e), Ok((g, st, _))) => {
                        t.truncate(st.0);
                        if g.offset != at || g.next_offset() != e.end || ne(&t[old.len()..], &e.toks) { return fail(format!("  optimized rule {} at {}: {:?} {:?}\n  expected end {} meta data {:?}\n", k, at, g, t, e.end, e.toks)); }
                    }
                    (Err(_), Err(_)) => {}
                    _ => return fail(format!("  optimized rule {} at {}: {:?}\n  expected {}\n", k, at, got, if e.is_ok() { "success" } else { "failure" })),
                }
            }
        }
        return Out::Pass;
    }
    // whole document
    let mut toks = old.clone();
    if matches!(p, "C01" | "C06" | "C07" | "C08" | "C09" | "C18") {
        let got = parse_with_indent(s, text, &mut toks, &st0);
        match p {
            "C01" => {
                match (&doc, &got) {
                    (Doc::Accept(t), Ok(())) => {
                        let mut want = old.clone(); want.extend(t.clone());
                        if ne(&toks, &want) { return fail(format!("  accepted with meta data {:?}\n  expected {:?}\n", toks, want)); }
                    }
                    (Doc::Accept(_), Err(e)) => return fail(format!("  rejected: {:?}\n  expected: accepted\n", e)),
                    (_, Ok(())) => return fail(format!("  accepted\n  expected: rejected\n")),
                    (Doc::NoRules, Err(e)) => if e.data != ParseError::NoRules { return fail(format!("  no rules, but got {:?}\n", e)); },
                    _ => {}
                }
                let mut t2 = old.clone();
                let g2 = parse_errstr_with_indent(s, text, &mut t2, &st0);
                if g2.is_ok() != got.is_ok() || ne(&t2, &toks) { return fail(format!("  parse_errstr_with_indent disagrees: {:?}\n", g2)); }
                if let (Err(e), Err(m)) = (got, &g2) {
                    let mut w: Vec<u8> = vec![];
                    ParseErrorHandler::new(text).write(&mut w, e).unwrap();
                    if w != m.as_bytes() { return fail(format!("  error string {:?}\n  expected {:?}\n", m, String::from_utf8_lossy(&w))); }
                }
                let d = settings(Ind { indent: 0, align_first: true, tab_spaces: 4 });
                let (mut a, mut b, mut c) = (old.clone(), old.clone(), old.clone());
                if let Doc::Unknown = document(s, text, Ind { indent: 0, align_first: true, tab_spaces: 4 }) { return Out::Pass; }
                let x = parse(s, text, &mut a);
                let y = parse_with_indent(s, text, &mut b, &d);
                let z = parse_errstr(s, text, &mut c);
                if x != y || ne(&a, &b) || z.is_ok() != x.is_ok() || ne(&c, &a) { return fail(format!("  entry points disagree: {:?} {:?} {:?}\n", x, y, z)); }
                return Out::Pass;
            }
            "C06" => {
                if toks.len() < old.len() || ne(&toks[..old.len()], &old) { return fail(format!("  earlier meta data changed: {:?} -> {:?}\n", old, toks)); }
                if let (Doc::Accept(t), Ok(())) = (&doc, &got) {
                    if ne(&toks[old.len()..], &t) { return fail(format!("  meta data {:?}\n  expected {:?}\n", &toks[old.len()..], t)); }
                }
            }
            "C07" => if got.is_ok() && !balanced(&toks[old.len().min(toks.len())..]) { return fail(format!("  not well nested: {:?}\n", &toks[old.len()..])); },
            "C08" => if got.is_ok() {
                for t in &toks[old.len().min(toks.len())..] {
                    let (a, b) = (t.offset, t.offset.wrapping_add(t.length));
                    if b < a || b > text.len() || !bound(text, a) || !bound(text, b) { return fail(format!("  meta data out of the text: {:?}\n", t)); }
                }
            },
            "C09" => match (&doc, &got) {
                (Doc::Reject(e), Err(g)) => if !same(e, g) { return fail(format!("  reported {:?}\n  deepest is {:?}\n", g, e)); },
                _ => {}
            },
            _ => {}
        }
        if let (Err(g), true) = (&got, matches!(p, "C08" | "C09")) {
            let (a, b) = (g.offset, g.offset.wrapping_add(g.length));
            if b < a || b > text.len() { return fail(format!("  error out of the text: {:?}\n", g)); }
        }
    }
    if s.rules.is_empty() { return Out::Pass; }
    // one rule, somewhere in the text, after earlier meta data and possibly stale meta data
    let opt = matches!(p, "C06" | "C07" | "C08" | "C09" | "C18") && r.b();
    let o = if opt { s.clone().optimize() } else { s.clone() };
    for k in 0..o.rules.len() {
        for at in places(r, &text, s.rules.len()) {
            if at > 0 && r.p(1, 2) { continue; }
            let mut ev = Ev::new(text, &o.rules, ind);
            let e = match ev.ev(&o.rules[k], at) { Err(spec::Fail::OutOfFuel) => continue, e => e };
            let mut t = old.clone();
            for i in 0..r.n(3) { t.push(Range::new(i, 9).wrap(MetaData::StartNode(crate::gen::st("stale")))); }
            let mut st1 = settings(ind);
            let rt = ReadToken::new(&text[at..], at);
            let got = o.rules[k].parse(&mut t, &TokenizerState(old.len()), &rt, &o.rules, &mut st1);
            let fail = |m: String| fail(format!("  rule {}{} at {}\n{}", k, if opt { " optimized" } else { "" }, at, m));
            match p {
                "C02" | "C03" | "C04" | "C05" | "C01" => match (&e, &got) {
                    (Ok(e), Ok((g, st, _))) => {
                        if g.offset != at || g.next_offset() != e.end { return fail(format!("  read {:?}\n  expected {}..{}\n", g, at, e.end)); }
                        if st.0 > t.len() || st.0 < old.len() || ne(&t[old.len()..st.0], &e.toks) { return fail(format!("  meta data {:?} (state {})\n  expected {:?}\n", t, st.0, e.toks)); }
                        if p == "C05" && st1.indent != ev.ind.indent { return fail(format!("  indent after {}\n  expected {:?}\n", st1.indent, ev.ind)); }
                    }
                    (Err(spec::Fail::Fails(_)), Err(_)) => if p == "C05" && st1.indent != ev.ind.indent { return fail(format!("  indent after {}\n  expected {:?}\n", st1.indent, ev.ind)); },
                    (Ok(e), Err(g)) => return fail(format!("  failed: {:?}\n  expected success at {}\n", g, e.end)),
                    _ => return fail(format!("  succeeded: {:?}\n  expected failure\n", got)),
                },
                "C06" => {
                    if t.len() < old.len() || ne(&t[..old.len()], &old) { return fail(format!("  earlier meta data changed: {:?} -> {:?}\n", old, t)); }
                    if let (Ok(e), Ok((_, st, _))) = (&e, &got) {
                        if st.0 > t.len() || st.0 < old.len() || ne(&t[old.len()..st.0], &e.toks) { return fail(format!("  meta data {:?} (state {})\n  expected {:?}\n", t, st.0, e.toks)); }
                    }
                }
                "C07" => if let Ok((_, st, _)) = &got {
                    if st.0 > t.len() || st.0 < old.len() || !balanced(&t[old.len()..st.0]) { return fail(format!("  not well nested: {:?} (state {})\n", t, st.0)); }
                },
                "C08" => match &got {
                    Ok((g, st, _)) => {
                        let end = g.offset.wrapping_add(g.length);
                        if g.offset != at || end < at || end > text.len() || !bound(text, end) { return fail(format!("  range {:?}\n", g)); }
                        if let Ok(e) = &e { if e.end != end { return fail(format!("  range {:?}, but read up to {}\n", g, e.end)); } }
                        if st.0 > t.len() || st.0 < old.len() { return fail(format!("  state {}\n", st.0)); }
                        for x in &t[old.len()..st.0] {
                            let (a, b) = (x.offset, x.offset.wrapping_add(x.length));
                            if a < at || b < a || b > end || !bound(text, a) || !bound(text, b) { return fail(format!("  meta data {:?} outside {:?}\n", x, g)); }
                        }
                        if let Ok(e) = &e { for (x, y) in t[old.len()..st.0].iter().zip(&e.toks) { if x.range() != y.range() { return fail(format!("  meta data {:?}\n  expected range {:?}\n", x, y.range())); } } }
                    }
                    Err(_) => {}
                },
                "C09" => match (&e, &got) {
                    (Err(spec::Fail::Fails(e)), Err(g)) => if !same(e, g) { return fail(format!("  reported {:?}\n  deepest is {:?}\n", g, e)); },
                    (Ok(e), Ok((_, _, g))) => {
                        let eq = match (&e.err, g) { (None, None) => true, (Some(e), Some(g)) => same(e, g), _ => false };
                        if !eq { return fail(format!("  kept {:?}\n  deepest is {:?}\n", g, e.err)); }
                    }
                    _ => {}
                },
                _ => {}
            }
        }
    }
    Out::Pass
}
use crate::spec;

/// a first line indented further than the level can count
pub fn deep_indent() -> Out {
    let n = (u32::MAX / 255) as usize + 2;
    crate::note(|| format!("  indented lines of the tag \"a\", tab_spaces = 255; text = {} tabs, then a\n", n));
    let mut text = "\t".repeat(n);
    text.push_str("a\n");
    let tag = Rule::Tag(Tag { text: crate::gen::st("a"), not: false, inverted: false, property: None, debug_id: 1 });
    let mut s = Syntax::new();
    s.push(crate::gen::st("lines"), Rule::Lines(Box::new(Lines { rule: tag, debug_id: 2, indent: true })));
    let x = parse_with_indent(&s, &text, &mut vec![], &IndentSettings { indent: 0, align_first: true, tab_spaces: 255 });
    if x.is_ok() { Out::Pass } else { Out::Fail(format!("  {} tabs then a: {:?}", n, x)) }
}

/// reproductions of the known findings (all inside the dependency read_token)
pub fn finding(id: &str) -> bool {
    let run = |rule: Rule, text: &'static str| -> Option<Result<usize, Range<ParseError>>> {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut t = vec![];
            rule.parse(&mut t, &TokenizerState(0), &ReadToken::new(text, 0), &[], &mut IndentSettings::default()).map(|x| x.0.length)
        })).ok()
    };
    let tag = Rule::Tag(Tag { text: crate::gen::st("a"), not: false, inverted: false, property: None, debug_id: 1 });
    let lines = Rule::Lines(Box::new(Lines { rule: tag, debug_id: 2, indent: false }));
    match id {
        "exponent-overflow" => run(Rule::Number(Number { property: None, debug_id: 1, allow_underscore: false }), "1e99999999999999999999").is_none(),
        "wide-blank-panic" => run(lines, "\u{2003}\na").is_none(),
        "wide-blank-end" => run(lines, "a\n\u{a0}").map_or(true, |r| r.map_or(true, |n| n != 4)),
        "wide-blank-range" => run(lines, "\u{a0}").map_or(true, |r| r.map_or(false, |n| n == 1)),
        _ => false,
    }
}

// ---------------------------------------------------------------- C20: parsing finishes
/// may the rule succeed without reading (`nul`: which rules of the syntax may)
fn may_read_nothing(r: &Rule, nul: &[bool]) -> bool {
    match r {
        Rule::Whitespace(w) => w.optional,
        Rule::Tag(t) => t.not || t.text.is_empty(),
        Rule::UntilAny(u) => u.optional,
        Rule::UntilAnyOrWhitespace(u) => u.optional,
        Rule::Text(_) | Rule::Number(_) => false,
        Rule::Select(s) => s.args.iter().any(|a| may_read_nothing(a, nul)),
        Rule::FastSelect(s) => s.args.iter().any(|a| may_read_nothing(a, nul)),
        Rule::Sequence(s) => s.args.iter().all(|a| may_read_nothing(a, nul)),
        Rule::SeparateBy(b) => b.optional || may_read_nothing(&b.rule, nul),
        Rule::Repeat(b) => b.optional || may_read_nothing(&b.rule, nul),
        Rule::Node(n) => n.index.map_or(false, |i| nul[i]),
        Rule::Lines(_) | Rule::Optional(_) | Rule::Not(_) => true,
    }
}
/// rules reached without reading; false: something repeats without reading
fn reached(r: &Rule, nul: &[bool], out: &mut Vec<usize>) -> bool {
    let m = |r: &Rule| may_read_nothing(r, nul);
    match r {
        Rule::Select(s) => s.args.iter().fold(true, |x, a| reached(a, nul, out) && x),
        Rule::FastSelect(s) => s.args.iter().fold(true, |x, a| reached(a, nul, out) && x),
        Rule::Sequence(s) => {
            let (mut fine, mut left) = (true, true);
            for a in &s.args {
                fine &= if left { reached(a, nul, out) } else { reached(a, nul, &mut vec![]) };
                left &= m(a);
            }
            fine
        }
        Rule::SeparateBy(b) => {
            let x = reached(&b.rule, nul, out);
            let y = if m(&b.rule) { reached(&b.by, nul, out) } else { reached(&b.by, nul, &mut vec![]) };
            x && y && !(m(&b.rule) && m(&b.by))
        }
        Rule::Repeat(b) => reached(&b.rule, nul, out) && !m(&b.rule),
        Rule::Lines(b) => reached(&b.rule, nul, out),
        Rule::Optional(b) => reached(&b.rule, nul, out),
        Rule::Not(b) => reached(&b.rule, nul, out),
        Rule::Node(n) => { out.extend(n.index); true }
        _ => true,
    }
}
/// no rule reaches itself, and nothing repeats, without reading
pub fn finishes(s: &Syntax) -> bool {
    let n = s.rules.len();
    let mut nul = vec![false; n];
    loop {
        let new: Vec<bool> = s.rules.iter().map(|r| may_read_nothing(r, &nul)).collect();
        if new == nul { break; }
        nul = new;
    }
    let mut to = vec![vec![]; n];
    for i in 0..n { if !reached(&s.rules[i], &nul, &mut to[i]) { return false; } }
    let mut done = vec![false; n];
    for _ in 0..n { for i in 0..n { if to[i].iter().all(|&j| done[j]) { done[i] = true; } } }
    done.iter().all(|&d| d)
}
pub fn run_finishes(r: &mut Rng) -> Out {
    let focus = match r.n(5) { 0 => &SEQ, 1 => &REP, 2 => &LINE, _ => &ALL };
    let mut s = gsyntax(r, focus);
    let mut k = 0;
    while !finishes(&s) { s = gsyntax(r, focus); k += 1; if k == 30 { return Out::Skip; } }
    let ind = indent(r);
    let o = s.clone().optimize();
    let mut done = false;
    for _ in 0..3 {
        let mut text = text_for(r, &s, s.rules.len() - 1);
        if r.p(1, 10) { text.push_str(*r.pick(&["\n\n", " ", "\u{2028}", "\u{a0}\n", "\u{85}", "\r\n \n"])); }
        if has_lines(&s) && wide_white(&text) { continue; }
        crate::note(|| show(&s, &text, ind, ""));
        let mut ev = Ev::new(&text, &s.rules, ind);
        ev.fuel = 60000;
        if let Err(spec::Fail::OutOfFuel) = ev.ev(&s.rules[s.rules.len() - 1], 0) { continue; }
        for x in [&s, &o] { let _ = parse_with_indent(x, &text, &mut old_tokens(r), &settings(ind)); }
        done = true;
        for k in 0..s.rules.len() {
            for at in places(r, &text, s.rules.len()) {
                let mut ev = Ev::new(&text, &s.rules, ind);
                ev.fuel = 20000;
                if let Err(spec::Fail::OutOfFuel) = ev.ev(&s.rules[k], at) { continue; }
                for x in [&s, &o] { let _ = x.rules[k].parse(&mut vec![], &TokenizerState(0), &ReadToken::new(&text[at..], at), &x.rules, &mut settings(ind)); }
            }
        }
    }
    if done { Out::Pass } else { Out::Skip }
}
