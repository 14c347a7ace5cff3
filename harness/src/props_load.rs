//! Loading a syntax from text: C19.
use crate::gen::*;
use crate::props_conv::resolve;
use crate::rng::Rng;
use crate::spec::*;
use crate::Out;
use piston_meta::meta_rules::*;
use piston_meta::*;

/// a string of the meta language
fn quoted(t: &str) -> String { format!("\"{}\"", t.replace('\\', "\\\\").replace('"', "\\\"")) }
/// string definitions, in the order they are written
type Strings = Vec<(String, String)>;
/// a string or a reference to one
fn set(r: &mut Rng, t: &str, empty: bool, strs: &mut Strings) -> Option<String> {
    if r.p(1, 6) {
        if let Some((n, _)) = strs.iter().find(|(n, x)| x == t && strs.iter().find(|(m, _)| m == n).unwrap().1 == t) { return Some(format!("_{}", n)); }
        let n = format!("s{}", strs.len());
        strs.push((n.clone(), t.to_string()));
        return Some(format!("_{}", n));
    }
    if t.is_empty() && !empty { return None; }
    Some(quoted(t))
}
fn prop(r: &mut Rng, p: &Option<S>, strs: &mut Strings) -> Option<String> {
    match p { None => Some(String::new()), Some(p) => Some(format!(":{}", set(r, p, false, strs)?)) }
}
fn ws(r: &mut Rng) -> String { r.pick(&[" ", "\n  ", " \n\t", "  "]).to_string() }
fn ws0(r: &mut Rng) -> String { if r.b() { String::new() } else { ws(r) } }
/// the rule in the meta language; None when the language has no form for it
fn print(r: &mut Rng, x: &Rule, strs: &mut Strings) -> Option<String> {
    let q = |b: bool| if b { "?" } else { "!" };
    Some(match x {
        Rule::Whitespace(w) => format!(".w{}", q(w.optional)),
        Rule::UntilAny(u) => format!("...{}{}{}", set(r, &u.any_characters, true, strs)?, q(u.optional), prop(r, &u.property, strs)?),
        Rule::UntilAnyOrWhitespace(u) => format!("..{}{}{}", set(r, &u.any_characters, true, strs)?, q(u.optional), prop(r, &u.property, strs)?),
        Rule::Text(t) => format!(".t{}{}", q(t.allow_empty), prop(r, &t.property, strs)?),
        Rule::Number(n) => format!(".${}{}", if n.allow_underscore { "_" } else { "" }, prop(r, &n.property, strs)?),
        Rule::Tag(t) => {
            let text = set(r, &t.text, false, strs)?;
            let p = match &t.property {
                None => if t.inverted { return None } else { String::new() },
                Some(p) => format!(":{}{}", if t.inverted { "!" } else { "" }, set(r, p, false, strs)?),
            };
            format!("{}{}{}", if t.not { "!" } else { "" }, text, p)
        }
        Rule::Select(Select { args, .. }) | Rule::Sequence(Sequence { args, .. }) => {
            if args.is_empty() { return None; }
            let (a, b) = if let Rule::Select(_) = x { ("{", "}") } else { ("[", "]") };
            let mut o = a.to_string() + &ws0(r);
            for (i, y) in args.iter().enumerate() { if i > 0 { o += &ws(r); } o += &print(r, y, strs)?; }
            // white space before the end would ask for another rule
            o + b
        }
        Rule::SeparateBy(s) => {
            let by = print(r, &s.by, strs)?;
            let (a, b, c) = (ws0(r), ws(r), ws0(r));
            format!(".s{}{}({}{}{}{}{})", q(s.optional), if s.allow_trail { "." } else { "" }, a, by, b, print(r, &s.rule, strs)?, c)
        }
        Rule::Repeat(s) => format!(".r{}({})", q(s.optional), print(r, &s.rule, strs)?),
        Rule::Lines(s) => format!(".l{}({}{}{})", if s.indent { "+" } else { "" }, ws0(r), print(r, &s.rule, strs)?, ws0(r)),
        Rule::Node(n) => format!("{}{}", n.name, prop(r, &n.property, strs)?),
        Rule::Optional(s) => format!("?{}", print(r, &s.rule, strs)?),
        Rule::Not(s) => { if let Rule::Tag(Tag { not: false, .. }) = s.rule { return None; } format!("!{}", print(r, &s.rule, strs)?) }
        Rule::FastSelect(_) => return None,
    })
}
fn comment(r: &mut Rng) -> String { r.pick(&["// a = [\"x\"]\n", "/* é */\n", "/* a\n /* b */ \" */\n", "\n", "  \n", "//\n"]).to_string() }
/// debug ids are counted over the rules of a node, see C12
fn strip(s: &str) -> String {
    let mut o = String::new();
    let mut rest = s;
    while let Some(i) = rest.find("debug_id: ") {
        o += &rest[..i];
        rest = rest[i + 10..].trim_start_matches(|c: char| c.is_ascii_digit());
    }
    o + rest
}
/// references and tables stay in range
fn sound(x: &Rule, n: usize) -> bool {
    match x {
        Rule::Node(q) => q.index.map_or(true, |i| i < n),
        Rule::Select(s) => s.args.iter().all(|a| sound(a, n)),
        Rule::Sequence(s) => s.args.iter().all(|a| sound(a, n)),
        Rule::FastSelect(s) => s.table.iter().all(|&i| i == 255 || (i as usize) < s.args.len()) && (!s.tail || !s.args.is_empty()) && s.args.iter().all(|a| sound(a, n)),
        Rule::SeparateBy(s) => sound(&s.rule, n) && sound(&s.by, n),
        Rule::Repeat(s) => sound(&s.rule, n),
        Rule::Lines(s) => sound(&s.rule, n),
        Rule::Optional(s) => sound(&s.rule, n),
        Rule::Not(s) => sound(&s.rule, n),
        _ => true,
    }
}
fn meta_mutate(r: &mut Rng, t: &str) -> String {
    const M: &[&str] = &["\"", "[", "]", "{", "}", "(", ")", ".", "?", "!", ":", "_", " ", "\n", "=", "1", "é", "/*", "//", ".l(", ".s?(", ".r!(", "\\", ".t?", ".$", "0 r0 = ", "r9", "_s0", "?", "...", "1e300 ", "a"];
    let mut c: Vec<String> = t.chars().map(|c| c.to_string()).collect();
    for _ in 0..1 + r.n(2) {
        match r.n(4) {
            0 => { if !c.is_empty() { let i = r.n(c.len()); c.remove(i); } }
            1 => { let i = r.n(c.len() + 1); c.insert(i, r.pick(M).to_string()); }
            2 => { if r.p(1, 3) { let i = r.n(c.len() + 1); c.truncate(i); } }
            _ => { if !c.is_empty() { let i = r.n(c.len()); c[i] = r.pick(M).to_string(); } }
        }
    }
    c.concat()
}

pub fn run(r: &mut Rng) -> Out {
    let mut want = gsyntax(r, &ALL);
    for n in &mut want.names { if r.p(1, 8) { *n = name(0); } }
    rename(r, &mut want);
    let mut strs: Strings = vec![];
    let mut nodes = String::new();
    let mut whole = true;
    for (i, x) in want.rules.iter().enumerate() {
        match print(r, x, &mut strs) {
            Some(t) => {
                if r.p(1, 5) { nodes += &comment(r); }
                let id = *r.pick(&["0", "1", "7", "3", "1e300", "20"]);
                nodes += &format!("{}{}{}{}={}{}\n", id, ws(r), want.names[i], ws(r), ws0(r), t);
            }
            None => whole = false,
        }
    }
    let mut text = String::new();
    for (n, t) in &strs { if r.p(1, 8) { text += &comment(r); } text += &format!("_{}:{}{}\n", n, ws0(r), quoted(t)); }
    text += &nodes;
    if r.p(1, 8) { text += &comment(r); }
    if r.p(1, 3) { text = meta_mutate(r, &text); whole = false; }
    if r.p(1, 40) { text = random_text(r, 12); whole = false; }
    if wide_white(&text) { return Out::Skip; }
    crate::note(|| format!("  syntax text = {:?}\n", text));
    let fail = |m: String| Out::Fail(format!("  syntax text = {:?}\n{}", text, m));
    let got = syntax(&text);
    match (&got, syntax_errstr(&text)) {
        (Ok(a), Ok(b)) => if format!("{:?}", a) != format!("{:?}", b) { return fail(format!("  syntax {:?}\n  syntax_errstr {:?}\n", a, b)); },
        (Err(_), Err(m)) => {
            let e = syntax(&text).unwrap_err();
            let d = format!("{:?}", e);
            let mut w = vec![];
            ParseErrorHandler::new(&text).write(&mut w, Range::new(e.offset, e.length).wrap(e.data)).unwrap();
            if w != m.as_bytes() { return fail(format!("  error {}\n  syntax_errstr {:?}\n", d, m)); }
        }
        (a, b) => return fail(format!("  syntax {:?}\n  syntax_errstr {:?}\n", a, b)),
    }
    let s = match got {
        Err(e) => {
            if e.next_offset() > text.len() { return fail(format!("  the error lies outside the text: {:?}\n", e)); }
            return if whole { fail(format!("  the described syntax {:?}\n  is rejected: {:?}\n", want, e)) } else { Out::Pass };
        }
        Ok(s) => s,
    };
    if s.names.len() != s.rules.len() { return fail(format!("  {} rules, {} names: {:?}\n", s.rules.len(), s.names.len(), s)); }
    for x in &s.rules { if !sound(x, s.rules.len()) { return fail(format!("  reference or table out of range: {:?}\n", s)); } }
    let meaning = if whole {
        let names = want.names.clone();
        for x in &mut want.rules { resolve(x, &names); }
        if s.names != want.names { return fail(format!("  names {:?}\n  expected {:?}\n", s.names, want.names)); }
        let (a, b) = (strip(&format!("{:?}", s.rules)), strip(&format!("{:?}", want.clone().optimize().rules)));
        if a != b { return fail(format!("  loaded {}\n  expected {}\n", a, b)); }
        &want
    } else { &s };
    // parsing with what was loaded
    let mut done = 0;
    for _ in 0..2 {
        let t = text_for(r, meaning, meaning.rules.len().max(1) - 1);
        if has_lines(meaning) && wide_white(&t) { continue; }
        let d = document(meaning, &t, Ind { indent: 0, align_first: true, tab_spaces: 4 });
        if let Doc::Unknown = d { continue; }
        crate::note(|| format!("  syntax text = {:?}\n  text = {:?}\n", text, t));
        let mut toks = vec![];
        let x = parse(&s, &t, &mut toks);
        done += 1;
        match (&d, &x) {
            (Doc::Accept(w), Ok(())) => if toks != *w && !format!("{:?}", w).contains("NaN") { return fail(format!("  text = {:?}\n  read {:?}\n  expected {:?}\n", t, toks, w)); },
            (Doc::Accept(_), Err(e)) => return fail(format!("  text = {:?}\n  rejected: {:?}\n", t, e)),
            (Doc::Reject(_), Ok(())) | (Doc::NoRules, Ok(())) => return fail(format!("  text = {:?}\n  accepted\n", t)),
            _ => {}
        }
        if r.p(1, 60) {
            let d = std::env::temp_dir().join(format!("vharness.{}.{:?}", std::process::id(), std::thread::current().id()));
            std::fs::create_dir_all(&d).unwrap();
            let (f, g) = (d.join("syntax"), d.join("data"));
            std::fs::write(&f, &text).unwrap();
            std::fs::write(&g, &t).unwrap();
            let y = std::panic::catch_unwind(|| load_syntax_data(&f, &g));
            std::fs::remove_dir_all(&d).unwrap();
            match (&x, y) {
                (Ok(()), Ok(y)) => if format!("{:?}", y) != format!("{:?}", toks) { return fail(format!("  text = {:?}\n  parse {:?}\n  load_syntax_data {:?}\n", t, toks, y)); },
                (Ok(()), Err(_)) => return fail(format!("  text = {:?}\n  parse {:?}\n  load_syntax_data panics\n", t, toks)),
                (Err(e), Ok(y)) => return fail(format!("  text = {:?}\n  parse {:?}\n  load_syntax_data {:?}\n", t, e, y)),
                (Err(_), Err(_)) => {}
            }
        }
    }
    if done > 0 || whole { Out::Pass } else { Out::Skip }
}
/// references by name only, some to nothing
fn rename(r: &mut Rng, s: &mut Syntax) {
    fn go(r: &mut Rng, x: &mut Rule) {
        match x {
            Rule::Node(n) => { n.index = None; if r.p(1, 40) { n.name = st("nothing"); } }
            Rule::Select(s) => for a in &mut s.args { go(r, a) },
            Rule::Sequence(s) => for a in &mut s.args { go(r, a) },
            Rule::SeparateBy(s) => { go(r, &mut s.rule); go(r, &mut s.by) }
            Rule::Repeat(s) => go(r, &mut s.rule),
            Rule::Lines(s) => go(r, &mut s.rule),
            Rule::Optional(s) => go(r, &mut s.rule),
            Rule::Not(s) => go(r, &mut s.rule),
            _ => {}
        }
    }
    for x in &mut s.rules { go(r, x); }
}
