//! JSON, search and error reports: C15..C17.
use crate::gen::*;
use crate::rng::Rng;
use crate::Out;
use piston_meta::*;
use piston_meta_search::Search;
use std::io;

type D = Range<MetaData>;
struct Short { left: usize, got: Vec<u8> }
impl io::Write for Short {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.left == 0 && !b.is_empty() { return Err(io::Error::new(io::ErrorKind::Other, "full")); }
        let n = b.len().min(self.left);
        self.left -= n;
        self.got.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
/// runs a writer on a sink that fails after some bytes; compares with the whole output
fn sink<F: FnMut(&mut Short) -> Result<(), io::Error>>(want: &[u8], cut: usize, mut f: F) -> Result<(), String> {
    for left in [usize::MAX, cut] {
        let mut w = Short { left, got: vec![] };
        let res = f(&mut w);
        let n = want.len().min(left);
        if res.is_ok() != (want.len() <= left) || w.got != want[..n] {
            return Err(format!("  sink for {} bytes: {:?} wrote\n{}\n  expected\n{}\n", left, res, String::from_utf8_lossy(&w.got), String::from_utf8_lossy(&want[..n])));
        }
    }
    Ok(())
}
const C: &[&str] = &["a", "\"", "\\", "\n", "\r", "\t", "\u{0}", "\u{1}", "\u{8}", "\u{c}", "\u{1f}", " ", "/", "\u{7f}", "é", "\u{2028}", "𝄞", "\u{10ffff}", "b", "\u{80}", "u", "<"];
fn wild(r: &mut Rng) -> String {
    (0..if r.p(1, 60) { r.n(300) } else { r.n(6) }).map(|_| if r.p(1, 6) { char::from_u32(r.n(0x3000) as u32).unwrap_or('x').to_string() } else { r.pick(C).to_string() }).collect()
}
/// strict decoder of JSON strings
fn decode(b: &str) -> Option<(String, usize)> {
    let mut it = b.char_indices();
    if it.next()?.1 != '"' { return None; }
    let mut out = String::new();
    loop {
        let (i, c) = it.next()?;
        match c {
            '"' => return Some((out, i + 1)),
            '\\' => match it.next()?.1 {
                '"' => out.push('"'), '\\' => out.push('\\'), '/' => out.push('/'), 'b' => out.push('\u{8}'), 'f' => out.push('\u{c}'),
                'n' => out.push('\n'), 'r' => out.push('\r'), 't' => out.push('\t'),
                'u' => {
                    let mut v = 0;
                    for _ in 0..4 { v = v * 16 + it.next()?.1.to_digit(16)?; }
                    if (0xd800..0xdc00).contains(&v) {
                        if it.next()?.1 != '\\' || it.next()?.1 != 'u' { return None; }
                        let mut w = 0;
                        for _ in 0..4 { w = w * 16 + it.next()?.1.to_digit(16)?; }
                        if !(0xdc00..0xe000).contains(&w) { return None; }
                        v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00);
                    }
                    out.push(char::from_u32(v)?)
                }
                _ => return None,
            },
            c if (c as u32) < 0x20 => return None,
            c => out.push(c),
        }
    }
}
fn number(r: &mut Rng) -> f64 {
    match r.n(6) {
        0 => *r.pick(&[0.0, -0.0, 1.0, -2.5, 0.1, 123456.789, 9007199254740993.0, 1e20, 1e-20, 1e300, -1e300]),
        1 => f64::from_bits(r.next()),
        2 => r.n(2000) as f64 - 1000.0,
        3 => (r.n(2000) as f64) / 16.0,
        4 => 1.0 + f64::EPSILON * r.n(3) as f64,
        _ => *r.pick(&[f64::MIN_POSITIVE, 5e-324, f64::MAX, 1e-300, 0.30000000000000004, 0.3]),
    }
}
fn nested(r: &mut Rng, d: usize, out: &mut Vec<MetaData>) {
    if d == 3 && r.p(1, 40) {
        // a deep or a long document
        let n = r.n(300);
        if r.b() {
            for _ in 0..n { out.push(MetaData::StartNode(st("d"))); if r.p(1, 4) { out.push(MetaData::Bool(st("b"), true)); } }
            for _ in 0..n { out.push(MetaData::EndNode(st("d"))); if r.p(1, 4) { out.push(MetaData::F64(st("f"), 1.5)); } }
        } else {
            for _ in 0..n { nested(r, 1, out); }
        }
    }
    for _ in 0..r.n(4) {
        let n = st(&wild(r));
        match r.n(if d == 0 { 3 } else { 5 }) {
            0 => out.push(MetaData::Bool(n, r.b())),
            1 => { let v = number(r); out.push(MetaData::F64(n, v)) }
            2 => out.push(MetaData::String(n, st(&wild(r)))),
            _ => { out.push(MetaData::StartNode(n.clone())); nested(r, d - 1, out); out.push(MetaData::EndNode(n)); }
        }
    }
}
fn shown(d: &[D]) -> String { d.iter().map(|x| format!("  [{},{}] {:?}\n", x.offset, x.length, x.data)).collect() }

/// the expected output of `json::write`
fn layout(d: &[D]) -> String {
    // expected layout; the strings were checked above
    let q = |s: &str| { let mut w = vec![]; json::write_string(&mut w, s).unwrap(); String::from_utf8(w).unwrap() };
    let mut out = String::new();
    let mut lvl = 0;
    let mut comma = false;
    for (i, x) in d.iter().enumerate() {
        if let MetaData::EndNode(_) = x.data { lvl -= 1; comma = false; }
        if comma { out += ",\n" } else if i != 0 { out += "\n" }
        out += &" ".repeat(lvl);
        comma = true;
        match &x.data {
            MetaData::StartNode(n) => { out += &format!("{}:{{", q(n)); lvl += 1; comma = false; }
            MetaData::EndNode(_) => out += "}",
            MetaData::Bool(n, v) => out += &format!("{}:{}", q(n), v),
            MetaData::F64(n, v) => out += &format!("{}:{}", q(n), v),
            MetaData::String(n, v) => out += &format!("{}:{}", q(n), q(v)),
        }
    }
    out += "\n";
    out
}

/// what a run of this program with one call of a function that uses a standard stream gives
fn child(what: &str, k: u64) -> (Option<i32>, String, String) {
    let o = std::process::Command::new(std::env::current_exe().unwrap()).args(&["child", what, &k.to_string()]).output().unwrap();
    (o.status.code(), String::from_utf8_lossy(&o.stdout).into_owned(), String::from_utf8_lossy(&o.stderr).into_owned())
}
/// runs one function that uses a standard stream; the program ends with 0 when it returns
pub fn child_main(what: &str, k: u64) {
    let mut r = Rng::new(k, what, 0);
    match what {
        "print" => json::print(&child_data(&mut r)),
        "unwrap-ok" => { if stderr_unwrap(&report_text(&mut r), Ok(k)) != k { std::process::exit(3) } }
        _ => {
            let t = report_text(&mut r);
            let g = report_range(&mut r, &t);
            let e = g.wrap(errors().swap_remove(r.n(errors().len())).0);
            if what == "error" { ParseErrorHandler::new(&t).error(e) } else { let () = stderr_unwrap(&t, Err(e)); }
        }
    }
}
fn child_data(r: &mut Rng) -> Vec<D> {
    let mut v = vec![];
    nested(r, 3, &mut v);
    v.into_iter().enumerate().map(|(i, x)| Range::new(i, 1).wrap(x)).collect()
}
fn print_case(k: u64) -> Out {
    let d = child_data(&mut Rng::new(k, "print", 0));
    crate::note(|| format!("  json::print of\n{}", shown(&d)));
    let want = (Some(0), layout(&d), String::new());
    let got = child("print", k);
    if got == want { Out::Pass } else { Out::Fail(format!("  json::print of\n{}  gave {:?}\n  expected {:?}\n", shown(&d), got, want)) }
}
fn stderr_case(k: u64) -> Out {
    for (what, code) in [("error", 0), ("unwrap", 101), ("unwrap-ok", 0)] {
        let mut r = Rng::new(k, what, 0);
        let t = report_text(&mut r);
        let mut want = (Some(code), String::new(), String::new());
        if what != "unwrap-ok" {
            let g = report_range(&mut r, &t);
            want.2 = report(&t, g, r.n(errors().len()));
        }
        crate::note(|| format!("  {} {:?}", what, t));
        let got = child(what, k);
        if got != want { return Out::Fail(format!("  {} with text {:?}\n  gave (exit code, stdout, stderr) {:?}\n  expected {:?}\n", what, t, got, want)); }
    }
    Out::Pass
}

fn json_case(r: &mut Rng) -> Out {
    if r.p(1, 2500) { return print_case(r.next()); }
    let s = wild(r);
    crate::note(|| format!("  {:?}", s));
    let mut w = vec![];
    if let Err(e) = json::write_string(&mut w, &s) { return Out::Fail(format!("  write_string({:?}): {}", s, e)); }
    let t = match String::from_utf8(w) { Ok(t) => t, Err(_) => return Out::Fail(format!("  write_string({:?}) wrote invalid UTF-8", s)) };
    match decode(&t) {
        Some((x, n)) if x == s && n == t.len() => {}
        x => return Out::Fail(format!("  write_string({:?}) = {}\n  which decodes to {:?}\n", s, t, x)),
    }
    let cut = r.n(t.len());
    if let Err(e) = sink(t.as_bytes(), cut, |w| json::write_string(w, &s)) { return Out::Fail(format!("  write_string({:?})\n{}", s, e)); }
    let mut v = vec![];
    nested(r, 3, &mut v);
    let d: Vec<D> = v.into_iter().enumerate().map(|(i, x)| Range::new(i, 1).wrap(x)).collect();
    crate::note(|| shown(&d));
    let out = layout(&d);
    let cut = r.n(out.len());
    if let Err(e) = sink(out.as_bytes(), cut, |w| json::write(w, &d)) { return Out::Fail(format!("{}{}", shown(&d), e)); }
    Out::Pass
}

fn search_case(r: &mut Rng) -> Out {
    let all = ["a", "b", "é", "aa", "", "A", "ab"];
    let names = if r.p(3, 4) { &all[..3] } else { &all[..] };
    let floats = [0.0, -0.0, 1.0, f64::NAN, 1e-20, 1.0 + f64::EPSILON, 1e300, f64::INFINITY, -1.0, 0.1 + 0.2, 0.3, 5e-324];
    let fl = |r: &mut Rng| if r.b() { floats[r.n(4)] } else { floats[r.n(floats.len())] };
    let mut o = 5;
    let d: Vec<D> = (0..if r.p(1, 30) { r.n(400) } else { r.n(8) }).map(|_| {
        let n = st(*r.pick(names));
        let x = match r.n(5) {
            0 => MetaData::StartNode(n), 1 => MetaData::EndNode(n), 2 => MetaData::Bool(n, r.b()),
            3 => { let v = fl(r); MetaData::F64(n, v) } _ => MetaData::String(n, st(*r.pick(&["x", "y", "", "xx", "X"]))),
        };
        o += 1 + r.n(3);
        Range::new(o, r.n(3)).wrap(x)
    }).collect();
    crate::note(|| shown(&d));
    let mut s = Search::new(&d);
    if s.range.is_some() || s.data.len() != d.len() { return Out::Fail(format!("{}  new: {:?}", shown(&d), s.range)); }
    let mut p = 0;
    let mut last: Option<Range> = None;
    for _ in 0..12 {
        let nm = *r.pick(names);
        let k = r.n(10);
        let at = d.get(p);
        let errat = at.map(|x| x.range()).unwrap_or(last.unwrap_or(Range::empty(0)));
        let fail = |m: String| Out::Fail(format!("{}  at {} last {:?} operation {} name {:?}\n  {}\n", shown(&d), p, last, k, nm, m));
        if k < 5 {
            let (hit, got): (Option<String>, Result<String, Range<ParseError>>) = match k {
                0 => (match at.map(|x| &x.data) { Some(MetaData::Bool(n, v)) if **n == nm => Some(format!("{:?}", v)), _ => None }, s.bool(nm).map(|v| format!("{:?}", v))),
                1 => (match at.map(|x| &x.data) { Some(MetaData::F64(n, v)) if **n == nm => Some(format!("{:?}", v.to_bits())), _ => None }, s.f64(nm).map(|v| format!("{:?}", v.to_bits()))),
                2 => (match at.map(|x| &x.data) { Some(MetaData::String(n, v)) if **n == nm => Some(format!("{:?}", v)), _ => None }, s.string(nm).map(|v| format!("{:?}", v))),
                3 => (match at.map(|x| &x.data) { Some(MetaData::StartNode(n)) if **n == nm => Some(format!("()")), _ => None }, s.node(nm).map(|v| format!("{:?}", v))),
                _ => (match at.map(|x| &x.data) { Some(MetaData::EndNode(n)) if **n == nm => Some(format!("()")), _ => None }, s.end_node(nm).map(|v| format!("{:?}", v))),
            };
            match (&hit, &got) {
                (Some(a), Ok(b)) if a == b => { last = at.map(|x| x.range()); p += 1; }
                (None, Err(e)) if e.range() == errat && matches!(e.data, ParseError::Conversion(_)) => {}
                _ => return fail(format!("got {:?}, expected {:?} or an error at {:?}", got, hit, errat)),
            }
            if s.range != last || s.data.len() != d.len() - p || (s.data.len() > 0 && s.data.as_ptr() != d[p..].as_ptr()) {
                return Out::Fail(format!("{}  after operation {} name {:?}: range {:?} remaining {}\n  expected {:?} {}\n", shown(&d), k, nm, s.range, s.data.len(), last, d.len() - p));
            }
        } else {
            let (bv, fv, sv) = (r.b(), fl(r), *r.pick(&["x", "y", "", "xx"]));
            let i = d[p..].iter().position(|x| match (&x.data, k) {
                (MetaData::Bool(n, v), 5) => **n == nm && *v == bv,
                (MetaData::F64(n, v), 6) => **n == nm && *v == fv,
                (MetaData::String(n, v), 7) => **n == nm && **v == sv,
                (MetaData::StartNode(n), 8) => **n == nm,
                (MetaData::EndNode(n), 9) => **n == nm,
                _ => false,
            }).map(|i| i + p);
            let ret_err = r.p(1, 4);
            let mut calls = 0;
            let got = {
                let s2 = Search { range: s.range, data: s.data };
                let s2: &Search = &s2;
                let f = |x: &Option<Range>, y: &[D]| { calls += 1; if ret_err { Err(Range::new(77, 7).wrap(ParseError::NoRules)) } else { Ok((*x, y.len(), y.as_ptr() as usize)) } };
                // `for_` methods borrow the search for as long as its data
                let s2: &'static Search<'static> = unsafe { std::mem::transmute(s2) };
                let mut f = f;
                match k {
                    5 => s2.for_bool(nm, bv, |x| f(&x.range, x.data)),
                    6 => s2.for_f64(nm, fv, |x| f(&x.range, x.data)),
                    7 => s2.for_string(nm, sv, |x| f(&x.range, x.data)),
                    8 => s2.for_node(nm, |x| f(&x.range, x.data)),
                    _ => s2.for_end_node(nm, |x| f(&x.range, x.data)),
                }
            };
            let end = last.unwrap_or(Range::empty(0));
            let ok = match (i, &got) {
                (None, Err(e)) => calls == 0 && e.range() == end && matches!(e.data, ParseError::Conversion(_)),
                (Some(_), Err(e)) => calls == 1 && ret_err && e.range() == Range::new(77, 7) && e.data == ParseError::NoRules,
                (Some(i), Ok((g, n, q))) => calls == 1 && !ret_err && *g == Some(d[i].range()) && *n == d.len() - i - 1 && (*n == 0 || *q == d[i + 1..].as_ptr() as usize),
                _ => false,
            };
            if !ok { return fail(format!("values {} {} {:?}: got {:?} after {} calls, first match is {:?}", bv, fv, sv, got.map(|x| (x.0, x.1)), calls, i)); }
            if let Some(i) = i { if r.p(1, 3) { p = i + 1; last = Some(d[i].range()); s = Search { range: last, data: &d[p..] }; } }
        }
    }
    Out::Pass
}

// ---- error reports -----------------------------------------------------------------------------
fn lines(t: &str) -> Vec<(usize, &str)> {
    let mut o = 0;
    t.split('\n').map(|l| { let x = (o, l); o += l.len() + 1; x }).collect()
}
fn body(t: &str, r: Range, out: &mut String) {
    let mut first = true;
    for (i, (o, l)) in lines(t).into_iter().enumerate() {
        let (a, b) = (r.offset, r.offset + r.length);
        if o + l.len() < a || o > b { continue; }
        let at = a.max(o) - o;
        let col = l.char_indices().filter(|&(i, _)| i < at).count();
        let s = if col > 75 { col - 50 } else { 0 };
        let e = (s + 100).min(l.len());
        *out += &format!("{},{}: {}\n", i + 1, col + 1, l.chars().skip(s).take(e - s).collect::<String>());
        if first {
            let pad: String = l.chars().skip(s).take(col - s).map(|c| if c == '\t' { '\t' } else { ' ' }).collect();
            *out += &format!("{},{}: {}^\n", i + 1, col + 1, pad);
            first = false;
        }
    }
}
/// errors and their messages
fn errors() -> Vec<(ParseError, &'static str)> {
    use ParseError::*;
    vec![
        (ExpectedTag(st("x"), 3), "#3, Expected: `x`"), (ExpectedTag(st(""), 1000), "#1000, Expected: ``"), (ExpectedTag(st("`é\n"), 3000), "#3000, Expected: ``é\n`"),
        (ExpectedNumber(4), "#4, Expected number"), (NoRules, "No rules are specified"), (Conversion("zz\nz".into()), "Conversion, zz\nz"),
        (DidNotExpectTag(st("é"), 9), "#9, Did not expect: `é`"), (DidNotExpectTag(st("="), 0), "#0, Did not expect: `=`"),
        (ExpectedWhitespace(0), "#0, Expected whitespace"), (ExpectedWhitespace(17), "#17, Expected whitespace"), (ExpectedNewLine(11), "#11, Expected new line"),
        (ExpectedSomething(2), "#2, Expected something"), (ExpectedText(99), "#99, Expected text"), (EmptyTextNotAllowed(100), "#100, Empty text not allowed"),
        (InvalidRule("node rule is not in tail", 23), "#23, Invalid rule: node rule is not in tail"), (ExpectedEnd, "Expected end"),
        (ParseNumberError(::read_token::ParseNumberError::ExpectedDigits, 5), "#5, Invalid number format: Expected digits"),
        (ParseNumberError(::read_token::ParseNumberError::Invalid, 6), "#6, Invalid number format: Expected valid number format, for example `20.3e-4`"),
        (ParseStringError(::read_token::ParseStringError::ExpectedHexadecimal, 7), "#7, Invalid string format: Expected hexadecimal 0-9A-F"),
        (ParseStringError(::read_token::ParseStringError::ExpectedFourHexadecimals, 8), "#8, Invalid string format: Expected four hexadecimals xxxx 0-9A-F"),
    ]
}
fn report_text(r: &mut Rng) -> String {
    let mut t = String::new();
    for i in 0..if r.p(1, 20) { 1 + r.n(120) } else { 1 + r.n(6) } {
        if i > 0 { t.push_str(if r.p(1, 8) { "\r\n" } else { "\n" }); }
        let long = r.p(1, 5);
        for _ in 0..if long { 60 + r.n(180) } else { r.n(7) } { t.push_str(*r.pick(&["a", " ", "é", "\t", "b", "€", "c", "𝄞"])); }
    }
    t
}
fn report_range(r: &mut Rng, t: &str) -> Range {
    let lim = t.len() + 3;
    let a = r.n(lim + 1);
    let l = match r.n(4) { 0 => 0, 1 => 1, 2 => r.n(5), _ => r.n(lim) };
    Range::new(a, l)
}
/// the expected report of error number `k`
fn report(t: &str, g: Range, k: usize) -> String {
    let mut out = format!("Error {}\n", errors()[k].1);
    if let ParseError::ExpectedTag(..) = errors()[k].0 {
        let ls = lines(&t);
        if let Some(f) = ls.iter().position(|(o, l)| o + l.len() >= g.offset && *o <= g.next_offset()) {
            let p = ls[..f].iter().rposition(|(_, l)| l.chars().any(|c| !c.is_whitespace())).unwrap_or(0);
            for (i, (_, l)) in ls[..f].iter().enumerate().skip(p) { out += &format!("{}: {}\n", i + 1, l); }
        }
    }
    body(&t, g, &mut out);
    out
}
fn report_case(r: &mut Rng) -> Out {
    if r.p(1, 2500) { return stderr_case(r.next()); }
    let t = report_text(r);
    let g = report_range(r, &t);
    let k = if r.p(1, 4) { 0 } else { r.n(errors().len()) };
    let mk = || errors().swap_remove(k).0;
    crate::note(|| format!("  text {:?}\n  range {:?} {:?}", t, g, mk()));
    let out = report(&t, g, k);
    let cut = r.n(out.len());
    if let Err(e) = sink(out.as_bytes(), cut, |w| ParseErrorHandler::new(&t).write(w, g.wrap(mk()))) { return Out::Fail(format!("  text {:?}\n  range {:?} {:?}\n{}", t, g, mk(), e)); }
    let msg = *r.pick(&["hello", "", "é\n"]);
    let mut out = format!("{}\n", msg);
    body(&t, g, &mut out);
    let cut = r.n(out.len());
    if let Err(e) = sink(out.as_bytes(), cut, |w| ParseErrorHandler::new(&t).write_msg(w, g, msg)) { return Out::Fail(format!("  text {:?}\n  range {:?} message {:?}\n{}", t, g, msg, e)); }
    Out::Pass
}
pub fn run(p: &str, r: &mut Rng) -> Out {
    match p { "C15" => json_case(r), "C16" => search_case(r), _ => report_case(r) }
}
