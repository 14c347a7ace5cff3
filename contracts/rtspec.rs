// ---------------------------------------------------------------- what the functions of the dependency read_token 1.0.0 read
/// `char::is_whitespace` (standard library)
pub uninterp spec fn is_ws(c: char) -> bool;
/// bytes of leading white space
#[verifier::opaque]
pub open spec fn ws_len(s: Seq<char>) -> int decreases s.len() {
    if s.len() == 0 || !is_ws(s[0]) { 0 } else { clen(s[0]) + ws_len(s.skip(1)) }
}
/// bytes up to the first character of `any`
#[verifier::opaque]
pub open spec fn until_len(s: Seq<char>, any: Seq<char>) -> int decreases s.len() {
    if s.len() == 0 || any.contains(s[0]) { 0 } else { clen(s[0]) + until_len(s.skip(1), any) }
}
#[verifier::opaque]
pub open spec fn until_ws_len(s: Seq<char>, any: Seq<char>) -> int decreases s.len() {
    if s.len() == 0 || is_ws(s[0]) || any.contains(s[0]) { 0 } else { clen(s[0]) + until_ws_len(s.skip(1), any) }
}
#[verifier::opaque]
pub open spec fn starts_with(s: Seq<char>, t: Seq<char>) -> bool { t.len() <= s.len() && s.take(t.len() as int) == t }
/// bytes up to and including the first quotation mark that is not escaped
#[verifier::opaque]
pub open spec fn str_end(s: Seq<char>, esc: bool) -> Option<int> decreases s.len() {
    if s.len() == 0 { None }
    else if !esc && s[0] == '"' { Some(1) }
    else { match str_end(s.skip(1), !esc && s[0] == '\\') { Some(k) => Some(clen(s[0]) + k), None => None } }
}
/// bytes of the string literal at the start of the text
#[verifier::opaque]
pub open spec fn str_len(s: Seq<char>) -> Option<int> {
    if s.len() > 0 && s[0] == '"' { match str_end(s.skip(1), false) { Some(k) => Some(1 + k), None => None } } else { None }
}
pub broadcast proof fn lem_str_quote(s: Seq<char>)
    ensures #[trigger] str_len(s) is Some ==> s.len() > 0 && s[0] == '"'
{ reveal(str_len); }
/// value of a hexadecimal digit
pub open spec fn hexv(c: char) -> Option<int> {
    if '0' <= c && c <= '9' { Some(c as int - '0' as int) } else if 'a' <= c && c <= 'f' { Some(c as int - 'a' as int + 10) } else if 'A' <= c && c <= 'F' { Some(c as int - 'A' as int + 10) } else { None }
}
pub open spec fn perr(k: int, n: int, e: ParseStringError) -> Result<Seq<char>, (int, int, ParseStringError)> { Err((k, n, e)) }
/// the first digit that is missing or not hexadecimal, none if there are four
pub open spec fn hex_bad(s: Seq<char>, i: int) -> int decreases 4 - i { if i >= 4 || i >= s.len() || hexv(s[i]) is None { i } else { hex_bad(s, i + 1) } }
pub open spec fn scalar(n: int) -> bool { 0 <= n < 0xD800 || 0xE000 <= n < 0x110000 }
/// the character written as four hexadecimal digits at byte k, or the error and its range
#[verifier::opaque]
pub open spec fn uni(s: Seq<char>, k: int) -> Result<char, (int, int, ParseStringError)> {
    let b = hex_bad(s, 0);
    if b < 4 { if b < s.len() { Err((k + b, 1, ParseStringError::ExpectedHexadecimal)) } else { Err((k, blen(s), ParseStringError::ExpectedFourHexadecimals)) } }
    else {
        let n = hexv(s[0]).unwrap() * 4096 + hexv(s[1]).unwrap() * 256 + hexv(s[2]).unwrap() * 16 + hexv(s[3]).unwrap();
        if scalar(n) { Ok(n as u32 as char) } else { Err((k, 3, ParseStringError::ExpectedValidUnicode)) }
    }
}
pub open spec fn esc_char(c: char) -> Option<char> {
    if c == '"' { Some('"') } else if c == '\\' { Some('\\') } else if c == '/' { Some('/') } else if c == 'b' { Some('\u{8}') } else if c == 'f' { Some('\u{c}') }
    else if c == 'n' { Some('\n') } else if c == 'r' { Some('\r') } else if c == 't' { Some('\t') } else { None }
}
pub open spec fn prep(t: Seq<char>, r: Result<Seq<char>, (int, int, ParseStringError)>) -> Result<Seq<char>, (int, int, ParseStringError)> { match r { Ok(x) => Ok(t + x), Err(e) => Err(e) } }
/// characters of the literal from byte k (after `esc` if set) up to byte `end`, s is the rest of the text from there
#[verifier::opaque]
pub open spec fn str_dec(s: Seq<char>, k: int, end: int, esc: bool, skip: int) -> Result<Seq<char>, (int, int, ParseStringError)> decreases s.len() {
    if s.len() == 0 || k >= end { Ok(Seq::empty()) }
    else {
        let c = s[0];
        let (s1, k1) = (s.skip(1), k + clen(c));
        if skip > 0 { str_dec(s1, k1, end, esc, skip - 1) }
        else if !esc && c == '\\' { str_dec(s1, k1, end, true, 0) }
        else if !esc { prep(seq![c], str_dec(s1, k1, end, false, 0)) }
        else if c == 'u' { match uni(s1, k1) { Ok(x) => prep(seq![x], str_dec(s1, k1, end, false, 4)), Err(e) => Err(e) } }
        else { match esc_char(c) { Some(x) => prep(seq![x], str_dec(s1, k1, end, false, 0)), None => Err((k, 1, ParseStringError::ExpectedValidEscapeCharacter)) } }
    }
}
/// value of the literal of n bytes at the start, or the error and its range from there
#[verifier::opaque]
pub open spec fn str_val(s: Seq<char>, n: int) -> Result<Seq<char>, (int, int, ParseStringError)> { str_dec(s.skip(1), 1, n - 1, false, 0) }

/// reading a number: what has been seen so far
pub ghost struct NumSt { pub sign: bool, pub dec: bool, pub sci: bool, pub exp: bool, pub digit: bool }
pub open spec fn num_step(t: NumSt, c: char, first: bool, us: bool) -> Option<NumSt> {
    let a = NumSt { sign: true, ..t };
    let e = NumSt { exp: true, ..a };
    if !t.sign && (c == '+' || c == '-') { Some(a) }
    else if '0' <= c && c <= '9' { Some(NumSt { digit: true, ..a }) }
    else if a.digit && us && c == '_' { Some(a) }
    else if !a.dec && c == '.' { Some(NumSt { dec: true, ..a }) }
    else if !a.sci && (c == 'e' || c == 'E') && !first { Some(NumSt { sci: true, ..a }) }
    else if a.sci && !a.exp && (c == '+' || c == '-') { Some(e) }
    else { None }
}
#[verifier::opaque]
pub open spec fn num_run(s: Seq<char>, first: bool, t: NumSt, us: bool) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { match num_step(t, s[0], first, us) { Some(t2) => clen(s[0]) + num_run(s.skip(1), false, t2, us), None => 0 } }
}
/// bytes of the number at the start of the text
#[verifier::opaque]
pub open spec fn num_len(s: Seq<char>, us: bool) -> Option<int> {
    let n = num_run(s, true, NumSt { sign: false, dec: false, sci: false, exp: false, digit: false }, us);
    if n > 0 { Some(n) } else { None }
}
/// value of the number literal of n bytes (assumed: the arithmetic of floating point numbers)
pub uninterp spec fn num_val(s: Seq<char>, underscore: bool, n: int) -> Result<f64, ParseNumberError>;

/// text + position are representable (a &str never exceeds isize::MAX bytes)
pub open spec fn rt_ok(r: ReadToken) -> bool { r.offset + blen(r.src@) <= isize::MAX }
