// ---------------------------------------------------------------- writers (std::io::Write and the formatting of values; assumed contracts)
/// an error of the writer
pub struct VIoError { pub id: int_t }
pub struct int_t { pub x: u64 }
#[verifier::external]
impl std::fmt::Debug for VIoError { fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
pub uninterp spec fn num_text(v: f64) -> Seq<char>;
/// message of an error: the debug id of what failed and what was expected
pub open spec fn err_text(e: ParseError) -> Seq<char> {
    match e {
        ParseError::ExpectedWhitespace(d) => idm(d) + ", Expected whitespace"@,
        ParseError::ExpectedNewLine(d) => idm(d) + ", Expected new line"@,
        ParseError::ExpectedSomething(d) => idm(d) + ", Expected something"@,
        ParseError::ExpectedNumber(d) => idm(d) + ", Expected number"@,
        ParseError::ParseNumberError(x, d) => idm(d) + ", Invalid number format: "@ + num_err_text(x),
        ParseError::ExpectedTag(t, d) => idm(d) + ", Expected: `"@ + sv(t) + seq!['`'],
        ParseError::DidNotExpectTag(t, d) => idm(d) + ", Did not expect: `"@ + sv(t) + seq!['`'],
        ParseError::ExpectedText(d) => idm(d) + ", Expected text"@,
        ParseError::EmptyTextNotAllowed(d) => idm(d) + ", Empty text not allowed"@,
        ParseError::ParseStringError(x, d) => idm(d) + ", Invalid string format: "@ + str_err_text(x),
        ParseError::InvalidRule(m, d) => idm(d) + ", Invalid rule: "@ + m@,
        ParseError::NoRules => "No rules are specified"@,
        ParseError::ExpectedEnd => "Expected end"@,
        ParseError::Conversion(m) => "Conversion, "@ + m@,
    }
}
/// debug id in front of a message
pub open spec fn idm(d: usize) -> Seq<char> { seq!['#'] + dec(d as int) }
pub open spec fn num_err_text(e: ParseNumberError) -> Seq<char> {
    match e {
        ParseNumberError::ExpectedDigits => "Expected digits"@,
        ParseNumberError::Invalid => "Expected valid number format, for example `20.3e-4`"@,
        ParseNumberError::OverflowInfinity => "Number overflowed toward positive infinity"@,
        ParseNumberError::OverflowNegInfinity => "Number overflowed toward negative infinity"@,
    }
}
pub open spec fn str_err_text(e: ParseStringError) -> Seq<char> {
    match e {
        ParseStringError::ExpectedFourHexadecimals => "Expected four hexadecimals xxxx 0-9A-F"@,
        ParseStringError::ExpectedHexadecimal => "Expected hexadecimal 0-9A-F"@,
        ParseStringError::ExpectedValidUnicode => "Expected valid unicode"@,
        ParseStringError::ExpectedValidEscapeCharacter => "Expected valid escape character '\"\\/bfnrtu'"@,
    }
}
/// decimal digits of a number
#[verifier::opaque]
pub open spec fn dec(n: int) -> Seq<char> decreases n {
    if n < 10 { seq![('0' as u32 + n) as u8 as char] } else { dec(n / 10).push(('0' as u32 + n % 10) as u8 as char) }
}
pub open spec fn hexd(n: int) -> char { if n < 10 { ('0' as u32 + n) as u8 as char } else { ('a' as u32 + n - 10) as u8 as char } }
/// four lower case hexadecimal digits
pub open spec fn hex4(n: int) -> Seq<char> { seq![hexd(n / 4096 % 16), hexd(n / 256 % 16), hexd(n / 16 % 16), hexd(n % 16)] }
pub trait VDisp { spec fn disp(&self) -> Seq<char>; }
impl VDisp for char { open spec fn disp(&self) -> Seq<char> { seq![*self] } }
impl VDisp for str { open spec fn disp(&self) -> Seq<char> { self@ } }
impl VDisp for String { open spec fn disp(&self) -> Seq<char> { self@ } }
impl VDisp for Arc<String> { open spec fn disp(&self) -> Seq<char> { sv(*self) } }
impl VDisp for usize { open spec fn disp(&self) -> Seq<char> { dec(*self as int) } }
impl VDisp for u32 { open spec fn disp(&self) -> Seq<char> { dec(*self as int) } }
impl VDisp for bool { open spec fn disp(&self) -> Seq<char> { if *self { seq!['t', 'r', 'u', 'e'] } else { seq!['f', 'a', 'l', 's', 'e'] } } }
impl VDisp for f64 { open spec fn disp(&self) -> Seq<char> { num_text(*self) } }
impl VDisp for ParseError { open spec fn disp(&self) -> Seq<char> { err_text(*self) } }
impl VDisp for ParseNumberError { open spec fn disp(&self) -> Seq<char> { num_err_text(*self) } }
impl VDisp for ParseStringError { open spec fn disp(&self) -> Seq<char> { str_err_text(*self) } }
impl<T: VDisp + ?Sized> VDisp for &T { open spec fn disp(&self) -> Seq<char> { (**self).disp() } }
/// value formatted with a format specification
pub trait VFmt { spec fn fmts(&self, spec_: Seq<char>) -> Seq<char>; }
impl VFmt for u32 { open spec fn fmts(&self, spec_: Seq<char>) -> Seq<char> { if spec_ == seq!['0', '4', 'x'] && *self < 65536 { hex4(*self as int) } else { vfmt_any(spec_, *self as int) } } }
pub uninterp spec fn vfmt_any(spec_: Seq<char>, n: int) -> Seq<char>;

/// what a write does: text is appended, or the writer fails with the error that is returned
pub open spec fn wrote(o0: Seq<char>, f0: Option<VIoError>, o1: Seq<char>, f1: Option<VIoError>, t: Seq<char>, r: Result<(), VIoError>) -> bool {
    match r { Ok(_) => o1 == o0 + t && f1 == f0, Err(e) => f1 == Some(e) }
}
pub trait VWrite: Sized {
    /// the characters written so far
    spec fn out(&self) -> Seq<char>;
    /// the last failure of the writer
    spec fn failed(&self) -> Option<VIoError>;
    /// whether writes of this kind of writer ever fail
    spec fn can_fail() -> bool;
    fn w_char(&mut self, c: char) -> (r: Result<(), VIoError>) ensures wrote(old(self).out(), old(self).failed(), final(self).out(), final(self).failed(), seq![c], r), r is Err ==> Self::can_fail();
    fn w_lit(&mut self, t: &str) -> (r: Result<(), VIoError>) ensures wrote(old(self).out(), old(self).failed(), final(self).out(), final(self).failed(), t@, r), r is Err ==> Self::can_fail();
    fn w_disp<T: VDisp + ?Sized>(&mut self, t: &T) -> (r: Result<(), VIoError>) ensures wrote(old(self).out(), old(self).failed(), final(self).out(), final(self).failed(), t.disp(), r), r is Err ==> Self::can_fail();
    fn w_fmt<T: VFmt>(&mut self, f: &str, t: &T) -> (r: Result<(), VIoError>) ensures wrote(old(self).out(), old(self).failed(), final(self).out(), final(self).failed(), t.fmts(f@), r), r is Err ==> Self::can_fail();
}
/// whether a write to such a writer ever fails
pub open spec fn cf<W: VWrite>(w: W) -> bool { W::can_fail() }

/// `std::fmt::Formatter`: a writer
#[verifier::external_body]
pub struct VFormatter { x: Vec<u8> }
pub uninterp spec fn fmt_out(f: VFormatter) -> Seq<char>;
pub uninterp spec fn fmt_failed(f: VFormatter) -> Option<VIoError>;
impl VWrite for VFormatter {
    open spec fn out(&self) -> Seq<char> { fmt_out(*self) }
    open spec fn failed(&self) -> Option<VIoError> { fmt_failed(*self) }
    open spec fn can_fail() -> bool { true }
    #[verifier::external_body]
    fn w_char(&mut self, c: char) -> (r: Result<(), VIoError>) { unimplemented!() }
    #[verifier::external_body]
    fn w_lit(&mut self, t: &str) -> (r: Result<(), VIoError>) { unimplemented!() }
    #[verifier::external_body]
    fn w_disp<T: VDisp + ?Sized>(&mut self, t: &T) -> (r: Result<(), VIoError>) { unimplemented!() }
    #[verifier::external_body]
    fn w_fmt<T: VFmt>(&mut self, f: &str, t: &T) -> (r: Result<(), VIoError>) { unimplemented!() }
}
impl VFormatter {
    #[verifier::external_body]
    pub fn write_str(&mut self, t: &str) -> (r: Result<(), VIoError>) ensures wrote(fmt_out(*old(self)), fmt_failed(*old(self)), fmt_out(*final(self)), fmt_failed(*final(self)), t@, r) { unimplemented!() }
    #[verifier::external_body]
    pub fn write_char(&mut self, c: char) -> (r: Result<(), VIoError>) ensures wrote(fmt_out(*old(self)), fmt_failed(*old(self)), fmt_out(*final(self)), fmt_failed(*final(self)), seq![c], r) { unimplemented!() }
}
