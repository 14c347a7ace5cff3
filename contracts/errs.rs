// ---------------------------------------------------------------- errors as text
/// characters encoded in bytes
pub uninterp spec fn utf8(v: Seq<u8>) -> Option<Seq<char>>;
pub axiom fn ax_utf8_empty() ensures utf8(Seq::empty()) == Some(Seq::<char>::empty());
pub open spec fn bad_utf8() -> VIoError { VIoError { id: int_t { x: 0 } } }
/// bytes in memory as a writer: writing text never fails and appends its encoding (assumed contracts)
impl VWrite for Vec<u8> {
    open spec fn out(&self) -> Seq<char> { match utf8(self@) { Some(t) => t, None => arbitrary() } }
    open spec fn failed(&self) -> Option<VIoError> { if utf8(self@) is Some { None } else { Some(bad_utf8()) } }
    open spec fn can_fail() -> bool { false }
    #[verifier::external_body]
    fn w_char(&mut self, c: char) -> (r: Result<(), VIoError>) { unimplemented!() }
    #[verifier::external_body]
    fn w_lit(&mut self, t: &str) -> (r: Result<(), VIoError>) { unimplemented!() }
    #[verifier::external_body]
    fn w_disp<T: VDisp + ?Sized>(&mut self, t: &T) -> (r: Result<(), VIoError>) { unimplemented!() }
    #[verifier::external_body]
    fn w_fmt<T: VFmt>(&mut self, f: &str, t: &T) -> (r: Result<(), VIoError>) { unimplemented!() }
}
/// `String::from_utf8`
#[verifier::external_body]
pub fn vp_from_utf8(v: Vec<u8>) -> (r: Result<String, VIoError>) ensures r is Ok <==> utf8(v@) is Some, r matches Ok(s) ==> Some(s@) == utf8(v@) { unimplemented!() }
/// t is the report of the error e in the text
#[verifier::opaque]
pub open spec fn err_report(t: Seq<char>, e: Range<ParseError>, text: Seq<char>) -> bool {
    exists|l: Seq<(Range<()>, &str)>| #[trigger] table(l, text) && rep_of(Seq::empty(), t, e, l)
}
pub broadcast proof fn lem_reported(o0: Seq<char>, t: Seq<char>, e: Range<ParseError>, l: Seq<(Range<()>, &str)>, text: Seq<char>)
    requires #[trigger] table(l, text), #[trigger] rep_of(o0, t, e, l), o0 == Seq::<char>::empty()
    ensures end_of(e) <= blen(text) ==> reported(t, text)
{ reveal(err_report); reveal(reported); assert(err_report(t, e, text)); }
/// t is the report of an error inside the text
#[verifier::opaque]
pub open spec fn reported(t: Seq<char>, text: Seq<char>) -> bool { exists|e: Range<ParseError>| end_of(e) <= blen(text) && #[trigger] err_report(t, e, text) }
pub open spec fn ok_or_reported<T>(r: Result<T, String>, text: Seq<char>) -> bool { match r { Ok(_) => true, Err(t) => reported(t@, text) } }
