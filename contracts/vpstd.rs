// ---------------------------------------------------------------- functions of the standard library on text (assumed contracts)
/// `str::char_indices`
#[verifier::external_body]
pub fn vp_char_indices(s: &str) -> (r: Vec<(usize, char)>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == blen(s@.take(i)) && r@[i].1 == s@[i]
{ unimplemented!() }
/// `char::is_whitespace`
#[verifier::external_body]
pub fn vp_is_ws(c: char) -> (r: bool) ensures r == is_ws(c) { unimplemented!() }
/// `char::is_digit(10)`
#[verifier::external_body]
pub fn vp_is_digit(c: char) -> (r: bool) ensures r == ('0' <= c && c <= '9') { unimplemented!() }
/// `char::to_digit(16)`
#[verifier::external_body]
pub fn vp_to_digit16(c: char) -> (r: Option<u32>) ensures match r { Some(x) => hexv(c) == Some(x as int), None => hexv(c) is None } { unimplemented!() }
/// `char::from_u32`
#[verifier::external_body]
pub fn vp_char_from_u32(n: u32) -> (r: Option<char>) ensures r == if scalar(n as int) { Some(n as char) } else { None } { unimplemented!() }
/// `str::starts_with`
#[verifier::external_body]
pub fn vp_starts_with(s: &str, t: &str) -> (r: bool) ensures r == starts_with(s@, t@) { unimplemented!() }
/// slices of a text: on character boundaries only
#[verifier::external_body]
pub fn vp_str_from<'a>(s: &'a str, n: usize) -> (r: &'a str) requires boundary(s@, n as int) ensures r@ == bskip(s@, n as int) { unimplemented!() }
#[verifier::external_body]
pub fn vp_str_to<'a>(s: &'a str, n: usize) -> (r: &'a str) requires boundary(s@, n as int) ensures r@ == btake(s@, n as int) { unimplemented!() }
#[verifier::external_body]
pub fn vp_str_mid<'a>(s: &'a str, a: usize, b: usize) -> (r: &'a str) requires a <= b, boundary(s@, a as int), boundary(s@, b as int) ensures r@ == btake(bskip(s@, a as int), b - a) { unimplemented!() }
/// `str::into::<String>`
#[verifier::external_body]
pub fn vp_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
/// `String::with_capacity`
#[verifier::external_body]
pub fn vp_string_cap(n: usize) -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
/// an iterator over the characters of a text
pub struct VpCI { pub v: Vec<(usize, char)>, pub i: usize }
impl VpCI {
    pub fn vp_new(s: &str) -> (r: VpCI)
        ensures r.i == 0, r.v@.len() == s@.len(), forall|i: int| 0 <= i < r.v@.len() ==> (#[trigger] r.v@[i]).0 == blen(s@.take(i)) && r.v@[i].1 == s@[i]
    { VpCI { v: vp_char_indices(s), i: 0 } }
    pub fn next(&mut self) -> (r: Option<(usize, char)>)
        requires old(self).i <= old(self).v@.len()
        ensures final(self).v == old(self).v, match r { Some(x) => old(self).i < old(self).v@.len() && final(self).i == old(self).i + 1 && x == old(self).v@[old(self).i as int],
            None => old(self).i == old(self).v@.len() && *final(self) == *old(self) }
    { if self.i < self.v.len() { let x = self.v[self.i]; self.i = self.i + 1; Some(x) } else { None } }
}
/// `str::starts_with` with a character
#[verifier::external_body]
pub fn vp_starts_with_char(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { unimplemented!() }
pub assume_specification[ String::len ](s: &String) -> (r: usize)
    ensures r == blen(s@);
