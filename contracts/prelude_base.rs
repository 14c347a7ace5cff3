// ---------------------------------------------------------------- text, byte lengths
pub open spec fn clen(c: char) -> int {
    if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 }
}
#[verifier::opaque]
pub open spec fn blen(s: Seq<char>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { clen(s[0]) + blen(s.skip(1)) }
}
/// byte offset n is a character boundary of s
#[verifier::opaque]
pub open spec fn boundary(s: Seq<char>, n: int) -> bool decreases s.len() {
    n == 0 || (s.len() > 0 && n >= clen(s[0]) && boundary(s.skip(1), n - clen(s[0])))
}
/// s without its first n bytes
#[verifier::opaque]
pub open spec fn bskip(s: Seq<char>, n: int) -> Seq<char> decreases s.len() {
    if n <= 0 || s.len() == 0 { s } else { bskip(s.skip(1), n - clen(s[0])) }
}
/// the first n bytes of s
#[verifier::opaque]
pub open spec fn btake(s: Seq<char>, n: int) -> Seq<char> decreases s.len() {
    if n <= 0 || s.len() == 0 { Seq::empty() } else { seq![s[0]] + btake(s.skip(1), n - clen(s[0])) }
}
pub broadcast proof fn lem_blen_nonneg(s: Seq<char>)
    ensures #[trigger] blen(s) >= 0
    decreases s.len()
{ reveal_with_fuel(blen, 2); reveal_with_fuel(boundary, 2); reveal_with_fuel(bskip, 2); reveal_with_fuel(btake, 2); if s.len() > 0 { lem_blen_nonneg(s.skip(1)); } }
pub broadcast proof fn lem_boundary(s: Seq<char>, n: int)
    requires #[trigger] boundary(s, n)
    ensures 0 <= n <= blen(s), blen(bskip(s, n)) == blen(s) - n, blen(btake(s, n)) == n
    decreases s.len()
{ reveal_with_fuel(blen, 2); reveal_with_fuel(boundary, 2); reveal_with_fuel(bskip, 2); reveal_with_fuel(btake, 2);
    lem_blen_nonneg(s);
    if n != 0 {
        lem_boundary(s.skip(1), n - clen(s[0]));
        let t = btake(s, n);
        assert(t.skip(1) =~= btake(s.skip(1), n - clen(s[0])));
    }
}
pub broadcast proof fn lem_boundary_add(s: Seq<char>, a: int, b: int)
    requires #[trigger] boundary(s, a), #[trigger] boundary(bskip(s, a), b)
    ensures boundary(s, a + b), bskip(bskip(s, a), b) == bskip(s, a + b)
    decreases s.len()
{ reveal_with_fuel(blen, 2); reveal_with_fuel(boundary, 2); reveal_with_fuel(bskip, 2); reveal_with_fuel(btake, 2);
    lem_boundary(s, a);
    lem_boundary(bskip(s, a), b);
    if a != 0 { lem_boundary_add(s.skip(1), a - clen(s[0]), b); }
}
pub broadcast proof fn lem_boundary_end(s: Seq<char>)
    ensures boundary(s, #[trigger] blen(s)), bskip(s, blen(s)).len() == 0
    decreases s.len()
{ reveal_with_fuel(blen, 2); reveal_with_fuel(boundary, 2); reveal_with_fuel(bskip, 2); reveal_with_fuel(btake, 2); lem_blen_nonneg(s); if s.len() > 0 { lem_boundary_end(s.skip(1)); lem_blen_nonneg(s.skip(1)); } }
pub proof fn lem_boundary_zero(s: Seq<char>) ensures boundary(s, 0), bskip(s, 0) == s { reveal_with_fuel(blen, 2); reveal_with_fuel(boundary, 2); reveal_with_fuel(bskip, 2); reveal_with_fuel(btake, 2); }
pub broadcast proof fn lem_skip_char(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures #![trigger blen(s.take(k))] boundary(s, blen(s.take(k))), bskip(s, blen(s.take(k))) == s.skip(k), btake(s, blen(s.take(k))) == s.take(k)
    decreases s.len()
{ reveal_with_fuel(blen, 2); reveal_with_fuel(boundary, 2); reveal_with_fuel(bskip, 2); reveal_with_fuel(btake, 2);
    if k > 0 {
        assert(s.take(k).skip(1) =~= s.skip(1).take(k - 1));
        assert(s.skip(1).skip(k - 1) =~= s.skip(k));
        lem_skip_char(s.skip(1), k - 1);
        lem_blen_nonneg(s.skip(1).take(k - 1));
        assert(seq![s[0]] + s.skip(1).take(k - 1) =~= s.take(k));
    } else { assert(s.take(0) =~= Seq::<char>::empty()); assert(s.skip(0) =~= s); }
}
pub proof fn lem_blen_add(a: Seq<char>, b: Seq<char>)
    ensures blen(a + b) == blen(a) + blen(b)
    decreases a.len()
{ reveal_with_fuel(blen, 2); reveal_with_fuel(boundary, 2); reveal_with_fuel(bskip, 2); reveal_with_fuel(btake, 2);
    if a.len() == 0 { assert(a + b =~= b); }
    else { assert((a + b).skip(1) =~= a.skip(1) + b); lem_blen_add(a.skip(1), b); }
}
pub broadcast group grp_text { lem_blen_nonneg, lem_boundary, lem_boundary_add }

/// the length of a `str` is its number of bytes
pub proof fn lem_str_len(s: Seq<char>)
    ensures vstd::utf8::encode_utf8(s).len() == blen(s)
    decreases s.len()
{
    reveal_with_fuel(blen, 2); reveal_with_fuel(vstd::utf8::encode_utf8, 2);
    if s.len() > 0 { lem_str_len(s.skip(1)); assert(s.drop_first() =~= s.skip(1)); }
}

// ---------------------------------------------------------------- helpers for rewritten std calls
/// `.clone()` of the extracted code; assumption: a clone is equal to the original.
pub trait VClone: Sized { fn vclone(&self) -> (r: Self) ensures r == *self; }
impl<T: Sized> VClone for T { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }

#[verifier::external_body]
pub fn vp_format() -> (r: String) { unimplemented!() }
#[verifier::external_body]
pub fn vp_panic() -> (r: ()) requires false { unimplemented!() }
pub fn vp_runtime_assert(b: bool) requires b {}
pub fn vp_skip(n: usize, len: usize) -> (r: usize) ensures r == if n <= len { n } else { len } { if n <= len { n } else { len } }
pub fn vp_take(lo: usize, n: usize, len: usize) -> (r: usize)
    requires lo <= len
    ensures r == if n <= len - lo { (lo + n) as usize } else { len }
{ if n <= len - lo { lo + n } else { len } }
#[verifier::external_body]
pub fn vp_chars(s: &str) -> (r: Vec<char>) ensures r@ == s@ { unimplemented!() }
/// u8 of the first byte of the UTF-8 encoding
pub open spec fn first_byte(c: char) -> u8 {
    let x = c as u32;
    if x < 0x80 { x as u8 } else if x < 0x800 { (0xC0 + x / 64) as u8 } else if x < 0x10000 { (0xE0 + x / 4096) as u8 } else { (0xF0 + x / 262144) as u8 }
}
#[verifier::external_body]
pub fn vp_encode_utf8<const N: usize>(c: char, buf: &mut [u8; N]) requires N >= 4 || clen(c) <= N ensures final(buf)@[0] == first_byte(c) { unimplemented!() }
pub trait VOrd: Sized { spec fn vle(a: Self, b: Self) -> bool; fn vle_exec(a: Self, b: Self) -> (r: bool) ensures r == Self::vle(a, b); }
impl VOrd for usize { open spec fn vle(a: usize, b: usize) -> bool { a <= b } fn vle_exec(a: usize, b: usize) -> (r: bool) { a <= b } }
impl VOrd for u32 { open spec fn vle(a: u32, b: u32) -> bool { a <= b } fn vle_exec(a: u32, b: u32) -> (r: bool) { a <= b } }
pub fn vp_min<T: VOrd + Copy>(a: T, b: T) -> (r: T) ensures r == if T::vle(a, b) { a } else { b } { if T::vle_exec(a, b) { a } else { b } }
pub fn vp_max<T: VOrd + Copy>(a: T, b: T) -> (r: T) ensures r == if T::vle(a, b) { b } else { a } { if T::vle_exec(a, b) { b } else { a } }

// ---------------------------------------------------------------- names and strings
pub open spec fn sv(a: Arc<String>) -> Seq<char> { (*a)@ }

// ---------------------------------------------------------------- equality of strings is equality of their characters (assumption on std)
pub axiom fn ax_eq()
    ensures
        <str as vstd::std_specs::cmp::PartialEqSpec<str>>::obeys_eq_spec(), forall|a: &str, b: &str| #[trigger] <str as vstd::std_specs::cmp::PartialEqSpec<str>>::eq_spec(a, b) == (a@ == b@),
        <str as vstd::std_specs::cmp::PartialEqSpec<String>>::obeys_eq_spec(), forall|a: &str, b: &String| #[trigger] <str as vstd::std_specs::cmp::PartialEqSpec<String>>::eq_spec(a, b) == (a@ == b@),
        <String as vstd::std_specs::cmp::PartialEqSpec<str>>::obeys_eq_spec(), forall|a: &String, b: &str| #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<str>>::eq_spec(a, b) == (a@ == b@),
        <String as vstd::std_specs::cmp::PartialEqSpec<String>>::obeys_eq_spec(), forall|a: &String, b: &String| #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<String>>::eq_spec(a, b) == (a@ == b@),
        <Arc<String> as vstd::std_specs::cmp::PartialEqSpec<Arc<String>>>::obeys_eq_spec(), forall|a: &Arc<String>, b: &Arc<String>| #[trigger] <Arc<String> as vstd::std_specs::cmp::PartialEqSpec<Arc<String>>>::eq_spec(a, b) == (sv(*a) == sv(*b));
pub assume_specification<T>[ std::mem::replace ](dest: &mut T, src: T) -> (r: T)
    ensures *final(dest) == src, r == *old(dest);
pub assume_specification<T: std::default::Default>[ std::mem::take ](dest: &mut T) -> (r: T)
    ensures r == *old(dest);
pub assume_specification<T>[ Option::<T>::or ](a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == if a is Some { a } else { b };
pub assume_specification<T>[ <[T]>::swap ](v: &mut [T], a: usize, b: usize)
    requires a < old(v)@.len(), b < old(v)@.len(),
    ensures final(v)@ == old(v)@.update(a as int, old(v)@[b as int]).update(b as int, old(v)@[a as int]);
pub assume_specification<T>[ <[T]>::reverse ](v: &mut [T])
    ensures final(v)@ == old(v)@.reverse();
