// ---------------------------------------------------------------- JSON strings (RFC 8259)
pub open spec fn hexval(c: char) -> Option<int> {
    if '0' <= c && c <= '9' { Some(c as u32 - '0' as u32) } else if 'a' <= c && c <= 'f' { Some(c as u32 - 'a' as u32 + 10) }
    else if 'A' <= c && c <= 'F' { Some(c as u32 - 'A' as u32 + 10) } else { None }
}
/// the code unit after `\u`
pub open spec fn unit(s: Seq<char>) -> Option<int> {
    if s.len() >= 4 && hexval(s[0]) is Some && hexval(s[1]) is Some && hexval(s[2]) is Some && hexval(s[3]) is Some {
        Some(hexval(s[0]).unwrap() * 4096 + hexval(s[1]).unwrap() * 256 + hexval(s[2]).unwrap() * 16 + hexval(s[3]).unwrap())
    } else { None }
}
/// first character of a JSON string body: the character meant and how many characters it takes; None: not allowed there
pub open spec fn jstep(s: Seq<char>) -> Option<(char, int)> {
    if s.len() == 0 || s[0] == '"' || (s[0] as u32) < 0x20 { None }
    else if s[0] != '\\' { Some((s[0], 1)) }
    else if s.len() < 2 { None }
    else if s[1] == '"' || s[1] == '\\' || s[1] == '/' { Some((s[1], 2)) }
    else if s[1] == 'b' { Some((8u8 as char, 2)) }
    else if s[1] == 'f' { Some((12u8 as char, 2)) }
    else if s[1] == 'n' { Some((10u8 as char, 2)) }
    else if s[1] == 'r' { Some((13u8 as char, 2)) }
    else if s[1] == 't' { Some((9u8 as char, 2)) }
    else if s[1] == 'u' {
        match unit(s.skip(2)) {
            Some(v) => if 0 <= v < 0xD800 || 0xE000 <= v < 0x10000 { Some((v as u32 as char, 6)) } else if v < 0xDC00 && s.len() >= 12 && s[6] == '\\' && s[7] == 'u' {
                match unit(s.skip(8)) { Some(x) => if 0xDC00 <= x < 0xE000 { Some((((v - 0xD800) * 1024 + (x - 0xDC00) + 0x10000) as u32 as char, 12)) } else { None }, None => None }
            } else { None },
            None => None,
        }
    }
    else { None }
}
/// body and end of a JSON string: the characters meant; None: not well formed
#[verifier::opaque]
pub open spec fn jdec(s: Seq<char>) -> Option<Seq<char>> decreases s.len() {
    if s.len() == 1 && s[0] == '"' { Some(Seq::empty()) } else {
        match jstep(s) {
            Some((c, n)) => if 0 < n <= s.len() { match jdec(s.skip(n)) { Some(x) => Some(seq![c] + x), None => None } } else { None },
            None => None,
        }
    }
}
/// e is a JSON string that means v
#[verifier::opaque]
pub open spec fn jstr(e: Seq<char>, v: Seq<char>) -> bool { e.len() > 0 && e[0] == '"' && jdec(e.skip(1)) == Some(v) }
/// whatever follows b, b means v
#[verifier::opaque]
pub open spec fn jbody(b: Seq<char>, v: Seq<char>) -> bool {
    forall|t: Seq<char>| #![trigger b + t] jdec(t) is Some ==> jdec(b + t) == Some(v + jdec(t).unwrap())
}
pub proof fn lem_jbody0() ensures jbody(Seq::empty(), Seq::empty()) {
    reveal(jbody);
    assert forall|t: Seq<char>| #![trigger Seq::<char>::empty() + t] jdec(t) is Some implies jdec(Seq::<char>::empty() + t) == Some(Seq::<char>::empty() + jdec(t).unwrap()) by {
        assert(Seq::<char>::empty() + t =~= t); assert(Seq::<char>::empty() + jdec(t).unwrap() =~= jdec(t).unwrap());
    }
}
/// e means the character c
pub open spec fn jchar(e: Seq<char>, c: char) -> bool { e.len() > 0 && forall|t: Seq<char>| #![trigger e + t] jstep(e + t) == Some((c, e.len() as int)) }
pub proof fn lem_jbody1(b: Seq<char>, v: Seq<char>, e: Seq<char>, c: char)
    requires jbody(b, v), jchar(e, c)
    ensures jbody(b + e, v.push(c))
{
    reveal(jbody);
    assert forall|t: Seq<char>| #![trigger (b + e) + t] jdec(t) is Some implies jdec((b + e) + t) == Some(v.push(c) + jdec(t).unwrap()) by {
        let u = e + t;
        assert((b + e) + t =~= b + u);
        assert(jstep(u) == Some((c, e.len() as int)));
        assert(u.skip(e.len() as int) =~= t);
        assert(jdec(u) == Some(seq![c] + jdec(t).unwrap())) by { reveal_with_fuel(jdec, 2); }
        assert(v + (seq![c] + jdec(t).unwrap()) =~= v.push(c) + jdec(t).unwrap());
    }
}
pub proof fn lem_jstr(b: Seq<char>, v: Seq<char>, e: Seq<char>)
    requires jbody(b, v), e == seq!['"'] + b + seq!['"']
    ensures jstr(e, v)
{
    reveal(jbody); reveal(jstr);
    assert(e.skip(1) =~= b + seq!['"']);
    assert(jdec(seq!['"']) == Some(Seq::<char>::empty())) by { reveal_with_fuel(jdec, 2); }
    assert(v + Seq::<char>::empty() =~= v);
}
// ---------------------------------------------------------------- the text of a well nested list of meta data
pub type MD = Range<MetaData>;
pub open spec fn is_st(m: MetaData) -> bool { m is StartNode }
pub open spec fn is_en(m: MetaData) -> bool { m is EndNode }
/// start and end items among the first i
pub open spec fn n_st(d: Seq<MD>, i: int) -> int decreases i { if i <= 0 { 0 } else { n_st(d, i - 1) + if is_st(d[i - 1].data) { 1int } else { 0 } } }
pub open spec fn n_en(d: Seq<MD>, i: int) -> int decreases i { if i <= 0 { 0 } else { n_en(d, i - 1) + if is_en(d[i - 1].data) { 1int } else { 0 } } }
/// nodes open after the first i items
pub open spec fn lev(d: Seq<MD>, i: int) -> int { n_st(d, i) - n_en(d, i) }
/// well nested, at most 2^32 - 1 levels
pub open spec fn nested(d: Seq<MD>) -> bool { lev(d, d.len() as int) == 0 && forall|i: int| 0 <= i <= d.len() ==> 0 <= #[trigger] lev(d, i) <= u32::MAX }
pub open spec fn spaces(n: int) -> Seq<char> { Seq::new(n as nat, |i: int| ' ') }
/// between siblings a comma; every item on its own line
pub open spec fn sep(d: Seq<MD>, i: int) -> Seq<char> {
    if i == 0 { Seq::empty() } else if is_en(d[i].data) || is_st(d[i - 1].data) { seq!['\n'] } else { seq![',', '\n'] }
}
pub open spec fn level(d: Seq<MD>, i: int) -> int { if is_en(d[i].data) { lev(d, i) - 1 } else { lev(d, i) } }
/// the text of one item
#[verifier::opaque]
pub open spec fn jitem(e: Seq<char>, m: MetaData) -> bool {
    match m {
        MetaData::StartNode(n) => exists|k: Seq<char>| #[trigger] jstr(k, sv(n)) && e =~= k + seq![':', '{'],
        MetaData::EndNode(_) => e =~= seq!['}'],
        MetaData::Bool(n, v) => exists|k: Seq<char>| #[trigger] jstr(k, sv(n)) && e =~= k + seq![':'] + v.disp(),
        MetaData::F64(n, v) => exists|k: Seq<char>| #[trigger] jstr(k, sv(n)) && e =~= k + seq![':'] + v.disp(),
        MetaData::String(n, v) => exists|k: Seq<char>, x: Seq<char>| #[trigger] jstr(k, sv(n)) && #[trigger] jstr(x, sv(v)) && e =~= k + seq![':'] + x,
    }
}
pub open spec fn pe(p: Seq<char>, e: Seq<char>) -> bool { true }
/// o is the text of the first i items
#[verifier::opaque]
pub open spec fn jdoc(o: Seq<char>, d: Seq<MD>, i: int) -> bool decreases i {
    if i <= 0 { o.len() == 0 } else {
        exists|p: Seq<char>, e: Seq<char>| #[trigger] pe(p, e) && jdoc(p, d, i - 1) && jitem(e, d[i - 1].data) && o =~= p + sep(d, i - 1) + spaces(level(d, i - 1)) + e
    }
}
pub proof fn lem_jdoc0(d: Seq<MD>) ensures jdoc(Seq::empty(), d, 0) { reveal_with_fuel(jdoc, 2); }
pub proof fn lem_jdoc1(p: Seq<char>, e: Seq<char>, o: Seq<char>, d: Seq<MD>, i: int)
    requires i >= 0, jdoc(p, d, i), jitem(e, d[i].data), o =~= p + sep(d, i) + spaces(level(d, i)) + e
    ensures jdoc(o, d, i + 1)
{
    reveal(jdoc);
    let j = i + 1;
    assert(j - 1 == i);
    assert(jdoc(p, d, j - 1) && pe(p, e));
    assert(jdoc(o, d, j));
}
/// the text of the item follows a
pub open spec fn wrote_item(a: Seq<char>, o: Seq<char>, m: MetaData) -> bool {
    match m {
        MetaData::StartNode(n) => exists|k: Seq<char>| #[trigger] jstr(k, sv(n)) && o =~= a + k + seq![':'] + seq!['{'],
        MetaData::EndNode(_) => o =~= a + seq!['}'],
        MetaData::Bool(n, v) => exists|k: Seq<char>| #[trigger] jstr(k, sv(n)) && o =~= a + k + seq![':'] + v.disp(),
        MetaData::F64(n, v) => exists|k: Seq<char>| #[trigger] jstr(k, sv(n)) && o =~= a + k + seq![':'] + v.disp(),
        MetaData::String(n, v) => exists|k: Seq<char>, x: Seq<char>| #[trigger] jstr(k, sv(n)) && #[trigger] jstr(x, sv(v)) && o =~= a + k + seq![':'] + x,
    }
}
pub proof fn lem_item(a: Seq<char>, o: Seq<char>, m: MetaData)
    requires wrote_item(a, o, m)
    ensures exists|e: Seq<char>| #[trigger] jitem(e, m) && o == a + e
{
    reveal(jitem);
    let e = o.skip(a.len() as int);
    match m {
        MetaData::StartNode(n) => { let k = choose|k: Seq<char>| #[trigger] jstr(k, sv(n)) && o =~= a + k + seq![':'] + seq!['{']; assert(e =~= k + seq![':', '{']); }
        MetaData::EndNode(_) => { assert(e =~= seq!['}']); }
        MetaData::Bool(n, v) => { let k = choose|k: Seq<char>| #[trigger] jstr(k, sv(n)) && o =~= a + k + seq![':'] + v.disp(); assert(e =~= k + seq![':'] + v.disp()); }
        MetaData::F64(n, v) => { let k = choose|k: Seq<char>| #[trigger] jstr(k, sv(n)) && o =~= a + k + seq![':'] + v.disp(); assert(e =~= k + seq![':'] + v.disp()); }
        MetaData::String(n, v) => { let (k, x) = choose|k: Seq<char>, x: Seq<char>| #[trigger] jstr(k, sv(n)) && #[trigger] jstr(x, sv(v)) && o =~= a + k + seq![':'] + x; assert(e =~= k + seq![':'] + x); }
    }
    assert(jitem(e, m));
    assert(o =~= a + e);
}
