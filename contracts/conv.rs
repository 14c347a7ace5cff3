// ---------------------------------------------------------------- what a rule description means
/// the kinds of nodes in a description
pub enum DK { Sequence, Select, UntilAnyOrWs, UntilAny, Tag, Ws, Text, Number, Reference, Optional, Not, Sep, Lines, Repeat, Node, Other }
/// what is written in a node: the last value of each property, and the sub rules
pub struct F {
    pub text: Option<Seq<char>>, pub any: Option<Seq<char>>, pub prop: Option<Seq<char>>, pub name: Option<Seq<char>>,
    pub opt: Option<bool>, pub not: Option<bool>, pub inv: Option<bool>, pub und: Option<bool>, pub empty: Option<bool>, pub trail: Option<bool>, pub indent: Option<bool>,
    pub num: Option<int>, pub rules: Seq<SR>, pub bys: Seq<SR>, pub index: Option<int>,
}
/// a rule, by its description: every flag has a value
pub struct SR { pub k: DK, pub id: int, pub f: F }
pub open spec fn f0() -> F { F { text: None, any: None, prop: None, name: None, opt: None, not: None, inv: None, und: None, empty: None, trail: None, indent: None, num: None, rules: Seq::empty(), bys: Seq::empty(), index: None } }
pub open spec fn oi(o: Option<usize>) -> Option<int> { match o { Some(i) => Some(i as int), None => None } }
pub open spec fn ov(o: Option<Arc<String>>) -> Option<Seq<char>> { match o { Some(s) => Some(sv(s)), None => None } }

/// the description of a rule
#[verifier::opaque]
pub open spec fn rv(r: Rule) -> SR decreases r {
    match r {
        Rule::Sequence(s) => SR { k: DK::Sequence, id: s.debug_id as int, f: F { rules: Seq::new(s.args@.len(), |i: int| if 0 <= i < s.args@.len() { rv(s.args@[i]) } else { arbitrary() }), ..f0() } },
        Rule::Select(s) => SR { k: DK::Select, id: s.debug_id as int, f: F { rules: Seq::new(s.args@.len(), |i: int| if 0 <= i < s.args@.len() { rv(s.args@[i]) } else { arbitrary() }), ..f0() } },
        Rule::UntilAnyOrWhitespace(u) => SR { k: DK::UntilAnyOrWs, id: u.debug_id as int, f: F { any: Some(sv(u.any_characters)), opt: Some(u.optional), prop: ov(u.property), ..f0() } },
        Rule::UntilAny(u) => SR { k: DK::UntilAny, id: u.debug_id as int, f: F { any: Some(sv(u.any_characters)), opt: Some(u.optional), prop: ov(u.property), ..f0() } },
        Rule::Tag(t) => SR { k: DK::Tag, id: t.debug_id as int, f: F { text: Some(sv(t.text)), not: Some(t.not), inv: Some(t.inverted), prop: ov(t.property), ..f0() } },
        Rule::Whitespace(w) => SR { k: DK::Ws, id: w.debug_id as int, f: F { opt: Some(w.optional), ..f0() } },
        Rule::Text(t) => SR { k: DK::Text, id: t.debug_id as int, f: F { empty: Some(t.allow_empty), prop: ov(t.property), ..f0() } },
        Rule::Number(n) => SR { k: DK::Number, id: n.debug_id as int, f: F { und: Some(n.allow_underscore), prop: ov(n.property), ..f0() } },
        Rule::Node(n) => SR { k: DK::Reference, id: n.debug_id as int, f: F { name: Some(sv(n.name)), prop: ov(n.property), index: oi(n.index), ..f0() } },
        Rule::Optional(o) => SR { k: DK::Optional, id: (*o).debug_id as int, f: F { rules: seq![rv((*o).rule)], ..f0() } },
        Rule::Not(o) => SR { k: DK::Not, id: (*o).debug_id as int, f: F { rules: seq![rv((*o).rule)], ..f0() } },
        Rule::SeparateBy(s) => SR { k: DK::Sep, id: (*s).debug_id as int, f: F { opt: Some((*s).optional), trail: Some((*s).allow_trail), rules: seq![rv((*s).rule)], bys: seq![rv((*s).by)], ..f0() } },
        Rule::Lines(l) => SR { k: DK::Lines, id: (*l).debug_id as int, f: F { indent: Some((*l).indent), rules: seq![rv((*l).rule)], ..f0() } },
        Rule::Repeat(x) => SR { k: DK::Repeat, id: (*x).debug_id as int, f: F { opt: Some((*x).optional), rules: seq![rv((*x).rule)], ..f0() } },
        _ => SR { k: DK::Other, id: 0, f: f0() },
    }
}
pub open spec fn rvs(s: Seq<Rule>) -> Seq<SR> { s.map_values(|r: Rule| rv(r)) }
pub proof fn lem_rvs(s: Seq<Rule>, r: Rule)
    ensures rvs(s.push(r)) == rvs(s).push(rv(r))
{ assert(rvs(s.push(r)) =~= rvs(s).push(rv(r))); }
pub proof fn lem_rvs0() ensures rvs(Seq::empty()) == Seq::<SR>::empty() { assert(rvs(Seq::empty()) =~= Seq::<SR>::empty()); }
pub broadcast proof fn lem_rv_seq(s: Sequence)
    ensures #[trigger] rv(Rule::Sequence(s)) == (SR { k: DK::Sequence, id: s.debug_id as int, f: F { rules: rvs(s.args@), ..f0() } })
{ reveal_with_fuel(rv, 1); let r = rv(Rule::Sequence(s)); assert(r.f.rules =~= rvs(s.args@)); }
pub broadcast proof fn lem_rv_sel(s: Select)
    ensures #[trigger] rv(Rule::Select(s)) == (SR { k: DK::Select, id: s.debug_id as int, f: F { rules: rvs(s.args@), ..f0() } })
{ reveal_with_fuel(rv, 1); let r = rv(Rule::Select(s)); assert(r.f.rules =~= rvs(s.args@)); }

// ---------------------------------------------------------------- the format of descriptions
pub open spec fn kname(k: DK) -> Seq<char> {
    match k {
        DK::Sequence => "sequence"@, DK::Select => "select"@, DK::UntilAnyOrWs => "until_any_or_whitespace"@, DK::UntilAny => "until_any"@, DK::Tag => "tag"@,
        DK::Ws => "whitespace"@, DK::Text => "text"@, DK::Number => "number"@, DK::Reference => "reference"@, DK::Optional => "optional"@, DK::Not => "not"@,
        DK::Sep => "separated_by"@, DK::Lines => "lines"@, DK::Repeat => "repeat"@, DK::Node => "node"@, DK::Other => ""@,
    }
}
pub open spec fn kind_of(n: Seq<char>) -> DK {
    if n == "sequence"@ { DK::Sequence } else if n == "select"@ { DK::Select } else if n == "until_any_or_whitespace"@ { DK::UntilAnyOrWs } else if n == "until_any"@ { DK::UntilAny }
    else if n == "tag"@ { DK::Tag } else if n == "whitespace"@ { DK::Ws } else if n == "text"@ { DK::Text } else if n == "number"@ { DK::Number } else if n == "reference"@ { DK::Reference }
    else if n == "optional"@ { DK::Optional } else if n == "not"@ { DK::Not } else if n == "separated_by"@ { DK::Sep } else if n == "lines"@ { DK::Lines } else if n == "repeat"@ { DK::Repeat } else { DK::Other }
}
/// the kind of rule described next
pub open spec fn kind_at(d: Seq<MD>) -> DK { if d.len() == 0 { DK::Other } else { match d[0].data { MetaData::StartNode(n) => kind_of(sv(n)), _ => DK::Other } } }
pub open spec fn is_set(k: DK, n: Seq<char>) -> bool {
    match k {
        DK::UntilAnyOrWs | DK::UntilAny => n == "any_characters"@ || n == "property"@,
        DK::Tag => n == "text"@ || n == "property"@,
        DK::Text | DK::Number | DK::Reference => n == "property"@,
        _ => false,
    }
}
pub open spec fn is_sub(k: DK, n: Seq<char>) -> bool {
    match k { DK::Sequence | DK::Select | DK::Repeat | DK::Node => n == "rule"@, DK::Sep => n == "rule"@ || n == "by"@, _ => false }
}
pub open spec fn is_flag(k: DK, n: Seq<char>) -> bool {
    match k {
        DK::UntilAnyOrWs | DK::UntilAny | DK::Repeat => n == "optional"@, DK::Sep => n == "optional"@ || n == "allow_trail"@, DK::Tag => n == "not"@ || n == "inverted"@,
        DK::Text => n == "allow_empty"@, DK::Number => n == "underscore"@, _ => false,
    }
}
pub open spec fn is_name(k: DK, n: Seq<char>) -> bool { match k { DK::Reference | DK::Node => n == "name"@, _ => false } }
pub open spec fn is_num(k: DK, n: Seq<char>) -> bool { match k { DK::Node => n == "id"@, _ => false } }
pub open spec fn put_set(f: F, n: Seq<char>, v: Seq<char>) -> F { if n == "any_characters"@ { F { any: Some(v), ..f } } else if n == "text"@ { F { text: Some(v), ..f } } else { F { prop: Some(v), ..f } } }
pub open spec fn put_flag(f: F, n: Seq<char>, v: bool) -> F {
    if n == "optional"@ { F { opt: Some(v), ..f } } else if n == "allow_trail"@ { F { trail: Some(v), ..f } } else if n == "not"@ { F { not: Some(v), ..f } }
    else if n == "inverted"@ { F { inv: Some(v), ..f } } else if n == "allow_empty"@ { F { empty: Some(v), ..f } } else { F { und: Some(v), ..f } }
}
/// sequences and selections collect their sub rules, elsewhere the last one counts
pub open spec fn put_sub(k: DK, f: F, n: Seq<char>, r: SR) -> F {
    if k is Sequence || k is Select { F { rules: f.rules.push(r), ..f } } else if n == "by"@ { F { bys: seq![r], ..f } } else { F { rules: seq![r], ..f } }
}
pub open spec fn lo(o: Option<Rule>) -> Seq<SR> { match o { Some(r) => seq![rv(r)], None => Seq::empty() } }
/// the number of a node as a debug id
pub uninterp spec fn f64_usize(v: f64) -> usize;
#[verifier::external_body]
pub fn vp_f64_as_usize(v: f64) -> (r: usize) ensures r == f64_usize(v) { unimplemented!() }
pub open spec fn id0(num: Option<int>) -> int {
    let n = match num { Some(n) => n, None => 0 };
    (if n <= usize::MAX as int / 2000 { n } else { usize::MAX as int / 2000 }) * 1000
}
pub open spec fn dflt(o: Option<bool>, d: bool) -> Option<bool> { match o { Some(b) => Some(b), None => Some(d) } }
/// the rule a node describes, if complete; absent flags have their defaults
pub open spec fn mk(k: DK, id: int, f: F) -> Option<SR> {
    match k {
        DK::Sequence | DK::Select => Some(SR { k, id, f: F { rules: f.rules, ..f0() } }),
        DK::UntilAnyOrWs | DK::UntilAny => if f.any is None { None } else { Some(SR { k, id, f: F { any: f.any, opt: dflt(f.opt, false), prop: f.prop, ..f0() } }) },
        DK::Tag => if f.text is None { None } else { Some(SR { k, id, f: F { text: f.text, not: dflt(f.not, false), inv: dflt(f.inv, false), prop: f.prop, ..f0() } }) },
        DK::Text => Some(SR { k, id, f: F { empty: dflt(f.empty, true), prop: f.prop, ..f0() } }),
        DK::Number => Some(SR { k, id, f: F { und: dflt(f.und, false), prop: f.prop, ..f0() } }),
        DK::Reference => if f.name is None { None } else { Some(SR { k, id, f: F { name: f.name, prop: f.prop, ..f0() } }) },
        DK::Sep => if f.rules.len() == 0 || f.bys.len() == 0 { None } else { Some(SR { k, id, f: F { opt: dflt(f.opt, true), trail: dflt(f.trail, false), rules: f.rules, bys: f.bys, ..f0() } }) },
        DK::Repeat => if f.rules.len() == 0 || f.opt is None { None } else { Some(SR { k, id, f: F { opt: f.opt, rules: f.rules, ..f0() } }) },
        _ => None,
    }
}

// ---------------------------------------------------------------- strings
pub type ST = Seq<(Seq<char>, Seq<char>)>;
pub open spec fn strv(s: Seq<(Arc<String>, Arc<String>)>) -> ST { s.map_values(|p: (Arc<String>, Arc<String>)| (sv(p.0), sv(p.1))) }
pub open spec fn svp(p: &(Arc<String>, Arc<String>)) -> Seq<char> { sv(p.1) }
/// the first string of that name from i on
pub open spec fn find_str(s: ST, n: Seq<char>, i: int) -> Option<Seq<char>> decreases s.len() - i {
    if i < 0 || i >= s.len() { None } else if s[i].0 == n { Some(s[i].1) } else { find_str(s, n, i + 1) }
}
/// a string property: items read and the text; the last reference or value counts
#[verifier::opaque]
pub open spec fn s_setl(p: Seq<char>, d: Seq<MD>, strs: ST, cur: Option<Seq<char>>, n: int) -> Option<(int, Seq<char>)> decreases d.len() {
    if d.len() == 0 { None } else if is_end(d, p) { match cur { Some(t) => Some((n + 1, t)), None => None } }
    else { match d[0].data {
        MetaData::String(nm, v) => if sv(nm) == "ref"@ { s_setl(p, d.skip(1), strs, find_str(strs, sv(v), 0), n + 1) } else if sv(nm) == "value"@ { s_setl(p, d.skip(1), strs, Some(sv(v)), n + 1) } else { None },
        _ => None,
    } }
}
pub open spec fn s_set(p: Seq<char>, d: Seq<MD>, strs: ST) -> Option<(int, Seq<char>)> { if !is_start(d, p) { None } else { s_setl(p, d.skip(1), strs, None, 1) } }
pub proof fn lem_setl(p: Seq<char>, d: Seq<MD>, strs: ST, cur: Option<Seq<char>>, n: int)
    ensures s_setl(p, d, strs, cur, n) == (if d.len() == 0 { None } else if is_end(d, p) { match cur { Some(t) => Some((n + 1, t)), None => None } }
    else { match d[0].data {
        MetaData::String(nm, v) => if sv(nm) == "ref"@ { s_setl(p, d.skip(1), strs, find_str(strs, sv(v), 0), n + 1) } else if sv(nm) == "value"@ { s_setl(p, d.skip(1), strs, Some(sv(v)), n + 1) } else { None },
        _ => None,
    } })
{ reveal_with_fuel(s_setl, 1); }
/// a string definition
#[verifier::opaque]
pub open spec fn s_strl(d: Seq<MD>, name: Option<Seq<char>>, text: Option<Seq<char>>, n: int) -> Option<(int, Seq<char>, Seq<char>)> decreases d.len() {
    if d.len() == 0 { None } else { match d[0].data {
        MetaData::String(nm, v) => if sv(nm) == "name"@ { s_strl(d.skip(1), Some(sv(v)), text, n + 1) } else if sv(nm) == "text"@ { s_strl(d.skip(1), name, Some(sv(v)), n + 1) } else { None },
        MetaData::EndNode(nm) => if sv(nm) == "string"@ { match (name, text) { (Some(a), Some(b)) => Some((n + 1, a, b)), _ => None } } else { None },
        _ => None,
    } }
}
pub open spec fn s_str(d: Seq<MD>) -> Option<(int, Seq<char>, Seq<char>)> { if !is_start(d, "string"@) { None } else { s_strl(d.skip(1), None, None, 1) } }
pub proof fn lem_strl(d: Seq<MD>, name: Option<Seq<char>>, text: Option<Seq<char>>, n: int)
    ensures s_strl(d, name, text, n) == (if d.len() == 0 { None } else { match d[0].data {
        MetaData::String(nm, v) => if sv(nm) == "name"@ { s_strl(d.skip(1), Some(sv(v)), text, n + 1) } else if sv(nm) == "text"@ { s_strl(d.skip(1), name, Some(sv(v)), n + 1) } else { None },
        MetaData::EndNode(nm) => if sv(nm) == "string"@ { match (name, text) { (Some(a), Some(b)) => Some((n + 1, a, b)), _ => None } } else { None },
        _ => None,
    } })
{ reveal_with_fuel(s_strl, 1); }

// ---------------------------------------------------------------- nodes
/// what reading a node gives: whether it is a description, where it ends, the debug id counter, the ignored ranges, the rule
pub struct DOut { pub ok: bool, pub off: int, pub id: int, pub ign: Seq<Range>, pub r: SR }
/// the same for the inside of a node
pub struct LO { pub ok: bool, pub off: int, pub id: int, pub ign: Seq<Range>, pub f: F }
pub open spec fn no(id: int, ign: Seq<Range>) -> DOut { DOut { ok: false, off: 0, id, ign, r: arbitrary() } }
pub open spec fn nol(id: int, ign: Seq<Range>) -> LO { LO { ok: false, off: 0, id, ign, f: arbitrary() } }
pub open spec fn rng(off: int, n: int) -> Range { Range { offset: off as usize, length: n as usize, data: () } }
/// the inside of a node of kind k: properties and sub rules in any order; what is neither is skipped and reported as ignored
//REC s_loop(k: DK, d: Seq<MD>, off: int, strs: ST, id: int, ign: Seq<Range>, f: F) -> LO decreases d.len(), 2int
{
    if d.len() == 0 { nol(id, ign) }
    else if is_end(d, kname(k)) { LO { ok: true, off: off + 1, id, ign, f } }
    else {
        let m0 = ext(d, 0);
        match d[0].data {
            MetaData::StartNode(nm) => {
                let n = sv(nm);
                if is_set(k, n) {
                    match s_set(n, d, strs) {
                        Some((m, v)) => if 0 < m <= d.len() { s_loop(k, d.skip(m), off + m, strs, id, ign, put_set(f, n, v)) } else { nol(id, ign) },
                        None => SKIP(id, ign),
                    }
                } else if is_sub(k, n) {
                    let o = s_rule(n, d, off, strs, if k is Node { id0(f.num) } else { id }, ign);
                    let id1 = if k is Node { id } else { o.id };
                    if o.ok { if 0 < o.off - off <= d.len() { s_loop(k, d.skip(o.off - off), o.off, strs, id1, o.ign, put_sub(k, f, n, o.r)) } else { nol(id1, o.ign) } }
                    else { SKIP(id1, o.ign) }
                } else { SKIP(id, ign) }
            }
            MetaData::Bool(nm, v) => if is_flag(k, sv(nm)) { s_loop(k, d.skip(1), off + 1, strs, id, ign, put_flag(f, sv(nm), v)) } else { SKIP(id, ign) },
            MetaData::String(nm, v) => if is_name(k, sv(nm)) { s_loop(k, d.skip(1), off + 1, strs, id, ign, F { name: Some(sv(v)), ..f }) } else { SKIP(id, ign) },
            MetaData::F64(nm, v) => if is_num(k, sv(nm)) { s_loop(k, d.skip(1), off + 1, strs, id, ign, F { num: Some(f64_usize(v) as int), ..f }) } else { SKIP(id, ign) },
            _ => SKIP(id, ign),
        }
    }
}
//END
/// a sub rule: a node named p around exactly one rule
//REC s_rule(p: Seq<char>, d: Seq<MD>, off: int, strs: ST, id: int, ign: Seq<Range>) -> DOut decreases d.len(), 1int
{
    if !is_start(d, p) { no(id, ign) } else {
        let t = d.skip(1);
        let o = s_one(kind_at(t), t, off + 1, strs, id, ign);
        if o.ok && 0 < o.off - off <= d.len() && is_end(d.skip(o.off - off), p) { DOut { off: o.off + 1, ..o } } else { no(o.id, o.ign) }
    }
}
//END
/// a rule of kind k
//REC s_one(k: DK, d: Seq<MD>, off: int, strs: ST, id: int, ign: Seq<Range>) -> DOut decreases d.len(), 0int
{
    if k is Other || kind_at(d) != k { no(id, ign) } else {
        let t = d.skip(1);
        match k {
            // exactly one flag
            DK::Ws => match t[0].data {
                MetaData::Bool(nm, v) => if t.len() > 0 && sv(nm) == "optional"@ && is_end(t.skip(1), kname(k)) { DOut { ok: true, off: off + 3, id: id + 1, ign, r: SR { k, id: id + 1, f: F { opt: Some(v), ..f0() } } } } else { no(id, ign) },
                _ => no(id, ign),
            },
            // exactly one rule, for lines after an optional flag
            DK::Optional | DK::Not | DK::Lines => {
                let flag = k is Lines && t.len() > 0 && t[0].data is Bool && sv(t[0].data->Bool_0) == "indent"@;
                let u = if flag { t.skip(1) } else { t };
                let p = if flag { off + 2 } else { off + 1 };
                let f = if k is Lines { F { indent: Some(flag && t[0].data->Bool_1), ..f0() } } else { f0() };
                let o = s_rule("rule"@, u, p, strs, id, ign);
                if o.ok && 0 < o.off - p <= u.len() && is_end(u.skip(o.off - p), kname(k)) { DOut { ok: true, off: o.off + 1, id: o.id + 1, ign: o.ign, r: SR { k, id: o.id + 1, f: F { rules: seq![o.r], ..f } } } }
                else { no(o.id, o.ign) }
            }
            _ => {
                let l = s_loop(k, t, off + 1, strs, id, ign, f0());
                if l.ok { match mk(k, l.id + 1, l.f) { Some(r) => DOut { ok: true, off: l.off, id: l.id + 1, ign: l.ign, r }, None => no(l.id, l.ign) } } else { no(l.id, l.ign) }
            }
        }
    }
}
//END

/// white-space rules need no strings and ignore nothing
pub proof fn lem_ws(d: Seq<MD>, off: int, strs: ST, id: int, ign: Seq<Range>)
    ensures ({ let a = s_one(DK::Ws, d, off, strs, id, ign); let b = s_one(DK::Ws, d, off, Seq::empty(), id, Seq::empty()); a.ok == b.ok && a.id == b.id && a.ign == ign && (a.ok ==> a.off == b.off && a.r == b.r) })
{ lem_s_one(DK::Ws, d, off, strs, id, ign); lem_s_one(DK::Ws, d, off, Seq::empty(), id, Seq::empty()); }
// ---------------------------------------------------------------- documents
/// a named rule
#[verifier::opaque]
pub open spec fn s_node(d: Seq<MD>, off: int, strs: ST, ign: Seq<Range>) -> LO {
    if !is_start(d, "node"@) { nol(0, ign) } else {
        let l = s_loop(DK::Node, d.skip(1), off + 1, strs, 0, ign, f0());
        if l.ok && l.f.name is Some && l.f.rules.len() > 0 { l } else { nol(l.id, l.ign) }
    }
}
/// the string definitions at the start: where they end, names and texts
#[verifier::opaque]
pub open spec fn s_strings(d: Seq<MD>, off: int, acc: ST) -> (int, ST) decreases d.len() {
    match s_str(d) { Some((m, a, b)) => if 0 < m <= d.len() { s_strings(d.skip(m), off + m, acc.push((a, b))) } else { (off, acc) }, None => (off, acc) }
}
pub proof fn lem_strings(d: Seq<MD>, off: int, acc: ST)
    ensures s_strings(d, off, acc) == (match s_str(d) { Some((m, a, b)) => if 0 < m <= d.len() { s_strings(d.skip(m), off + m, acc.push((a, b))) } else { (off, acc) }, None => (off, acc) })
{ reveal_with_fuel(s_strings, 1); }
/// a whole description: is it one, the ignored ranges, names and rules in order
pub struct CO { pub ok: bool, pub ign: Seq<Range>, pub names: Seq<Seq<char>>, pub rules: Seq<SR> }
/// named rules up to the end of the data
#[verifier::opaque]
pub open spec fn s_nodes(d: Seq<MD>, off: int, strs: ST, ign: Seq<Range>, names: Seq<Seq<char>>, rules: Seq<SR>) -> CO decreases d.len() {
    let l = s_node(d, off, strs, ign);
    if l.ok && 0 < l.off - off <= d.len() { s_nodes(d.skip(l.off - off), l.off, strs, l.ign, names.push(l.f.name->0), rules.push(l.f.rules.last())) }
    else { CO { ok: d.len() == 0, ign: l.ign, names, rules } }
}
pub proof fn lem_nodes(d: Seq<MD>, off: int, strs: ST, ign: Seq<Range>, names: Seq<Seq<char>>, rules: Seq<SR>)
    ensures s_nodes(d, off, strs, ign, names, rules) == ({ let l = s_node(d, off, strs, ign);
    if l.ok && 0 < l.off - off <= d.len() { s_nodes(d.skip(l.off - off), l.off, strs, l.ign, names.push(l.f.name->0), rules.push(l.f.rules.last())) }
    else { CO { ok: d.len() == 0, ign: l.ign, names, rules } } })
{ reveal_with_fuel(s_nodes, 1); }
pub open spec fn s_conv(d: Seq<MD>, ign: Seq<Range>) -> CO {
    let s = s_strings(d, 0, Seq::empty());
    s_nodes(d.skip(s.0), s.0, s.1, ign, Seq::empty(), Seq::empty())
}
pub open spec fn svs(s: Seq<Arc<String>>) -> Seq<Seq<char>> { s.map_values(|a: Arc<String>| sv(a)) }
pub proof fn lem_svs(s: Seq<Arc<String>>, a: Arc<String>) ensures svs(s.push(a)) == svs(s).push(sv(a)) { assert(svs(s.push(a)) =~= svs(s).push(sv(a))); }
pub proof fn lem_strv(s: Seq<(Arc<String>, Arc<String>)>, a: (Arc<String>, Arc<String>)) ensures strv(s.push(a)) == strv(s).push((sv(a.0), sv(a.1))) { assert(strv(s.push(a)) =~= strv(s).push((sv(a.0), sv(a.1)))); }
// ---------------------------------------------------------------- extent
pub proof fn lem_ext_add(d: Seq<MD>, a: int, b: int)
    requires a >= 1, b >= 1
    ensures ext(d, a + b) == ext(d, a) + ext(d.skip(ext(d, a)), b), 0 <= ext(d, a) <= d.len()
    decreases d.len()
{
    lem_ext_len(d, a);
    if d.len() > 0 {
        let t = d.skip(1);
        match d[0].data {
            MetaData::StartNode(_) => { lem_ext_add(t, a + 1, b); assert(t.skip(ext(t, a + 1)) =~= d.skip(ext(d, a))); }
            MetaData::EndNode(_) => { if a == 1 { } else { lem_ext_add(t, a - 1, b); assert(t.skip(ext(t, a - 1)) =~= d.skip(ext(d, a))); } }
            _ => { lem_ext_add(t, a, b); assert(t.skip(ext(t, a)) =~= d.skip(ext(d, a))); }
        }
    }
}
/// inside a node: the next item or node belongs to it
pub proof fn lem_ext_in(d: Seq<MD>)
    ensures 0 <= ext(d, 0) <= d.len(), ext(d, 0) > 0 ==> ext(d, 1) == ext(d, 0) + ext(d.skip(ext(d, 0)), 1), ext(d, 0) <= ext(d, 1) <= d.len()
{
    lem_ext_len(d, 0); lem_ext_len(d, 1);
    if ext(d, 0) > 0 {
        match d[0].data { MetaData::StartNode(_) => { lem_ext_add(d.skip(1), 1, 1); assert(d.skip(1).skip(ext(d.skip(1), 1)) =~= d.skip(ext(d, 0))); } _ => {} }
        lem_ext_len(d.skip(ext(d, 0)), 1);
    }
}

// ---------------------------------------------------------------- rules before and after references are resolved
/// no reference is resolved, no table (see wf)
pub open spec fn raw(r: Rule) -> bool { LA() ==> wf(r, 0) }
pub open spec fn oraw(r: Option<Rule>) -> bool { r matches Some(x) ==> raw(x) }
pub proof fn lem_raw_upds(names: Seq<Arc<String>>, a: Seq<Rule>, b: Seq<Rule>)
    requires upds(names, a, b), names.len() == a.len(), names.len() <= usize::MAX, forall|i: int| 0 <= i < a.len() ==> raw(#[trigger] a[i])
    ensures LA() ==> wfr(b)
{
    if LA() {
        assert forall|i: int| 0 <= i < b.len() implies wf(#[trigger] b[i], b.len()) by { assert(raw(a[i])); lem_wf_mono(a[i], 0, b.len()); lem_upd_wf(names, a[i], b[i], b.len()); }
    }
}
