// ---------------------------------------------------------------- search in meta data
pub type MD = Range<MetaData>;
/// `==` of f64 (uninterpreted apart from being the operator the code uses)
pub open spec fn feq(a: f64, b: f64) -> bool { <f64 as vstd::std_specs::cmp::PartialEqSpec<f64>>::eq_spec(&a, &b) }
pub axiom fn ax_feq() ensures <f64 as vstd::std_specs::cmp::PartialEqSpec<f64>>::obeys_eq_spec();
pub open spec fn m_str(m: MetaData, name: Seq<char>, val: Seq<char>) -> bool { m matches MetaData::String(n, v) && sv(n) == name && sv(v) == val }
pub open spec fn m_f64(m: MetaData, name: Seq<char>, val: f64) -> bool { m matches MetaData::F64(n, v) && sv(n) == name && feq(v, val) }
pub open spec fn m_bool(m: MetaData, name: Seq<char>, val: bool) -> bool { m matches MetaData::Bool(n, v) && sv(n) == name && v == val }
pub open spec fn m_start(m: MetaData, name: Seq<char>) -> bool { m matches MetaData::StartNode(n) && sv(n) == name }
pub open spec fn m_end(m: MetaData, name: Seq<char>) -> bool { m matches MetaData::EndNode(n) && sv(n) == name }
/// the range of an item
pub open spec fn rng(d: MD) -> Range { Range { offset: d.offset, length: d.length, data: () } }
/// where a failure is reported: the item, or the last known range at the end
pub open spec fn at(s: Search) -> Range { if s.data@.len() > 0 { rng(s.data@[0]) } else { last(s) } }
pub open spec fn last(s: Search) -> Range { match s.range { Some(x) => x, None => Range { offset: 0, length: 0, data: () } } }
pub open spec fn says<T>(r: Result<T, Range<ParseError>>, a: Range) -> bool { r matches Err(e) && e.offset == a.offset && e.length == a.length }
