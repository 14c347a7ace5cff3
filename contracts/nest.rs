// ---------------------------------------------------------------- nesting
pub open spec fn nest(v: Seq<Range<MetaData>>, st: Seq<Seq<char>>) -> Option<Seq<Seq<char>>> decreases v.len() {
    if v.len() == 0 { Some(st) } else {
        match v[0].data {
            MetaData::StartNode(n) => nest(v.skip(1), st.push(sv(n))),
            MetaData::EndNode(n) => if st.len() > 0 && st.last() == sv(n) { nest(v.skip(1), st.drop_last()) } else { None },
            _ => nest(v.skip(1), st),
        }
    }
}
/// v[a..b] is well nested on its own
pub open spec fn bal(v: Seq<Range<MetaData>>, a: int, b: int) -> bool {
    0 <= a <= b <= v.len() && nest(v.subrange(a, b), Seq::empty()) == Some(Seq::<Seq<char>>::empty())
}
pub proof fn lem_nest_cat(u: Seq<Range<MetaData>>, v: Seq<Range<MetaData>>, st: Seq<Seq<char>>)
    ensures nest(u + v, st) == match nest(u, st) { Some(t) => nest(v, t), None => None }
    decreases u.len()
{
    if u.len() == 0 { assert(u + v =~= v); } else {
        assert((u + v).skip(1) =~= u.skip(1) + v);
        match u[0].data {
            MetaData::StartNode(n) => { lem_nest_cat(u.skip(1), v, st.push(sv(n))); }
            MetaData::EndNode(n) => { if st.len() > 0 && st.last() == sv(n) { lem_nest_cat(u.skip(1), v, st.drop_last()); } }
            _ => { lem_nest_cat(u.skip(1), v, st); }
        }
    }
}
/// a run from stack st that works also works on top of any base
pub proof fn lem_nest_frame(u: Seq<Range<MetaData>>, base: Seq<Seq<char>>, st: Seq<Seq<char>>)
    requires nest(u, st) is Some
    ensures nest(u, base + st) == Some(base + nest(u, st).unwrap())
    decreases u.len()
{
    if u.len() > 0 {
        match u[0].data {
            MetaData::StartNode(n) => { assert(base + st.push(sv(n)) =~= (base + st).push(sv(n))); lem_nest_frame(u.skip(1), base, st.push(sv(n))); }
            MetaData::EndNode(n) => { assert((base + st).drop_last() =~= base + st.drop_last()); lem_nest_frame(u.skip(1), base, st.drop_last()); }
            _ => { lem_nest_frame(u.skip(1), base, st); }
        }
    }
}
pub broadcast proof fn lem_bal_keep(v: Seq<Range<MetaData>>, w: Seq<Range<MetaData>>, n: int, a: int, b: int)
    requires #[trigger] keep(v, w, n), #[trigger] bal(v, a, b), b <= n
    ensures bal(w, a, b)
{ assert(w.subrange(a, b) =~= v.subrange(a, b)); }
pub broadcast proof fn lem_bal_take(v: Seq<Range<MetaData>>, n: int, a: int, b: int)
    requires bal(v, a, b), b <= n <= v.len()
    ensures #![trigger bal(v, a, b), v.subrange(0, n)] bal(v.subrange(0, n), a, b)
{ assert(v.subrange(0, n).subrange(a, b) =~= v.subrange(a, b)); }
pub broadcast proof fn lem_bal_cat(v: Seq<Range<MetaData>>, a: int, b: int, c: int)
    requires #[trigger] bal(v, a, b), #[trigger] bal(v, b, c)
    ensures bal(v, a, c)
{ assert(v.subrange(a, c) =~= v.subrange(a, b) + v.subrange(b, c)); lem_nest_cat(v.subrange(a, b), v.subrange(b, c), Seq::empty()); }
pub broadcast proof fn lem_bal_small(v: Seq<Range<MetaData>>, a: int, b: int)
    requires 0 <= a <= v.len(), a == b || (b == a + 1 && b <= v.len() && !(v[a].data is StartNode) && !(v[a].data is EndNode))
    ensures #[trigger] bal(v, a, b)
{ reveal_with_fuel(nest, 3); if b == a + 1 { assert(v.subrange(a, b).skip(1) =~= Seq::empty()); assert(v.subrange(a, b)[0] == v[a]); } }
pub broadcast proof fn lem_bal_node(w: Seq<Range<MetaData>>, a: int, b: int, x: Range<MetaData>)
    requires bal(w, a, b), a >= 1, w[a - 1].data matches MetaData::StartNode(n) && x.data == MetaData::EndNode(n)
    ensures #![trigger bal(w, a, b), w.take(b).push(x)] bal(w.take(b).push(x), a - 1, b + 1)
{
    let n = w[a - 1].data->StartNode_0;
    let v = w.take(b).push(x);
    let e = Seq::<Seq<char>>::empty();
    let s0 = seq![w[a - 1]];
    let s1 = w.subrange(a, b);
    let s2 = seq![x];
    assert(v.subrange(a - 1, b + 1) =~= (s0 + s1) + s2);
    assert(s0.skip(1) =~= Seq::empty());
    assert(s2.skip(1) =~= Seq::empty());
    lem_nest_cat(s0 + s1, s2, e);
    lem_nest_cat(s0, s1, e);
    assert(nest(s0, e) == Some(e.push(sv(n)))) by { assert(nest(s0.skip(1), e.push(sv(n))) == Some(e.push(sv(n)))); }
    lem_nest_frame(s1, e.push(sv(n)), e);
    assert(e.push(sv(n)) + e =~= e.push(sv(n)));
    assert(e.push(sv(n)).drop_last() =~= e);
    assert(nest(s2, e.push(sv(n))) == Some(e)) by { assert(nest(s2.skip(1), e) == Some(e)); }
}
pub broadcast group grp_bal { lem_bal_keep, lem_bal_take, lem_bal_cat, lem_bal_small, lem_bal_node }
