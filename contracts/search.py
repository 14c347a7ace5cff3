"""SEARCH: the first match is found, items are read strictly in order (C16)"""
from weave import C, L, Theory
from common import RANGE


def finder(pred):
    """pred: text with I for the item"""
    p = lambda i: pred.replace('I', 'self.data@[%s].data' % i)
    return C(
        req=[('the closure takes any search', 'forall|s: Search<\'a>| f.requires((s,))')],
        ens=[('C16 fails exactly when nothing matches', '(forall|i: int| 0 <= i < self.data@.len() ==> !(%s)) ==> says(r, last(*self))' % p('i')),
             ('C16 passes on exactly what follows the first match',
              'forall|i: int| 0 <= i < self.data@.len() && (%s) && (forall|j: int| 0 <= j < i ==> !(%s)) ==> exists|s: Search<\'a>| s.data@ == self.data@.skip(i + 1) && s.range == Some(rng(self.data@[i])) && #[trigger] f.ensures((s,), r)' % (p('i'), p('j')))],
        entry='proof { ax_eq(); ax_feq(); }', nodec=False,
        loops={0: L(inv=[('C16 nothing matched yet', '__i0 <= self.data@.len() && forall|j: int| 0 <= j < __i0 ==> !(%s)' % p('j')),
                         ('the closure takes any search', 'forall|s: Search<\'a>| f.requires((s,))'),
                         ('equality', '<f64 as vstd::std_specs::cmp::PartialEqSpec<f64>>::obeys_eq_spec()')],
                    dec='self.data@.len() - __i0', start='proof { ax_eq(); }')})


def reader(cond, val):
    o = 'old(self).data@'
    cond = cond.replace('I', o + '[0].data')
    e = [('C16 succeeds exactly on such an item', 'r is Ok <==> %s.len() > 0 && (%s)' % (o, cond)),
         ('C16 moves past exactly that item', 'r is Ok ==> final(self).data@ == %s.skip(1) && final(self).range == Some(rng(%s[0]))' % (o, o)),
         ('C16 a failed read moves nothing', 'r is Err ==> *final(self) == *old(self)'),
         ('C16 a failed read reports the item', 'r is Err ==> says(r, at(*old(self)))')]
    if val:
        e.append(('C16 returns the value', 'r matches Ok(x) ==> (%s[0].data matches MetaData::%s(_, v) && v == x)' % (o, val)))
    return C(ens=e, entry='proof { ax_eq(); }', nodec=False)


def contracts():
    f = {}
    f.update({k: RANGE[k] for k in ['Range::empty', 'Range::wrap', 'Range::range']})
    f['Search::new'] = C(ens=[('C16 starts at the first item', 'r.data@ == data@ && r.range is None')], nodec=False)
    f['Search::for_string'] = finder('m_str(I, name@, val@)')
    f['Search::for_f64'] = finder('m_f64(I, name@, val)')
    f['Search::for_bool'] = finder('m_bool(I, name@, val)')
    f['Search::for_node'] = finder('m_start(I, name@)')
    f['Search::for_end_node'] = finder('m_end(I, name@)')
    f['Search::bool'] = reader('I matches MetaData::Bool(n, _) && sv(n) == name@', 'Bool')
    f['Search::f64'] = reader('I matches MetaData::F64(n, _) && sv(n) == name@', 'F64')
    f['Search::string'] = reader('I matches MetaData::String(n, _) && sv(n) == name@', 'String')
    f['Search::node'] = reader('I matches MetaData::StartNode(n) && sv(n) == name@', '')
    f['Search::end_node'] = reader('I matches MetaData::EndNode(n) && sv(n) == name@', '')
    return f


def theory():
    return Theory('search', ['prelude_base.rs', 'rtspec.rs', 'vpstd.rs', 'parse_base.rs', 'search.rs'], contracts())
