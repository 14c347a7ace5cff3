"""REFS: references are resolved to the first rule of that name (C13)"""
from weave import C, L, Theory
import os


def theory():
    f = {}
    lab = 'C13 exactly the unresolved references are pointed to the first rule of their name'
    def args(i, a):
        return L(inv=[('C13 sub rules are updated in order', '''__i%d <= s.args@.len() && s.debug_id == %s.debug_id && s.args@.len() == %s.args@.len()
            && (forall|k: int| 0 <= k < __i%d ==> upd(names@, #[trigger] %s.args@[k], s.args@[k])) && (forall|k: int| __i%d <= k < s.args@.len() ==> s.args@[k] == #[trigger] %s.args@[k])''' % (i, a, a, i, a, i, a))],
                 dec='s.args@.len() - __i%d' % i, start='assert(s.args@[__i%d as int] == %s.args@[__i%d as int]); assert(decreases_to!(*old(self) => %s)); assert(decreases_to!(%s => %s.args)); assert(decreases_to!(%s.args => %s.args[__i%d as int]));' % (i, a, i, a, a, a, a, a, i), before='let ghost %s = *s;' % a)
    f['Rule::update_refs'] = C(ens=[(lab, 'upd(names@, *old(self), *final(self))')], entry='proof { ax_eq(); lem_upd1(names@, *self); }', dec='*old(self)', nodec=False,
        loops={0: L(inv=[('C13 no earlier name is equal', 'first_at(names@, sv(p.name), 0) == (if found is Some { found } else { first_at(names@, sv(p.name), __i0 as int) }) && __i0 <= names@.len()')],
                    eb=[('C13 searching', 'found is None')], ens=[('C13 searched', 'found is None ==> __i0 == names@.len()')], dec='names@.len() - __i0'),
               1: args(1, 's0'), 2: args(2, 's0')})
    f['update_refs'] = C(ens=[('C13 names are kept', 'final(__p0).names == old(__p0).names'), (lab, 'upds(old(__p0).names@, old(__p0).rules@, final(__p0).rules@)')], nodec=False,
        loops={0: L(inv=[('C13 rules are updated in order', '''__i0 <= rules@.len() && rules@.len() == old(__p0).rules@.len() && (forall|k: int| 0 <= k < __i0 ==> upd(names@, #[trigger] old(__p0).rules@[k], rules@[k]))
            && (forall|k: int| __i0 <= k < rules@.len() ==> rules@[k] == #[trigger] old(__p0).rules@[k])''')], dec='rules@.len() - __i0')})
    spec = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'refs.rs')).read()
    return Theory('refs', ['prelude_base.rs', 'rtspec.rs', 'vpstd.rs', 'parse_base.rs'], f, spec=spec)
