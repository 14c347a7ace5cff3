"""META: the built-in rules are those of the documented meta language (C19)"""
from weave import C, L, Theory
import os, refs

HERE = os.path.dirname(os.path.abspath(__file__))
ENS = [('C19 the built-in rules are those of the meta language', 'is_meta(r)')]


def theory():
    f = {}
    rf = refs.theory().fns
    f['Rule::update_refs'] = rf['Rule::update_refs']
    f['update_refs'] = rf['update_refs']
    f['Syntax::push'] = C(ens=[('rules in order', 'final(self).rules@ == old(self).rules@.push(rule) && final(self).names@ == old(self).names@.push(name)')], nodec=False)
    c = C(ens=ENS, nodec=False, entry='broadcast use {grp_meta}; proof { lem_mnames(); reveal(ml_rule); assert(ml_part(Seq::empty(), Seq::empty())) by { reveal(ml_part); } }')
    lab = ' //@ C19 the built-in rules are those of the meta language'
    c.hints.append((r'\b(\w+)\.push\(Arc::new\(vp_string\((".*?")\)\), (\w+)\);', r"""proof { let gn = \1.names@.len() as int; assert(ml_part(\1.names@, \1.rules@)); assert(\2@ == ml_name(gn));%s
assert(mo(\3) == ml_rule(gn));%s
assert(un(\3)); }%s""" % (lab, lab, lab), 'before each'))
    f['rules'] = c
    spec = ''.join(open(os.path.join(HERE, x)).read() for x in ('refs.rs', 'meta_rules.rs', 'meta.rs'))
    return Theory('meta', ['prelude_base.rs', 'rtspec.rs', 'vpstd.rs', 'parse_base.rs'], f, spec=spec)
