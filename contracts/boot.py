"""BOOT: the rules of the meta language itself are safe to use (C19)"""
from weave import C, L, Theory
import os, refs

HERE = os.path.dirname(os.path.abspath(__file__))


def ens():
    return [('C19 a name for each bootstrap rule', 'r.rules@.len() == r.names@.len()'), ('C19 every reference of a bootstrap rule points to a rule', 'LA() ==> wfr(r.rules@)'), ('C20 reading a syntax finishes', 'LA() ==> graded(r.rules@)')]


def theory():
    f = {}
    rf = refs.theory().fns
    f['Rule::update_refs'] = rf['Rule::update_refs']
    f['update_refs'] = rf['update_refs']
    f['Syntax::push'] = C(ens=[('rules in order', 'final(self).rules@ == old(self).rules@.push(rule) && final(self).names@ == old(self).names@.push(name)')], nodec=False)
    c = C(ens=ens(), nodec=False, entry='broadcast use {grp_boot, grp_tb}; proof { lem_bnames(); }', strlits=True)
    c.hints = [(r'update_refs\(&mut syntax\)', 'let ghost rs0 = syntax.rules@; proof { vstd::std_specs::vec::axiom_spec_len(&syntax.names); }', 'before'),
               (r'update_refs\(&mut syntax\)', 'proof { lem_boot(syntax.names@, rs0, syntax.rules@); lem_boot_term(syntax.names@, rs0, syntax.rules@); }', 'after')]
    c.hints.append((r'\bpush\(Arc::new\(vp_string\("multi_line_comment"\)\), (\w+)\);', r'proof { lem_tb(\1->Sequence_0.args@[2]); lem_tb((*(\1->Sequence_0.args@[2])->Repeat_0).rule); }', 'before each'))
    c.hints.append((r'\bpush\(Arc::new\(vp_string\((".*?")\)\), (\w+)\);', r'proof { assert(rw0(\2)); assert(tb(\2)); assert(lb(\2) <= nrank(\1@)); assert(nb(\2) ==> is_doc(\1@)); }', 'before each'))
    c.hints.append((r'\bpush\(Arc::new\(vp_string\((".*?")\)\), (\w+)\);', r'proof { lem_fb1(syntax.names@.last(), syntax.rules@.last()); assert(fbs(syntax.names@, syntax.rules@)); }', 'after each'))
    # the same for a name bound to a variable before
    c.hints.append((r'\bpush\((\w+), (\w+)\);', r'proof { assert(rw0(\2)); assert(tb(\2)); assert(lb(\2) <= nrank(sv(\1))); assert(nb(\2) ==> is_doc(sv(\1))); }', 'before each'))
    c.hints.append((r'\bpush\((\w+), (\w+)\);', r'proof { lem_fb1(syntax.names@.last(), syntax.rules@.last()); assert(fbs(syntax.names@, syntax.rules@)); }', 'after each'))
    #    c.hints.append((r'^\s*(__v\d+)$', r'proof { assert(tbs(\1@) && lbs(\1@) <= 3); }', 'before each'))
    f['rules'] = c
    spec = open(os.path.join(HERE, 'refs.rs')).read() + open(os.path.join(HERE, 'boot.rs')).read() + open(os.path.join(HERE, 'term.rs')).read() + open(os.path.join(HERE, 'termb.rs')).read()
    return Theory('boot', ['prelude_base.rs', 'rtspec.rs', 'vpstd.rs', 'parse_base.rs'], f, spec=spec)
