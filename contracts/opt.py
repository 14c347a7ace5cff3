"""OPT: an optimized syntax means the same (C10)"""
from weave import C, L, Theory
from common import *
import sem

WFQ = [('rule well formed', 'wf(*rule, refs@.len())'), ('references well formed', 'wfr(refs@)')]
NOT = ' proof { lem_wf_not(*rule, refs@.len()); }'
FBE = [('C10 a first byte is only reported for rules that fail on every other', 'r matches Some(b) ==> fb(refs@, *rule, b as int)')]


def theory():
    f = {}
    ent = 'proof { lem_wf(*rule, refs@.len()); lem_fb_all(refs@, *rule); }'
    f['unique_byte_within'] = C(req=WFQ, ens=FBE, entry=ent + NOT, dec='depth, rule', nodec=False)
    f['unique_byte'] = C(req=WFQ, ens=FBE, nodec=False)
    f['unique_table_from_select'] = C(
        req=[('rules well formed', 'wfs(select.args@, refs@.len())'), ('references well formed', 'wfr(refs@)')],
        ens=[('C10 the table sends each byte to the only rule that may start with it', 'tab_ok(refs@, select.args@, r.1 as int, r.0)'), ('index within the rules', 'r.1 <= select.args@.len()')], nodec=False,
        loops={0: L(inv=[('C10 the table sends each byte to the only rule that may start with it', 'tab_ok(refs@, select.args@, unique_up_to as int, data)'), ('index within the rules', 'unique_up_to <= select.args@.len()')],
                    eb=[('every rule so far has an entry', 'unique_up_to == __i0')], dec='select.args@.len() - __i0',
                    before='proof { lem_tab_new(refs@, select.args@, data); }')})
    f['unique_table_from_select'].hints = [(r'data\[b as usize\] = ', 'proof { reveal(tab_ok); } let ghost p_data = data;', 'before'),
                                           (r'data\[b as usize\] = ', 'proof { lem_tab_add(refs@, select.args@, i as int, p_data, b as int, data); }', 'after')]
    def mp(seqx, c, i, d='0'):
        return L(inv=[('C10 sub rules are optimized in order', '%s.len() == %s - %s && %s <= %s <= %s.len() && forall|k: int| %s <= k < %s ==> sim(refs@, #[trigger] %s[k], %s[k - %s])' % (c, i, d, d, i, seqx, d, i, seqx, c + '@', d))],
                 dec='%s.len() - %s' % (seqx, i))
    S = 'sel.args@'
    f['optimize_rule'] = C(req=WFQ, ens=[('C10 the result only replaces selections by table lookups', 'sim(refs@, *rule, r)')],
        entry='broadcast use lem_sim_refl; proof { lem_wf(*rule, refs@.len()); lem_sim_all(refs@, *rule); }', dec='rule', nodec=False,
        loops={0: mp('seq.args@', '__c0', '__i0'), 1: mp(S, '__c1', '__i1', '1'), 2: mp(S, '__c2', '__i2'),
               3: L(inv=[('C10 sub rules are optimized in order', '__c3.len() == __i3 && __i3 <= unique_up_to && forall|k: int| 0 <= k < __i3 ==> sim(refs@, #[trigger] sel.args@[k], __c3@[k])')], dec='unique_up_to - __i3'),
               4: L(inv=[('C10 sub rules are optimized in order', '__c4.len() == __i4 && __i4 <= sel.args@.len() - unique_up_to && forall|k: int| unique_up_to <= k < unique_up_to + __i4 ==> sim(refs@, #[trigger] sel.args@[k], __c4@[k - unique_up_to])')], dec='sel.args@.len() - unique_up_to - __i4')})
    f['Syntax::optimize'] = C(req=[('syntax well formed', 'wfr(self.rules@)')],
        ens=[('C10 names are kept', 'r.names == self.names'), ('C10 one rule for each rule', 'r.rules@.len() == self.rules@.len()'),
             ('C10 every rule reads every text as before', 'same_meaning(self.rules@, r.rules@)'), ('C10 tables and references stay in range', 'wfr(r.rules@)')],
        nodec=False,
        loops={0: L(inv=[('C10 every rule is optimized', '__c0.len() == __i0 && __i0 <= self.rules@.len() && forall|k: int| 0 <= k < __i0 ==> sim(self.rules@, #[trigger] self.rules@[k], __c0@[k])')],
                    dec='self.rules@.len() - __i0')})
    f['Syntax::optimize'].ens.append(('C20 an optimized syntax still finishes', 'graded(self.rules@) ==> graded(r.rules@)'))
    f['Syntax::optimize'].hints = [(r'^\s*Syntax \{', 'proof { lem_opt(self.rules@, new_rules@); if graded(self.rules@) { lem_graded_opt(self.rules@, new_rules@); } }', 'before')]
    import os
    here = os.path.dirname(os.path.abspath(__file__))
    spec = sem.text(False) + '\n' + ''.join(open(os.path.join(here, x)).read() for x in ('opt.rs', 'term.rs', 'termo.rs'))
    return Theory('opt', ['prelude_base.rs', 'rtspec.rs', 'vpstd.rs', 'parse_base.rs'], f, spec=spec, group='broadcast use grp_parse;')
