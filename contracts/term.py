"""TERM: parsing finishes when nothing repeats and no rule reaches itself without reading (C20)"""
from weave import C, L, Theory
from common import *
import base

LAB = 'C20 '
RULE = {'Rule': '*self', 'Select': 'Rule::Select(*self)', 'Sequence': 'Rule::Sequence(*self)'}
LK = {
    'Rule': 'lk(G, *self)', 'Select': 'lkm(G, self.args, 0)', 'FastSelect': 'lkm(G, self.args, 0)', 'Sequence': 'lks(G, self.args, 0)',
    'SeparateBy': 'mx(lk(G, self.rule), if nl(G, self.rule) { lk(G, self.by) } else { 0 })',
    'Repeat': 'lk(G, self.rule)', 'Lines': 'lk(G, self.rule)', 'Optional': 'lk(G, self.rule)', 'Not': 'lk(G, self.rule)',
    'Node': '2 * (G.rank)(*self) + 1',     # of the node itself: below 2 * lk of the rule
}
TK = {
    'Rule': 'tk(G, *self)', 'Select': 'tks(G, self.args@)', 'FastSelect': 'tks(G, self.args@)', 'Sequence': 'tks(G, self.args@)',
    'SeparateBy': 'tk(G, self.rule) && tk(G, self.by) && !(nl(G, self.rule) && nl(G, self.by))',
    'Repeat': 'tk(G, self.rule) && !nl(G, self.rule)', 'Lines': 'tk(G, self.rule)', 'Optional': 'tk(G, self.rule)', 'Not': 'tk(G, self.rule)',
}
NL = {
    'Rule': 'nl(G, *self)', 'Select': 'nlm(G, self.args@)', 'FastSelect': 'nlm(G, self.args@)', 'Sequence': 'nls(G, self.args@)',
    'SeparateBy': 'self.optional || nl(G, self.rule)', 'Repeat': 'self.optional',
    'Node': '(G.nul)(*self)',
    'Tag': 'self.not || blen(sv(self.text)) == 0', 'Text': 'false', 'Number': 'false', 'UntilAny': 'self.optional', 'UntilAnyOrWhitespace': 'self.optional',
}
GX = 'gr(refs@)'


def g(s):
    return s.replace('G,', GX + ',').replace('G.', GX + '.')


def theory():
    th = base.build('term', (), ', grp_term', ['term.rs', 'termp.rs'])
    f = th.fns
    for k, c in f.items():
        if not c.trusted:
            c.nodec = False
    f['Whitespace::parse'].ens.append((LAB + 'nothing is read only where that is allowed', 'r matches Ok(x) ==> x.length == 0 ==> self.optional'))
    for o in NL:
        f[o + '::parse'].ens.append((LAB + 'nothing is read only where that is allowed', 'r matches Ok(x) ==> x.0.length == 0 ==> (' + g(NL[o]) + ')'))
    f['Number::parse'].entry += ' proof { reveal(num_len); }'
    for o in LK:
        c = f[o + '::parse']
        c.req.append((LAB + 'no rule reaches itself without reading', 'graded(refs@)'))
        if o in TK:
            c.req.append((LAB + 'nothing repeats without reading', g(TK[o])))
        c.dec = 'rem(*read_token), %s, *self, 1int' % g(LK[o] if o == 'Node' else '2 * ' + LK[o])
        c.entry += ' let ghost g = gr(refs@); proof { lem_gr(refs@); }'
    f['Node::parse'].entry += ' proof { if self.index is Some { assert(fits(g, refs@[self.index.unwrap() as int], self.index.unwrap() as int)); } }'
    f['Rule::parse'].entry += ' proof { lem_term(g, *self); }'
    at = 'read_token.offset == p_rt.offset ==> '
    c = f['Sequence::parse']
    l = c.loops[0]
    l.inv = list(l.inv) + [
        (LAB + 'only rules that may read nothing were passed', at + 'lks(g, self.args, __i0 as int) <= lks(g, self.args, 0) && forall|j: int| 0 <= j < __i0 ==> nl(g, #[trigger] self.args@[j])')]
    l.dec = 'self.args@.len() - __i0'
    l.start = (l.start or '') + ' proof { lem_lks(g, self.args, __i0 as int); }'
    c = f['Select::parse']
    c.entry += ' proof { lem_lkm(g, self.args, 0); }'
    c.loops[0].dec = 'self.args@.len() - __i0'
    f['FastSelect::parse'].entry += ' proof { lem_lkm(g, self.args, 0); }'
    c = f['Repeat::parse']
    c.loops[0].inv = list(c.loops[0].inv) + [(LAB + 'each repetition reads', at + 'first')]
    c.loops[0].ens = [(LAB + 'each repetition reads', at + 'self.optional')]
    c.loops[0].dec = 'rem(read_token)'
    c = f['SeparateBy::parse']
    c.loops[0].inv = list(c.loops[0].inv) + [(LAB + 'each repetition reads', '!first ==> read_token.offset > p_rt.offset')]
    c.loops[0].ens = [(LAB + 'each repetition reads', at + 'self.optional || nl(g, self.rule)')]
    c.loops[0].dec = 'rem(read_token)'
    c = f['Lines::parse']
    for k in (0, 1):
        l = c.loops[k]
        c.loops[k] = L(inv=l.inv, eb=l.eb, ens=l.ens, dec='d_more(__ld), rem(__ld.cur), d_nl(__ld)',
                       start='let ghost p_ld = __ld; proof { lem_lnext_call(p_ld.cur.src@, p_ld.nl, 0, 0); reveal_with_fuel(ends_nl, 1); lem_btake0(p_ld.cur.src@); }')
    for k in ('closure0', 'closure1'):
        c = f['Lines::parse::' + k]
        c.req += [(LAB + 'no rule reaches itself without reading', 'graded(refs@)'), (LAB + 'nothing repeats without reading', g(TK['Lines']))]
        c.dec = 'rem(*read_token), 2 * %s, *self, 0int' % g(LK['Lines'])
        c.entry += ' let ghost g = gr(refs@); proof { lem_gr(refs@); }'
    f['Lines::parse::closure0'].entry += ' proof { reveal_with_fuel(blen, 2); assert(blen(" "@) == 1 && blen("\\t"@) == 1); }'
    for l in f['Lines::parse::closure0'].loops.values():
        l.dec = 'rem(read_token)'
    for o in ('parse', 'parse_with_indent'):
        c = f[o]
        c.req.append((LAB + 'no rule reaches itself and nothing repeats without reading', 'graded(rules.rules@)'))
    f['parse_with_indent'].entry += ' proof { lem_gr(rules.rules@); let k = rules.rules@.len() - 1; if k >= 0 { assert(fits(gr(rules.rules@), rules.rules@[k], k)); } }'
    return th
