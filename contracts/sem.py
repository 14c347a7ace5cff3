"""SEM: rules mean what the reference meaning says (C01-C05; with errors: C09)"""
from weave import C, L, Theory
from common import *
import base, os

OWNER = {'Rule': 'C02', 'Sequence': 'C02', 'Select': 'C02', 'FastSelect': 'C02,C10', 'Optional': 'C02', 'Not': 'C02', 'Node': 'C02',
         'Repeat': 'C03', 'SeparateBy': 'C03', 'Lines': 'C05', 'Tag': 'C04', 'Text': 'C04', 'Number': 'C04', 'UntilAny': 'C04',
         'UntilAnyOrWhitespace': 'C04', 'Whitespace': 'C04'}
TERM = {'Tag': 'tag_out(*self, pof(*read_token))', 'Text': 'text_out(*self, pof(*read_token))', 'Number': 'num_out(*self, pof(*read_token))',
        'UntilAny': 'until_out(pof(*read_token), until_len(read_token.src@, sv(self.any_characters)), self.optional, self.property, self.debug_id)',
        'UntilAnyOrWhitespace': 'until_out(pof(*read_token), until_ws_len(read_token.src@, sv(self.any_characters)), self.optional, self.property, self.debug_id)'}


def cfg0(o, rt, ind, g):
    p = 'pof(%s)' % rt
    return {
        'Rule': 'Cfg::R(*self, %s, %s)' % (p, ind),
        'Sequence': 'Cfg::Seq(self.args@, 0, m_start(%s, %s))' % (p, ind),
        'Select': 'Cfg::Sel(self.args@, 0, %s, %s, None, self.debug_id)' % (p, ind),
        'FastSelect': 'Cfg::Fs(*self, %s, %s)' % (p, ind),
        'Optional': 'Cfg::Opt(*self, %s, %s)' % (p, ind),
        'Not': 'Cfg::Not(*self, %s, %s)' % (p, ind),
        'Node': 'Cfg::Node(*self, %s, %s)' % (p, ind),
        'Repeat': 'Cfg::Rep(self.rule, self.optional, true, m_start(%s, %s))' % (p, ind),
        'SeparateBy': 'Cfg::SepR(*self, true, m_start(%s, %s))' % (p, ind),
        'Lines': 'Cfg::Lns(*self, true, self.indent && %s.align, m_start(%s, %s))' % (g, p, ind),
    }[o]


ACC = 'm_acc(read_token, p_rt, tokens@, p_state.0 as int, state.0 as int, indent_settings.indent as int, opt_error)'
LOOPCFG = {
    'Sequence': 'Cfg::Seq(self.args@, __i0 as int, %s)' % ACC,
    'Repeat': 'Cfg::Rep(self.rule, self.optional, first, %s)' % ACC,
    'SeparateBy': 'Cfg::SepR(*self, first, %s)' % ACC,
    'Select': 'Cfg::Sel(self.args@, __i0 as int, pof(p_rt), indent_settings.indent as int, erase(oev(opt_error)), self.debug_id)',
}
LDACC = 'm_acc(__ld.cur, p_rt, tokenizer@, p_state.0 as int, state.0 as int, indent_settings.indent as int, opt_error)'


def tag(err, o):
    return 'C09' if err else OWNER[o]


def build(name, err):
    th = base.build(name, (), ', grp_sem', [])
    f = th.fns
    what = 'reports the deepest error' if err else 'means what the reference meaning says'
    for o, spec in TERM.items():
        c = f[o + '::parse']
        c.ens.append((('C09 ' if err else 'C04 ') + o + ' reads and writes exactly what it describes', 'm_res(r, final(tokens)@, state.0 as int, 0) == ' + spec))
        pass
    f['Whitespace::parse'].ens.append((('C09 ' if err else 'C04 ') + 'Whitespace reads exactly the white space',
        'ws_out(*self, pof(*read_token)) == match r { Ok(x) => oko(x.length as int, Seq::empty(), 0), Err(e) => failo(0, Some(aev(e))) }'))
    G0 = 'gof(refs@, *old(indent_settings))'
    FRAME = [('C05 indentation settings kept', 'final(indent_settings).tab_spaces == old(indent_settings).tab_spaces && final(indent_settings).align_first == old(indent_settings).align_first')]
    for o in ['Rule', 'FastSelect', 'Node', 'Not', 'Optional', 'Sequence', 'Repeat', 'SeparateBy', 'Select', 'Lines']:
        c = f[o + '::parse']
        tk = 'tokenizer' if o == 'Lines' else 'tokens'
        rr = 'Ok(r)' if o == 'Optional' else 'r'
        lab = '%s %s %s' % (tag(err, o), o, what)
        c.ens += [(lab, 'lim(%s, %s) == Some(m_res(%s, final(%s)@, state.0 as int, final(indent_settings).indent as int))' % (
            G0, cfg0(o, '*read_token', 'old(indent_settings).indent as int', G0), rr, tk))] + FRAME
        if not err:
            c.ens.append(('C06 %s leaves exactly the meta data of the successful path' % o, 'leaves(lim(%s, %s), m_res(%s, final(%s)@, state.0 as int, final(indent_settings).indent as int))' % (
                G0, cfg0(o, '*read_token', 'old(indent_settings).indent as int', G0), rr, tk)))
        c.entry += ' let ghost g = gof(refs@, *indent_settings); let ghost p_ind = *indent_settings; let ghost c0 = %s;' % cfg0(o, '*read_token', 'indent_settings.indent as int', 'g')
        c.entry += ' proof { lem_unfold(g, c0);'
        if o == 'FastSelect':
            c.entry += ' lem_unfold_fst(g, self.args@, pof(*read_token));'
        if o == 'SeparateBy':
            c.entry += ' lem_unfold_sepb(g, *self);'
        c.entry += ' }'
        if o in LOOPCFG:
            l = f[o + '::parse'].loops[0]
            l.inv = list(l.inv) + [(lab, 'one_step(g, %s) == lim(g, c0)' % LOOPCFG[o]),
                                   ('C05 indentation settings kept', 'indent_settings.tab_spaces == p_ind.tab_spaces && indent_settings.align_first == p_ind.align_first')]
            l.end = 'proof { lem_unfold(g, %s); }' % LOOPCFG[o]
    c = f['Lines::parse']
    lab = '%s Lines %s' % (tag(err, 'Lines'), what)
    for k in (0, 1):
        fix = 'first && indent_settings.align_first' if k == 0 else 'false'
        cfg = 'Cfg::Lns(*self, __ld.nl, %s, %s)' % (fix, LDACC)
        l = L(inv=list(c.loops[k].inv) + [
            (lab, '__ld.st == 0 ==> one_step(g, %s) == lim(g, c0)' % cfg),
            (lab, '__ld.st == 2 ==> lim(g, c0) == Some(m_fin(%s))' % LDACC),
            (lab, '__ld.st == 3 ==> lim(g, c0) == Some(failo(indent_settings.indent as int, afinal(here(pof(__ld.cur), 0, EK::Nl(self.debug_id)), oev(opt_error))))'),
            ('C05 indentation settings kept', 'indent_settings.tab_spaces == p_ind.tab_spaces && indent_settings.align_first == p_ind.align_first')],
            eb=c.loops[k].eb, ens=c.loops[k].ens,
            end='proof { lem_unfold(g, %s); }' % cfg)
        c.loops[k] = l
    errc = [(lab, 'oev(*final(opt_error)) == amerge(o.err, oev(*old(opt_error)))')] if err else []
    G1 = 'gof(refs@, *old(indent_settings))'
    common = '''
            &&& o.ok == (r is Some)
            &&& r is Some ==> r.unwrap().length == n + o.len && tview(final(tokenizer)@, old(state).0 as int, final(state).0 as int) == o.toks
            &&& final(indent_settings).indent == %s'''
    if err:
        common += '\n            &&& oev(*final(opt_error)) == amerge(o.err, oev(*old(opt_error)))'
    c0 = f['Lines::parse::closure0']
    c0.ens += [(lab, '''match m_head(read_token.src@, old(indent_settings).indent as int, *old(first) && old(indent_settings).align_first, old(indent_settings).tab_spaces as int) {
        None => r is None && *final(opt_error) == *old(opt_error) && final(indent_settings).indent == old(indent_settings).indent,
        Some((n, lv)) => {
            let t = lim(%s, Cfg::R(self.rule, m_at(pof(*read_token), n), sat(lv + 1)));
            let o = t.unwrap();
            &&& t is Some%s
        } }''' % (G1, common % 'lv')), ('C05 the first line is over', 'r is Some ==> !(*final(first) && old(indent_settings).align_first)')] + FRAME
    c0.req.append(('indented', 'self.indent'))
    c0.entry += ' let ghost p_ind = *indent_settings; let ghost tab = indent_settings.tab_spaces as int; broadcast use vstd::string::axiom_str_literal_len; proof { assert(" "@ =~= seq![\' \']); assert("\\t"@ =~= seq![\'\\t\']); reveal(adv); assert forall|s: Seq<char>| (#[trigger] starts_with(s, " "@)) == (s.len() > 0 && s[0] == \' \') by { lem_sw1(s, \' \'); } }'
    STRIP = 'm_strip(p_rt.src@, p_ind.indent as int, tab)'
    sw = 'proof { lem_sw1(read_token.src@, \' \'); lem_sw1(read_token.src@, \'\\t\'); reveal(adv); }'
    c0.loops[0] = L(inv=list(c0.loops[0].inv) + [('C05 settings', '*indent_settings == p_ind')],
                    eb=[('C05 indentation is counted from the line start', STRIP + ' == match m_strip(read_token.src@, n as int, tab) { Some(m) => Some(m + (read_token.offset - p_rt.offset)), None => None }')],
                    ens=[('C05 the indentation of the level is read', STRIP + ' == Some(read_token.offset - p_rt.offset)')], start=sw)
    c0.loops[1] = L(inv=list(c0.loops[1].inv) + [
                        ('C05 settings', 'indent_settings.tab_spaces == p_ind.tab_spaces && indent_settings.align_first == p_ind.align_first && adv(p_rt1, read_token)'),
                        ('C05 further indentation is added to the level', '''({ let (m, l) = m_deeper(read_token.src@, tab); let (m0, l0) = m_deeper(p_rt1.src@, tab); m0 == m + (read_token.offset - p_rt1.offset) && l0 >= l && indent_settings.indent == sat(p_ind.indent + l0 - l) })''')],
                    ens=list(c0.loops[1].ens) + [('C05 all further indentation is read', 'm_deeper(read_token.src@, tab) == (0int, 0int)')],
                    start=c0.loops[1].start + ' ' + sw, before='let ghost p_rt1 = read_token;')
    c1 = f['Lines::parse::closure1']
    c1.ens += [(lab, '''({
            let n = 0int;
            let t = lim(%s, Cfg::R(self.rule, pof(*read_token), old(indent_settings).indent as int));
            let o = t.unwrap();
            &&& t is Some%s
        })''' % (G1, common % 'o.ind'))] + FRAME
    f['IndentSettings::default'] = C(ens=[('C01 default indentation settings', 'r.indent == 0 && r.align_first && r.tab_spaces == 4')])
    for o, ind in (('parse_with_indent', '(*indent_settings)'), ('parse', '(IndentSettings { indent: 0, align_first: true, tab_spaces: 4 })')):
        c = f[o]
        out = '''lim(gof(rules.rules@, %s), Cfg::R(rules.rules@.last(), P { src: text@, off: 0 }, %s.indent as int))''' % (ind, ind)
        if not err:
            c.ens += [('C01 accepted exactly when the last rule reads the whole text', 'r is Ok <==> (rules.rules@.len() > 0 && (%s matches Some(o) && o.ok && o.len == blen(text@)))' % out),
                      ('C01 meta data of the match is appended', 'r is Ok ==> tview(final(tokens)@, old(tokens)@.len() as int, final(tokens)@.len() as int) == %s.unwrap().toks' % out)]
            if o == 'parse':
                c.ens.append(('C01 an empty list is filled with the meta data of the document', 'r is Ok && old(tokens)@.len() == 0 ==> accepted(rules.rules@, text@, final(tokens)@)'))
        else:
            c.ens += [('C09 the deepest error is reported', """r matches Err(e) ==> if rules.rules@.len() == 0 { aev(e) == (AE { off: 0, len: 0, k: EK::NoRules }) } else { (%s matches Some(o)
                && Some(aev(e)) == (if o.ok { afinal(Some(AE { off: o.len, len: 0, k: EK::End }), o.err) } else { o.err })) }""" % out)]
    f['parse_with_indent'].entry += ' proof { reveal(adv); }'
    if not err:
        f['parse_with_indent'].entry += ' broadcast use lem_tv_trunc;'
    return th


def text(err):
    s = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sem.rs')).read()
    out = []
    for l in s.split('\n'):
        if l.rstrip().endswith('//E'):
            if err:
                out.append(l)
        elif l.strip().startswith('//N '):
            if not err:
                out.append(l.replace('//N ', ''))
        else:
            out.append(l)
    return '\n'.join(out)


def theory(err=False):
    th = build('err' if err else 'sem', err)
    th.spec = text(err)
    return th
