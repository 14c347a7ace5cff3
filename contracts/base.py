"""BASE: parsing never leaves the text, the tables or the vector; earlier tokens are kept; errors stay in the text (C18, C06, C08, C09)"""
from weave import C, L, Theory
from common import *
import rtc


def req(owner, tokens='tokens'):
    q = [('state within vector', 'state.0 <= old(%s)@.len()' % tokens), ('position representable', 'rtx(*read_token)')]
    if owner not in TERMINALS:
        q += [('rule well formed', WF[owner]), ('references well formed', 'wfr(refs@)')]
    return q


KEEP = 'keep(old(tokens)@, final(tokens)@, state.0 as int)'


def ens(owner, r='r'):
    return [
        ('C06 earlier tokens kept', KEEP),
        ('C06 state grows within the vector', 'r matches Ok(x) ==> state.0 <= x.1.0 <= final(tokens)@.len()'),
        ('C08 range starts here and covers whole characters', 'r matches Ok(x) ==> rng_ok(*read_token, x.0)'),
        ('C08 meta data written lies inside the range', 'r matches Ok(x) ==> toks_in(final(tokens)@, state.0 as int, x.1.0 as int, *read_token, x.0.length as int)'),
        ('C07 meta data written is well nested', 'r matches Ok(x) ==> bal(final(tokens)@, state.0 as int, x.1.0 as int)'),
        ('C09 kept error inside the text', 'r matches Ok(x) ==> oerr_in(x.2, *read_token)'),
        ('C09 error inside the text', 'r matches Err(e) ==> err_in(e, *read_token)'),
    ]


def ens_opt():
    return [
        ('C06 earlier tokens kept', KEEP),
        ('C06 state grows within the vector', 'state.0 <= r.1.0 <= final(tokens)@.len()'),
        ('C08 range starts here and covers whole characters', 'rng_ok(*read_token, r.0)'),
        ('C08 meta data written lies inside the range', 'toks_in(final(tokens)@, state.0 as int, r.1.0 as int, *read_token, r.0.length as int)'),
        ('C07 meta data written is well nested', 'bal(final(tokens)@, state.0 as int, r.1.0 as int)'),
        ('C09 kept error inside the text', 'oerr_in(r.2, *read_token)'),
    ]


SNAP = 'let ghost p_state = *state; let ghost p_rt = *read_token;'
LOOPINV = [
    ('position only moves over whole characters', 'adv(p_rt, read_token)'),
    ('state grows within the vector', 'p_state.0 <= state.0 <= tokens@.len()'),
    ('earlier tokens kept', 'keep(old(tokens)@, tokens@, p_state.0 as int)'),
    ('kept error inside the text', 'oerr_in(opt_error, p_rt)'),
    ('C08 meta data written lies in what was read', 'toks_in(tokens@, p_state.0 as int, state.0 as int, p_rt, read_token.offset - p_rt.offset)'),
    ('C07 meta data written is well nested', 'bal(tokens@, p_state.0 as int, state.0 as int)'),
]


def pick(c, tags):
    """drop clauses labelled for another theory"""
    f = lambda l: [(a, b) for a, b in l if not (a.startswith('C07') or a.startswith('C08 meta')) or a[:3] in tags]
    c.ens = f(c.ens)
    for k, l in c.loops.items():
        l.inv = f(l.inv)


def build(name, tags, group, files, pwi=''):
    f = {}
    f.update(RANGE)
    f.update(ERRS)
    f.update(rtc.trusted())
    f.update(READ_DATA)
    f['TokenizerState::new'] = C(ens=[('zero', 'r.0 == 0')])
    f['IndentSettings::default'] = C()
    for o in TERMINALS:
        f[o + '::parse'] = C(req=req(o), ens=ens(o), entry=SNAP + (' proof { reveal(err_in); reveal(rtx); }' if o == 'Text' else ''))
    f['Whitespace::parse'] = C(req=[('position representable', 'rtx(*read_token)')],
                               ens=[('C08 range starts here and covers whole characters', 'r matches Ok(x) ==> rng_ok(*read_token, x)'),
                                    ('C09 error inside the text', 'r matches Err(e) ==> err_in(e, *read_token)')])
    for o in ['Rule', 'FastSelect', 'Node', 'Not']:
        f[o + '::parse'] = C(req=req(o), ens=ens(o), entry=SNAP + (' proof { lem_wf(*self, refs@.len()); }' if o == 'Rule' else ''))
    f['Optional::parse'] = C(req=req('Optional'), ens=ens_opt(), entry=SNAP)
    for o in ['Sequence', 'Repeat', 'SeparateBy']:
        f[o + '::parse'] = C(req=req(o), ens=ens(o), entry=SNAP, loops={0: L(inv=LOOPINV)})
    f['Select::parse'] = C(req=req('Select'), ens=ens('Select'), entry=SNAP, loops={0: L(inv=[
        ('earlier tokens kept', 'keep(old(tokens)@, tokens@, p_state.0 as int)'),
        ('kept error inside the text', 'oerr_in(opt_error, p_rt)')])})
    linv = [
        ('driver position', '__ld.start == p_rt && adv(p_rt, __ld.cur)'),
        ('state grows within the vector', 'p_state.0 <= state.0 <= tokenizer@.len()'),
        ('earlier tokens kept', 'keep(old(tokenizer)@, tokenizer@, p_state.0 as int)'),
        ('kept error inside the text', 'oerr_in(opt_error, p_rt)'),
        ('C08 meta data written lies in what was read', 'toks_in(tokenizer@, p_state.0 as int, state.0 as int, p_rt, __ld.cur.offset - p_rt.offset)'),
        ('C07 meta data written is well nested', 'bal(tokenizer@, p_state.0 as int, state.0 as int)'),
    ]
    ll = L(inv=linv, eb=[('driver runs', '__ld.st == 0 || __ld.st == 2')], ens=[('driver done', '__ld.st >= 2')])
    lens = [(a, b.replace('tokens', 'tokenizer')) for a, b in ens('Lines')]
    f['Lines::parse'] = C(req=req('Lines', 'tokenizer'), ens=lens, entry=SNAP, loops={0: ll, 1: ll})
    creq = [('state within vector', 'old(state).0 <= old(tokenizer)@.len()'), ('position representable', 'rtx(*read_token)'),
            ('rule well formed', WF['Lines']), ('references well formed', 'wfr(refs@)'),
            ('kept error representable', 'eok(*old(opt_error))')]
    cens = [('C06 earlier tokens kept', 'keep(old(tokenizer)@, final(tokenizer)@, old(state).0 as int)'),
            ('C06 state grows within the vector', 'old(state).0 <= final(state).0 <= final(tokenizer)@.len()'),
            ('C08 range starts here and covers whole characters', 'r matches Some(x) ==> rng_ok(*read_token, x)'),
            ('C08 meta data written lies inside the range', 'r matches Some(x) ==> toks_in(final(tokenizer)@, old(state).0 as int, final(state).0 as int, *read_token, x.length as int)'),
            ('C06 state unchanged without a match', 'r is None ==> *final(state) == *old(state)'),
            ('C07 meta data written is well nested', 'bal(final(tokenizer)@, old(state).0 as int, final(state).0 as int)'),
            ('C09 error kept from the line or before', 'oerr_in(*final(opt_error), *read_token) || *final(opt_error) == *old(opt_error)')]
    li = [('position only moves over whole characters', 'adv(p_rt, read_token)')]
    lits = 'proof { reveal_strlit(" "); reveal_strlit("\\t"); }'
    f['Lines::parse::closure0'] = C(req=creq, ens=cens, entry='broadcast use {lem_starts_with, lem_boundary}; let ghost p_rt = *read_token; ' + lits, loops={
        0: L(inv=li),
        1: L(inv=li)})
    f['Lines::parse::closure1'] = C(req=creq, ens=cens, entry='let ghost p_rt = *read_token;')
    syn = [('syntax well formed', 'wfr(rules.rules@)'), ('text representable', 'blen(text@) <= isize::MAX && src_ok(text@)')]
    pens = [('C06 earlier tokens kept', 'keep(old(tokens)@, final(tokens)@, old(tokens)@.len() as int)'),
            ('C09 error inside the text', 'r matches Err(e) ==> end_of(e) <= blen(text@)'),
            ('C07 meta data added to an accepted document is well nested', 'r is Ok ==> bal(final(tokens)@, old(tokens)@.len() as int, final(tokens)@.len() as int)'),
            ('C08 meta data ranges lie in the text on character boundaries', 'r is Ok ==> forall|i: int| old(tokens)@.len() <= i < final(tokens)@.len() ==> final(tokens)@[i].offset + final(tokens)@[i].length <= blen(text@) && boundary(text@, #[trigger] final(tokens)@[i].offset as int) && boundary(text@, final(tokens)@[i].offset + final(tokens)@[i].length)')]
    f['parse_with_indent'] = C(req=syn, ens=pens, entry='proof { lem_str_len(text@); lem_boundary_zero(text@); reveal(rtx); reveal(rng_ok); reveal(err_in); ' + pwi + '} broadcast use lem_boundary;', loops={0: L(inv=[('count', '__c0 <= __i0')])})
    f['parse_with_indent'].min_loops = 0
    f['parse'] = C(req=syn, ens=pens)
    for c in f.values():
        pick(c, tags)
    return Theory(name, ['prelude_base.rs', 'rtspec.rs', 'vpstd.rs', 'parse_base.rs'] + files, f, group='broadcast use {grp_parse%s};' % group)


def theory():
    return build('base', (), '', [])
