"""CONV: conversion of meta data to rules (C11, C12)"""
from weave import C, L, Theory
import os, re
import cursor, refs

HERE = os.path.dirname(os.path.abspath(__file__))
NAMES = ['sequence', 'select', 'until_any_or_whitespace', 'until_any', 'tag', 'whitespace', 'text', 'number', 'reference', 'optional', 'not', 'separated_by', 'lines', 'repeat',
         'node', 'any_characters', 'property', 'rule', 'by', 'allow_trail', 'inverted', 'allow_empty', 'underscore', 'name', 'id', 'ref', 'value', 'string', 'indent']
KINDS = ['Sequence', 'Select', 'UntilAnyOrWs', 'UntilAny', 'Tag', 'Ws', 'Text', 'Number', 'Reference', 'Optional', 'Not', 'Sep', 'Lines', 'Repeat']


def names_lemma():
    out = ['pub proof fn lem_names()', '    ensures']
    for n, k in zip(NAMES, KINDS):
        out.append('        kind_of("%s"@) == DK::%s,' % (n, k))
    out.append('        forall|n: Seq<char>| #![trigger kind_of(n)] ' + ' && '.join('(kind_of(n) is %s ==> n == "%s"@)' % (k, n) for n, k in zip(NAMES, KINDS)) + ',')
    out.append('        "any_characters"@ != "property"@, "any_characters"@ != "text"@, "text"@ != "property"@, "rule"@ != "by"@,')
    out.append('        "optional"@ != "allow_trail"@, "not"@ != "inverted"@, "not"@ != "optional"@, "inverted"@ != "optional"@, "allow_empty"@ != "optional"@, "underscore"@ != "optional"@,')
    out.append('        "allow_empty"@ != "allow_trail"@, "allow_empty"@ != "not"@, "allow_empty"@ != "inverted"@, "underscore"@ != "allow_trail"@, "underscore"@ != "not"@, "underscore"@ != "inverted"@, "underscore"@ != "allow_empty"@,')
    out.append('        "not"@ != "allow_trail"@, "inverted"@ != "allow_trail"@,')
    out.append('{')
    for n in NAMES:
        out.append('    reveal_strlit("%s");' % n)
    # a distinguishing character for every pair of equal length
    for i, a in enumerate(NAMES):
        for b in NAMES[i + 1:]:
            if len(a) == len(b):
                k = [x != y for x, y in zip(a, b)].index(True)
                out.append('    assert("%s"@[%d] != "%s"@[%d]);' % (a, k, b, k))
            else:
                out.append('    assert("%s"@.len() != "%s"@.len());' % (a, b))
    out.append('}')
    return '\n'.join(out)


CUR = [('cursor end representable', 'cur_ok(convert)')]
NOID = [('C11 the counter has room', '*old(debug_id) + convert.data@.len() <= usize::MAX')]


def rule_reader(k, f, strs=True, extra_inv=(), hints=(), more=''):
    """f: the fields read so far, in terms of the locals"""
    st = 'strv(strings@)' if strs else 'Seq::empty()'
    ig = 'old(ignored)@' if strs else 'Seq::empty()'
    o = 's_one(DK::%s, convert.data@, convert.offset as int, %s, *old(debug_id) as int, %s)' % (k, st, ig)
    ens = [('C12 succeeds exactly on a description', 'r is Ok <==> %s.ok' % o),
           ('C12 the rule described', 'r matches Ok(x) ==> rv(x.1) == %s.r' % o),
           ('C12 range of the description', 'r matches Ok(x) ==> x.0.offset == convert.offset && x.0.offset + x.0.length == %s.off' % o),
           ('C12 debug ids', '*final(debug_id) == %s.id' % o),
           ('C11 a description is one whole node', 'r matches Ok(x) ==> x.0.length == ext(convert.data@, 0) && 0 < x.0.length <= convert.data@.len()'),
           ('C11 ids grow no faster than the data is read', '*old(debug_id) <= *final(debug_id) <= *old(debug_id) + ext(convert.data@, 0)')]
    ens.append(('C19 nothing is resolved before all rules are known', 'r matches Ok(x) ==> raw(x.1)'))
    ens.append(('C12 anything else is left alone', 'kind_at(convert.data@) != DK::%s ==> r is Err && *final(debug_id) == *old(debug_id)%s' % (k, ' && final(ignored)@ == old(ignored)@' if strs else '')))
    if strs:
        ens.insert(4, ('C12 what is ignored is reported', 'final(ignored)@ == %s.ign' % o))
    c = C(req=CUR + [('C11 the counter has room', 'kind_at(convert.data@) == DK::%s ==> *old(debug_id) + convert.data@.len() <= usize::MAX' % k)], ens=ens, dec='convert.data@.len()', nodec=False,
          entry='proof { ax_eq(); lem_names(); lem_s_one(DK::%s, convert.data@, convert.offset as int, %s, *debug_id as int, %s); reveal_with_fuel(rv, 1); reveal_with_fuel(wf, 1); lem_ext_in(convert.data@.skip(1)); lem_ext_len(convert.data@, 0); }\nlet ghost c0 = convert; let ghost id0_ = *debug_id;' % (k, st, ig.replace('old(ignored)@', 'ignored@')) + more)
    if f is not None:
        ini = 's_loop(DK::%s, c0.data@.skip(1), c0.offset + 1, %s, id0_ as int, old(ignored)@, f0())' % (k, st)
        cur = 's_loop(DK::%s, convert.data@, convert.offset as int, %s, *debug_id as int, ignored@, %s)' % (k, st, f)
        c.loops = {0: L(
            eb=[('C12 the rest of the node', '%s == %s' % (ini, cur)),
                ('C11 inside the node', 'ext(c0.data@, 0) == (convert.offset - c0.offset) + ext(convert.data@, 1)')],
            inv=[('C11 cursor', 'cur_ok(convert) && c0.offset < convert.offset && convert.offset + convert.data@.len() == c0.offset + c0.data@.len()'),
                 ('C11 counter', 'id0_ <= *debug_id <= id0_ + (convert.offset - c0.offset) - 1')] + list(extra_inv),
            ens=[('C12 the node is read', '%s == (LO { ok: true, off: convert.offset as int, id: *debug_id as int, ign: ignored@, f: %s })' % (ini, f)),
                 ('C11 the whole node', 'ext(c0.data@, 0) == convert.offset - c0.offset')],
            dec='convert.data@.len()',
            start='proof { lem_s_loop(DK::%s, convert.data@, convert.offset as int, %s, *debug_id as int, ignored@, %s); lem_ext_in(convert.data@); lem_names(); }' % (k, st, f))}
    c.hints = list(hints)
    return c


def contracts():
    f = cursor.contracts()
    rf = refs.theory().fns
    f['Rule::update_refs'] = rf['Rule::update_refs']
    f['update_refs'] = rf['update_refs']
    f['find_string'] = C(ens=[('C12 the first string of that name', 'ov(r) == find_str(strv(strings@), val@, 0)')], nodec=False, entry='proof { ax_eq(); }',
        loops={0: L(inv=[('C12 searching', '__i0 <= strings@.len()')],
                    eb=[('nothing yet', '__c0 is None'), ('C12 not found so far', 'find_str(strv(strings@), val@, 0) == find_str(strv(strings@), val@, __i0 as int)')],
                    ens=[('C12 first', 'find_str(strv(strings@), val@, 0) == (match __c0 { Some(e) => Some(svp(e)), None => None })')], dec='strings@.len() - __i0')})
    f['read_set'] = C(req=CUR, ens=[
        ('C12 the text of the property', 'match r { Ok(x) => s_set(property@, convert.data@, strv(strings@)) == Some((x.0.length as int, sv(x.1))) && x.0.offset == convert.offset, Err(_) => s_set(property@, convert.data@, strv(strings@)) is None }'),
        ('C11 a property is one whole node', 'r matches Ok(x) ==> x.0.length == ext(convert.data@, 0) && 0 < x.0.length <= convert.data@.len()')],
        entry='proof { ax_eq(); lem_ext_in(convert.data@.skip(1)); lem_ext_len(convert.data@, 0); }\nlet ghost c0 = convert;', nodec=False,
        loops={0: L(inv=[('C11 cursor', 'cur_ok(convert) && c0.offset < convert.offset && convert.offset + convert.data@.len() == c0.offset + c0.data@.len()')],
                    eb=[('C12 the rest of the property', 's_set(property@, c0.data@, strv(strings@)) == s_setl(property@, convert.data@, strv(strings@), ov(text), convert.offset - c0.offset)'),
                        ('C11 inside the node', 'ext(c0.data@, 0) == (convert.offset - c0.offset) + ext(convert.data@, 1)')],
                    ens=[('C12 the property is read', 's_set(property@, c0.data@, strv(strings@)) == (match ov(text) { Some(t) => Some((convert.offset - c0.offset, t)), None => None })'),
                         ('C11 the whole node', 'ext(c0.data@, 0) == convert.offset - c0.offset')],
                    dec='convert.data@.len()', start='proof { lem_setl(property@, convert.data@, strv(strings@), ov(text), convert.offset - c0.offset); lem_ext_in(convert.data@); }')})
    f['read_string'] = C(req=CUR, ens=[
        ('C12 name and text of the string', 'match r { Ok(x) => s_str(convert.data@) == Some((x.0.length as int, sv(x.1.0), sv(x.1.1))) && x.0.offset == convert.offset, Err(_) => s_str(convert.data@) is None }'),
        ('C11 reads something', 'r matches Ok(x) ==> 0 < x.0.length <= convert.data@.len()')],
        entry='proof { ax_eq(); }\nlet ghost c0 = convert;', nodec=False,
        loops={0: L(inv=[('C11 cursor', 'cur_ok(convert) && c0.offset < convert.offset && convert.offset + convert.data@.len() == c0.offset + c0.data@.len()')],
                    eb=[('C12 the rest of the string', 's_str(c0.data@) == s_strl(convert.data@, ov(name), ov(text), convert.offset - c0.offset)')],
                    ens=[('C12 the string is read', 's_str(c0.data@) == (match (ov(name), ov(text)) { (Some(a), Some(b)) => Some((convert.offset - c0.offset, a, b)), _ => None })')],
                    dec='convert.data@.len()', start='proof { lem_strl(convert.data@, ov(name), ov(text), convert.offset - c0.offset); }')})
    uany = 'F { any: ov(any_characters), opt: optional, prop: ov(property), ..f0() }'
    f['read_until_any_or_whitespace'] = rule_reader('UntilAnyOrWs', uany)
    f['read_until_any'] = rule_reader('UntilAny', uany)
    f['read_tag'] = rule_reader('Tag', 'F { text: ov(text), prop: ov(property), not: not, inv: inverted, ..f0() }')
    f['read_whitespace'] = rule_reader('Ws', None, strs=False)
    f['read_text'] = rule_reader('Text', 'F { empty: allow_empty, prop: ov(property), ..f0() }')
    f['read_number'] = rule_reader('Number', 'F { und: underscore, prop: ov(property), ..f0() }')
    f['read_reference'] = rule_reader('Reference', 'F { name: ov(name), prop: ov(property), ..f0() }')
    args = 'F { rules: rvs(args@), ..f0() }'
    ra = '\nbroadcast use {lem_rv_seq, lem_rv_sel}; proof { lem_rvs0(); }'
    push = [(r'args\.push\(val\)', 'proof { lem_rvs(args@, val); }', 'before')]
    RAWS = [('C19 sub rules are not resolved', 'forall|i: int| 0 <= i < args@.len() ==> raw(#[trigger] args@[i])')]
    f['read_sequence'] = rule_reader('Sequence', args, hints=push, more=ra, extra_inv=RAWS)
    f['read_select'] = rule_reader('Select', args, hints=push, more=ra, extra_inv=RAWS)
    f['read_separated_by'] = rule_reader('Sep', 'F { opt: optional, trail: allow_trail, rules: lo(rule), bys: lo(by), ..f0() }', extra_inv=[('C19 sub rules are not resolved', 'oraw(rule) && oraw(by)')])
    f['read_repeat'] = rule_reader('Repeat', 'F { opt: optional, rules: lo(rule), ..f0() }', extra_inv=[('C19 the sub rule is not resolved', 'oraw(rule)')])
    step = ' proof { lem_ext_in(convert.data@.skip(1).skip(1)); lem_ext_in(convert.data@.skip(1).skip(ext(convert.data@.skip(1), 0))); }'
    for n, k in [('optional', 'Optional'), ('not', 'Not'), ('lines', 'Lines')]:
        f['read_' + n] = rule_reader(k, None, more=step)
    o = 's_rule(property@, convert.data@, convert.offset as int, strv(strings@), *old(debug_id) as int, old(ignored)@)'
    f['read_rule'] = C(req=CUR + [('C11 the counter has room', 'is_start(convert.data@, property@) ==> *old(debug_id) + convert.data@.len() <= usize::MAX')], ens=[
        ('C12 succeeds exactly on a sub rule', 'r is Ok <==> %s.ok' % o),
        ('C12 the rule described', 'r matches Ok(x) ==> rv(x.1) == %s.r' % o),
        ('C12 range of the description', 'r matches Ok(x) ==> x.0.offset == convert.offset && x.0.offset + x.0.length == %s.off' % o),
        ('C12 debug ids', '*final(debug_id) == %s.id' % o),
        ('C12 what is ignored is reported', 'final(ignored)@ == %s.ign' % o),
        ('C11 a description is one whole node', 'r matches Ok(x) ==> x.0.length == ext(convert.data@, 0) && 0 < x.0.length <= convert.data@.len()'),
        ('C11 ids grow no faster than the data is read', '*old(debug_id) <= *final(debug_id) <= *old(debug_id) + ext(convert.data@, 0)'),
        ('C19 nothing is resolved before all rules are known', 'r matches Ok(x) ==> raw(x.1)'),
        ('C12 anything else is left alone', '!is_start(convert.data@, property@) ==> r is Err && *final(debug_id) == *old(debug_id) && final(ignored)@ == old(ignored)@')],
        dec='convert.data@.len()', nodec=False,
        entry='''proof { ax_eq(); lem_names(); lem_s_rule(property@, convert.data@, convert.offset as int, strv(strings@), *debug_id as int, ignored@); lem_ext_in(convert.data@.skip(1)); lem_ext_len(convert.data@, 0); lem_ws(convert.data@.skip(1), convert.offset + 1, strv(strings@), *debug_id as int, ignored@); }
let ghost t0 = convert.data@.skip(1); let ghost o0 = s_one(kind_at(t0), t0, convert.offset + 1, strv(strings@), *debug_id as int, ignored@); let ghost off0 = convert.offset;
proof { if kind_at(t0) is Other { lem_s_one(DK::Other, t0, convert.offset + 1, strv(strings@), *debug_id as int, ignored@); } }''')
    f['read_rule'].hints = [(r'if let Some\(rule\) = rule', 'proof { match kind_at(t0) { %s }; assert((rule is Some) == o0.ok); assert( *debug_id == o0.id && ignored@ == o0.ign); assert((rule matches Some(x) ==> rv(x) == o0.r && convert.offset == o0.off && convert.data@ == t0.skip(o0.off - off0 - 1))); }'
        % ', '.join('DK::%s => { assert(((rule is Some) == o0.ok) && *debug_id == o0.id && ignored@ == o0.ign); }' % k for k in KINDS + ['Node', 'Other']), 'before')]
    sn = 's_node(convert.data@, convert.offset as int, strv(strings@), old(ignored)@)'
    ini = 's_loop(DK::Node, c0.data@.skip(1), c0.offset + 1, strv(strings@), 0, old(ignored)@, f0())'
    fn = 'F { name: ov(name), num: oi(id), rules: lo(rule), ..f0() }'
    cur = 's_loop(DK::Node, convert.data@, convert.offset as int, strv(strings@), 0, ignored@, %s)' % fn
    f['read_node'] = C(req=CUR + [('data no longer than memory', 'convert.data@.len() <= isize::MAX')], ens=[
        ('C12 succeeds exactly on a named rule', 'r is Ok <==> %s.ok' % sn),
        ('C12 name and rule described', 'r matches Ok(x) ==> Some(sv(x.1.0)) == %s.f.name && seq![rv(x.1.1)] == %s.f.rules' % (sn, sn)),
        ('C12 range of the description', 'r matches Ok(x) ==> x.0.offset == convert.offset && x.0.offset + x.0.length == %s.off' % sn),
        ('C12 what is ignored is reported', 'final(ignored)@ == %s.ign' % sn),
        ('C19 nothing is resolved before all rules are known', 'r matches Ok(x) ==> raw(x.1.1)'),
        ('C11 a named rule is one whole node', 'r matches Ok(x) ==> x.0.length == ext(convert.data@, 0) && 0 < x.0.length <= convert.data@.len()')],
        nodec=False, entry='proof { ax_eq(); lem_names(); reveal(s_node); lem_ext_in(convert.data@.skip(1)); lem_ext_len(convert.data@, 0); }\nlet ghost c0 = convert;',
        loops={0: L(eb=[('C12 the rest of the node', '%s == %s' % (ini, cur)),
                        ('C11 inside the node', 'ext(c0.data@, 0) == (convert.offset - c0.offset) + ext(convert.data@, 1)')],
                    inv=[('C11 cursor', 'cur_ok(convert) && c0.offset < convert.offset && convert.offset + convert.data@.len() == c0.offset + c0.data@.len()'), ('C19 the rule is not resolved', 'oraw(rule)')],
                    ens=[('C12 the node is read', '%s == (LO { ok: true, off: convert.offset as int, id: 0, ign: ignored@, f: %s })' % (ini, fn)),
                         ('C11 the whole node', 'ext(c0.data@, 0) == convert.offset - c0.offset')],
                    dec='convert.data@.len()',
                    start='proof { lem_s_loop(DK::Node, convert.data@, convert.offset as int, strv(strings@), 0, ignored@, %s); lem_ext_in(convert.data@); }' % fn)})
    f['Syntax::new'] = C(ens=[('an empty syntax', 'r.rules@ == Seq::<Rule>::empty() && r.names@ == Seq::<Arc<String>>::empty()')], nodec=False)
    f['Syntax::push'] = C(ens=[('C12 rules in order', 'final(self).rules@ == old(self).rules@.push(rule) && final(self).names@ == old(self).names@.push(name)')], nodec=False)
    cv = 's_conv(data@, old(ignored)@)'
    f['convert'] = C(req=[('data no longer than memory', 'data@.len() <= isize::MAX')], ens=[
        ('C12 succeeds exactly on a list of strings and named rules', 'r is Ok <==> %s.ok' % cv),
        ('C12 names in order', 'r matches Ok(s) ==> svs(s.names@) == %s.names' % cv),
        ('C12 rules described, references resolved', 'r matches Ok(s) ==> exists|p: Seq<Rule>| #[trigger] rvs(p) == %s.rules && upds(s.names@, p, s.rules@)' % cv),
        ('C19 every reference that is resolved points to a rule', 'r matches Ok(s) ==> s.rules@.len() == s.names@.len() && (LA() ==> wfr(s.rules@))'),
        ('C12 what is ignored is reported', 'final(ignored)@ == %s.ign' % cv)],
        nodec=False, entry='let ghost cv = %s; proof { lem_rvs0(); assert(strv(Seq::empty()) =~= Seq::<(Seq<char>, Seq<char>)>::empty()); assert(svs(Seq::empty()) =~= Seq::<Seq<char>>::empty()); assert(data@.skip(0) =~= data@); }' % cv.replace('old(ignored)', 'ignored'),
        loops={0: L(eb=[('C12 the rest of the strings', 's_strings(data@, 0, Seq::empty()) == s_strings(convert.data@, convert.offset as int, strv(strings@))')],
                    inv=[('C11 cursor', 'convert.offset + convert.data@.len() == data@.len()'), ('C11 rest of the data', 'convert.data@ == data@.skip(convert.offset as int)')],
                    ens=[('C12 the strings are read', 's_strings(data@, 0, Seq::empty()) == (convert.offset as int, strv(strings@))')],
                    dec='convert.data@.len()', start='proof { lem_strings(convert.data@, convert.offset as int, strv(strings@)); }'),
               1: L(eb=[('C12 the rest of the rules', 'cv == s_nodes(convert.data@, convert.offset as int, strv(strings@), ignored@, svs(res.names@), rvs(res.rules@))')],
                    inv=[('C11 cursor', 'convert.offset + convert.data@.len() == data@.len()'), ('C19 a name for each rule, nothing resolved', 'res.rules@.len() == res.names@.len() && forall|i: int| 0 <= i < res.rules@.len() ==> raw(#[trigger] res.rules@[i])')],
                    ens=[('C12 the rules are read', 'cv == (CO { ok: true, ign: ignored@, names: svs(res.names@), rules: rvs(res.rules@) })')],
                    dec='convert.data@.len()', start='proof { lem_nodes(convert.data@, convert.offset as int, strv(strings@), ignored@, svs(res.names@), rvs(res.rules@)); }')})
    f['convert'].hints = [(r'strings\.push\(val\)', 'proof { lem_strv(strings@, val); }', 'before'),
                          (r'update_refs\(&mut res\)', 'let ghost rs0 = res.rules@; proof { vstd::std_specs::vec::axiom_spec_len(&res.names); }', 'before'),
                          (r'update_refs\(&mut res\)', 'proof { lem_raw_upds(res.names@, rs0, res.rules@); }', 'after'),
                          (r'res\.push\(val\.0, val\.1\)', 'proof { lem_svs(res.names@, val.0); lem_rvs(res.rules@, val.1); }', 'before')]
    return f


def expand(s):
    """//REC name(params) -> T decreases D, body, //END: an opaque recursive function, a copy of its body that is not recursive, and the lemma that they are equal"""
    def one(m):
        name, params, ret, dec, body = m.groups()
        body = re.sub(r'SKIP\((\w+), ([\w.]+)\)', r'(if 0 < m0 <= d.len() { s_loop(k, d.skip(m0), off + m0, strs, \1, \2.push(rng(off, m0)), f) } else { nol(\1, \2) })', body)
        args = ', '.join(p.split(':')[0].strip() for p in params.split(', '))
        return """#[verifier::opaque]
pub open spec fn %s(%s) -> %s decreases %s %s
pub open spec fn x%s(%s) -> %s %s
pub proof fn lem_%s(%s) ensures %s(%s) == x%s(%s) { reveal_with_fuel(s_loop, 1); reveal_with_fuel(s_rule, 1); reveal_with_fuel(s_one, 1); }""" % (name, params, ret, dec, body, name, params, ret, body, name, params, name, args, name, args)
    return re.sub(r'//REC (\w+)\((.*?)\) -> (\w+) decreases (.*?)\n(.*?)//END', one, s, flags=re.S)


def theory():
    spec = open(os.path.join(HERE, 'cursor.rs')).read() + open(os.path.join(HERE, 'refs.rs')).read() + expand(open(os.path.join(HERE, 'conv.rs')).read()) + names_lemma()
    return Theory('conv', ['prelude_base.rs', 'rtspec.rs', 'vpstd.rs', 'parse_base.rs'], contracts(), spec=spec)
