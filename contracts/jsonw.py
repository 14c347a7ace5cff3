"""JSON: the writer produces well formed text, strings survive (C15)"""
from weave import C, L, Theory

OK = [('C15 passes on every write error', 'r matches Err(e) ==> final(w).failed() == Some(e)'),
      ('C15 fails only when the writer does', 'r is Ok ==> final(w).failed() == old(w).failed()'),
      ('C15 a writer that never fails is never the problem', 'r is Err ==> cf(*old(w))')]


def contracts():
    f = {}
    f['write_string'] = C(
        ens=OK + [('C15 a JSON string that decodes to the original characters', 'r is Ok ==> exists|e: Seq<char>| final(w).out() == old(w).out() + e && #[trigger] jstr(e, val@)')],
        entry='''let ghost o0 = w.out(); let ghost f0 = w.failed(); let ghost mut b = Seq::<char>::empty();
proof { lem_jbody0(); assert("04x"@ =~= seq!['0', '4', 'x']) by { reveal_strlit("04x"); } }''', strlits=True, nodec=False,
        loops={0: L(inv=[('C15 the characters so far are encoded', '__i0 <= __s0.len() && w.out() == o0 + seq![\'"\'] + b && jbody(b, val@.take(__i0 as int))'),
                         ('C15 no failure so far', 'w.failed() == f0')],
                    start='let ghost o1 = w.out();', before='proof { assert(val@.take(0) =~= Seq::<char>::empty()); assert(o0 + seq![\'"\'] + b =~= o0 + seq![\'"\']); }',
                    dec='__s0.len() - __i0',
                    end='''proof {
    let e = w.out().skip(o1.len() as int);
    assert(w.out() =~= o1 + e);
    assert(jchar(e, c)); //@ C15 what is written decodes to the character
    lem_jbody1(b, val@.take(__i0 - 1), e, c);
    assert(val@.take(__i0 as int) =~= val@.take(__i0 - 1).push(c));
    assert(o0 + seq!['"'] + (b + e) =~= w.out());
    b = b + e;
}''')})
    f['write_string'].hints = [(r'Ok\(\(\)\)$', '''proof { assert(val@.take(val@.len() as int) =~= val@); let e = seq!['"'] + b + seq!['"']; lem_jstr(b, val@, e); assert(w.out() =~= o0 + e); }''', 'before')]
    f['write'] = C(
        req=[('well nested', 'nested(data@)')],
        ens=OK + [('C15 one property per item, indented, commas between siblings', 'r is Ok ==> exists|b: Seq<char>| #[trigger] jdoc(b, data@, data@.len() as int) && final(w).out() =~= old(w).out() + b + seq![\'\\n\']')],
        entry='''let ghost o0 = w.out(); let ghost f0 = w.failed(); let ghost mut b = Seq::<char>::empty();
proof { lem_jdoc0(data@); assert(lev(data@, data@.len() as int) == 0); assert(n_st(data@, 0) == 0 && n_en(data@, 0) == 0); }''', strlits=True, nodec=False,
        loops={0: L(inv=[('start items counted', '__i0 <= data@.len() && __c0 == n_st(data@, __i0 as int) && __c0 <= __i0')], dec='data@.len() - __i0'),
               1: L(inv=[('end items counted', '__i1 <= data@.len() && __c1 == n_en(data@, __i1 as int) && __c1 <= __i1')], dec='data@.len() - __i1'),
               2: L(inv=[('C15 the items so far are written', '__i2 <= data@.len() && w.out() == o0 + b && jdoc(b, data@, __i2 as int)'),
                         ('C15 indentation is the number of open nodes', 'indent == lev(data@, __i2 as int) && indent_offset == 0'),
                         ('C15 no comma at the start of a list', 'first == (__i2 == 0 || is_st(data@[__i2 - 1].data))'),
                         ('C15 no failure so far', 'w.failed() == f0')],
                    before='proof { assert(o0 + b =~= o0); }',
                    start='let ghost i0 = __i2 as int; let ghost o1 = w.out(); proof { assert(0 <= lev(data@, i0 + 1) <= u32::MAX); }', dec='data@.len() - __i2',
                    end='''proof {
    match data@[i0].data {
        MetaData::StartNode(n) | MetaData::Bool(n, _) | MetaData::F64(n, _) => { assert(sv(n) == (*n)@); }
        MetaData::String(n, v) => { assert(sv(n) == (*n)@ && sv(v) == (*v)@); }
        _ => {}
    }
    assert(wrote_item(o2, w.out(), data@[i0].data)); //@ C15 name and value of the item
    lem_item(o2, w.out(), data@[i0].data);
    let e = choose|e: Seq<char>| #[trigger] jitem(e, data@[i0].data) && w.out() == o2 + e;
    let b2 = b + sep(data@, i0) + spaces(level(data@, i0)) + e;
    lem_jdoc1(b, e, b2, data@, i0);
    assert(w.out() =~= o0 + b2);
    b = b2;
}'''),
               3: L(inv=[('C15 one space per level', '__i3 <= indent && w.out() =~= o3 + spaces(__i3 as int)'), ('C15 no failure so far', 'w.failed() == f0')],
                    before='let ghost o3 = w.out(); proof { assert(o3 =~= o1 + sep(data@, i0)); } //@ C15 comma and new line between items', dec='indent - __i3')})
    f['write'].hints = [(r'^ *match \*d \{', 'let ghost o2 = w.out(); proof { assert(o2 =~= o1 + sep(data@, i0) + spaces(level(data@, i0))); } //@ C15 one space per level', 'before')]
    f['print'] = C(req=[('well nested', 'nested(data@)')], nodec=False, stops=True)
    return f


def theory():
    return Theory('jsonw', ['prelude_base.rs', 'rtspec.rs', 'vpstd.rs', 'parse_base.rs', 'writer.rs', 'streams.rs', 'jsonw.rs'], contracts())
