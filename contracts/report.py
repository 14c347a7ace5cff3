"""REPORT: error reports never fail and point at the right line and column (C17)"""
from weave import C, L, Theory
from common import RANGE

OK = [('C17 passes on every write error', 'r matches Err(e) ==> final(w).failed() == Some(e)'),
      ('C17 fails only when the writer does', 'r is Ok ==> final(w).failed() == old(w).failed()'),
      ('C17 a writer that never fails is never the problem', 'r is Err ==> cf(*old(w))'),
      ('C17 the line table stays', 'final(self).lines@ == old(self).lines@')]
FIT = 'range.offset + range.length <= isize::MAX'


LITS = '''assert(": "@ =~= seq![':', ' ']) by { reveal_strlit(": "); } assert("^\\n"@ =~= seq!['^', '\\n']) by { reveal_strlit("^\\n"); } assert("Error "@ =~= seq!['E', 'r', 'r', 'o', 'r', ' ']) by { reveal_strlit("Error "); }'''


def lines_loop(k, m, p):
    """contracts of the loop over the lines (k) and its two inner loops (m: line text, p: pointer)"""
    i, q = '__i%d' % k, '__q%d' % k
    return {
        k: L(inv=[('C17 the touched lines so far are shown', '%s <= ls.len() && ls == self.lines@ && w.out() == o9 + b && report(b, range, ls, %s as int)' % (i, i)),
                  ('C17 pointer only under the first', 'printed_pointer == seen(range, ls, %s as int)' % i),
                  ('C17 no failure so far', 'w.failed() == f0')],
             before='let ghost o9 = w.out(); let ghost mut b = Seq::<char>::empty(); proof { lem_report0(range, ls); assert(o9 + b =~= o9); }',
             start='let ghost i0 = %s as int; let ghost o1 = w.out(); let ghost txt = ls[i0].1@; let ghost jj = lcol(range, ls[i0].0, txt); let ghost mut ws = 0int; let ghost mut wt = 0int; let ghost o2 = o1 + head(i0, jj); proof { lem_table_fit(ls, i0); lem_count(txt); }' % i,
             dec='ls.len() - %s' % i,
             end='''proof {
    if touches(range, ls[i0].0) {
        assert(window(ws, wt, jj, txt.len() as int)) by { reveal(window); } //@ C17 enough of the line is shown
        assert(w.out() == line_out(o9 + b, i0, jj, txt, ws, wt, !seen(range, ls, i0))); //@ C17 number, column, text and pointer
        let e = lem_report_line(o9, b, w.out(), range, ls, i0, ws, wt, jj, txt);
        b = b + e;
    } else {
        lem_report_skip(b, range, ls, i0);
    }
}'''),
        m: L(inv=[('C17 the line text so far', '__loM <= __iM <= __hiM && w.out() == o2 + txt.subrange(__loM as int, __iM as int)'.replace('M', str(m))),
                  ('C17 no failure so far', 'w.failed() == f0')],
             before='proof { lem_head(o1, i0, jj); ws = __loM as int; wt = __hiM as int; lem_sub(o2, txt, ws, ws); reveal(window); }'.replace('M', str(m)),
             start='proof { lem_sub(o2, txt, __loM as int, __iM as int); }'.replace('M', str(m)), dec='__hiM - __iM'.replace('M', str(m))),
        p: L(inv=[('C17 the column so far', '__loM <= __iM <= __hiM && w.out() == o3 + blanks(txt, __loM as int, __iM - __loM)'.replace('M', str(p))),
                  ('C17 no failure so far', 'w.failed() == f0')],
             before='let ghost o3 = ((o2 + txt.subrange(ws, wt)) + seq![\'\\n\']) + head(i0, jj); proof { lem_head((o2 + txt.subrange(ws, wt)) + seq![\'\\n\'], i0, jj); lem_blanks(o3, txt, ws, ws); }',
             start='proof { lem_blanks(o3, txt, __loM as int, __iM as int); }'.replace('M', str(p)), dec='__hiM - __iM'.replace('M', str(p))),
    }


def contracts():
    f = {}
    # messages: formatting appends the text of the error and fails only when the formatter does
    for k in ['ParseError', 'ParseNumberError', 'ParseStringError']:
        f[k + '::fmt'] = C(ens=[('C17 the message names the debug id and what was expected', 'r is Ok ==> fmt_out(*final(fmt)) =~= fmt_out(*old(fmt)) + (*self).disp()'),
                                ('C17 passes on every write error', 'r matches Err(e) ==> fmt_failed(*final(fmt)) == Some(e)'),
                                ('C17 fails only when the writer does', 'r is Ok ==> fmt_failed(*final(fmt)) == fmt_failed(*old(fmt))')], nodec=False)
    f.update({k: RANGE[k] for k in ['Range::new', 'Range::next_offset', 'Range::decouple']})
    f['Range::ends_intersect'] = C(req=[('no overflow', 'self.offset + self.length <= usize::MAX && other.offset + other.length <= usize::MAX')],
        ens=[('touching', 'r is Some <==> touches(Range { offset: self.offset, length: self.length, data: () }, *other)'),
             ('start', 'r matches Some(x) ==> x.offset == if self.offset >= other.offset { self.offset } else { other.offset }')], nodec=False)
    f['column'] = C(ens=[('C17 characters that start before the byte', 'r == col(text@, n as int) && r <= text@.len()')],
        nodec=False,
        loops={0: L(eb=[('C17 all before the byte', '__i0 <= __s0.len() && j == __i0')],
                    inv=[('C17 characters counted', 'j <= __s0.len() && forall|i: int| 0 <= i < j ==> blen(#[trigger] text@.take(i)) < n')],
                    ens=[('C17 counted', 'j == __s0.len() || blen(text@.take(j as int)) >= n')],
                    dec='__s0.len() - __i0')})
    f['column'].hints = [(r'^ *j$', 'proof { lem_col(text@, n as int, j as int); }', 'before')]
    f['ParseErrorHandler::new'] = C(
        req=[('not longer than a string can be', 'blen(text@) <= isize::MAX')],
        ens=[('C17 every line with its bytes', 'table(r.lines@, text@)'), ('C17 lines fit', 'table_ok(r.lines@)')],
        nodec=False, entry='let ghost mut sp = Seq::<&str>::empty();',
        loops={0: L(inv=[('C17 lines so far', '__i0 <= __s0.len() && start == lstart(__s0@, __i0 as int) && lines_upto(lines, __s0@, __i0 as int)')],
                    before='proof { sp = __s0@; lem_lstart(__s0@, 0); lem_join_len(__s0@); }',
                    start='proof { lem_lstart(__s0@, __i0 as int); lem_lstart_mono(__s0@, __i0 + 1, __s0@.len() as int); lem_str_len(__s0@[__i0 as int]@); lem_blen_nonneg(__s0@[__i0 as int]@); }',
                    dec='__s0.len() - __i0')})
    f['ParseErrorHandler::new'].hints = [(r'^ *ParseErrorHandler \{', '''proof {
    let l = lines@;
    assert(texts(l) =~= sp);
    assert(join(texts(l)) == text@ && forall|i: int| 0 <= i < l.len() ==> lstart(texts(l), i) == l[i].0.offset && !(#[trigger] l[i]).1@.contains('\\n')) by { }
    reveal(table);
    assert(table(l, text@));
}''', 'before')]
    f['first_line'] = C(
        req=[('lines', 'table_ok(err_handler.lines@)'), ('range inside the text', FIT)],
        ens=[('within the lines', 'r matches Some(x) ==> x.0 < err_handler.lines@.len()')],
        nodec=False,
        loops={0: L(inv=[('nothing found', '__i0 <= err_handler.lines@.len()')],
                    ens=[('within the lines', 'fl_in(first_line, err_handler.lines@.len() as int)')], eb=[('nothing yet', 'fl_none(first_line)')],
                    start='proof { lem_table_fit(err_handler.lines@, __i0 as int); }', dec='err_handler.lines@.len() - __i0')})
    f['ParseErrorHandler::write_msg'] = C(
        req=[('lines of a text', 'table_ok(old(self).lines@)'), ('range inside the text', FIT)],
        ens=OK + [('C17 message, then every touched line, the first with a pointer',
                   'r is Ok ==> exists|o: Seq<char>| #[trigger] report(o, range, old(self).lines@, old(self).lines@.len() as int) && final(w).out() =~= old(w).out() + msg@ + seq![\'\\n\'] + o')],
        entry='let ghost f0 = w.failed(); let ghost o0 = w.out(); let ghost ls = self.lines@; proof { '+LITS+' }', strlits=True, nodec=False,
        loops=lines_loop(0, 1, 2))
    f['ParseErrorHandler::write_msg'].hints = []
    lp = lines_loop(3, 4, 5)
    lp[3].end = lp[3].end[:-1] + '    bb = b;\n}'
    lp[3].before = 'proof { assert(w.out() =~= pre + cx); }\n' + lp[3].before + '\nproof { bb = b; }'
    lp[3].inv.append(('same', 'bb == b'))
    lp[0] = L(inv=[('previous line in front', '__i0 <= __s0.len() && prev_line <= __s0.len()')], dec='__i0')
    lp[1] = L(inv=[('characters', '__i1 <= __s1.len()')], dec='__s1.len() - __i1')
    lp[2] = L(inv=[('C17 lines in front so far', '__i2 <= __s2.len() && w.out() == o4 + cx && context(cx, ls, prev_line as int, prev_line + __i2)'),
                   ('slice', '__s2@ == ls.subrange(prev_line as int, first_line.0 as int)'), ('C17 no failure so far', 'w.failed() == f0')],
              before='let ghost o4 = w.out(); proof { lem_context0(ls, prev_line as int); assert(o4 + cx =~= o4); cf = prev_line as int; ct = first_line.0 as int; }',
              start='let ghost i0 = __i2 as int; let ghost p0 = cx;', dec='__s2.len() - __i2',
              end='''proof {
    let c2 = w.out().skip(o4.len() as int);
    assert(w.out() =~= o4 + c2);
    assert(c2 =~= cx + dec(prev_line + i0 + 1) + seq![':', ' '] + ls[prev_line + i0].1@ + seq!['\\n']); //@ C17 lines in front under their number
    lem_context1(cx, c2, ls, prev_line as int, prev_line + i0);
    cx = c2;
}''')
    f['ParseErrorHandler::write'] = C(
        req=[('lines of a text', 'table_ok(old(self).lines@)'), ('range inside the text', 'range_err.offset + range_err.length <= isize::MAX')],
        ens=OK + [('C17 message, then every touched line, the first with a pointer',
                   'r is Ok ==> rep_of(old(w).out(), final(w).out(), range_err, old(self).lines@)')],
        entry='let ghost f0 = w.failed(); let ghost o0 = w.out(); let ghost ls = self.lines@; let ghost mut cx = Seq::<char>::empty(); let ghost mut cf = 0int; let ghost mut ct = 0int; let ghost mut bb = Seq::<char>::empty(); let ghost pre = o0 + seq![\'E\', \'r\', \'r\', \'o\', \'r\', \' \'] + err_text(range_err.data) + seq![\'\\n\']; proof { lem_context0(ls, 0); '+LITS+' }', strlits=True, nodec=False,
        loops=lp)
    f['ParseErrorHandler::write'].hints = [(r'^    Ok\(\(\)\)$', 'proof { assert(context(cx, ls, cf, ct)); assert(rng0(range_err) == range); assert(w.out() =~= pre + cx + bb); assert(report(bb, rng0(range_err), ls, ls.len() as int)); }', 'before')]
    return f


def theory():
    return Theory('report', ['prelude_base.rs', 'rtspec.rs', 'vpstd.rs', 'parse_base.rs', 'writer.rs', 'report.rs'], contracts())
