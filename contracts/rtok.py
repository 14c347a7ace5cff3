"""RTOK: the functions of the dependency read_token 1.0.0 the parser relies on (discharges the callee contracts of the parsing theories)"""
from weave import C, L, Theory
from common import *
import rtc

NUMT = 'nst(has_sign, has_decimal_separator, has_scientific, has_exponent_sign, has_digit)'


def contracts():
    f = {k: RANGE[k] for k in ['Range::new', 'Range::empty', 'Range::next_offset', 'Range::wrap']}
    f.update(rtc.contracts())
    s = 'self.src@'
    f['ReadToken::consume'].entry = 'proof { lem_boundary(self.src@, n as int); lem_boundary_zero(self.src@); reveal(adv); reveal_with_fuel(bskip, 1); }'
    f['ReadToken::tag'].entry = 'proof { lem_tag(self.src@, tag@); ax_str_fits(tag); }'
    at = lambda i: 'proof { if %s < self.src@.len() { lem_at(self.src@, %s as int); } lem_here(self.src@, %s as int); }' % (i, i, i)
    f['ReadToken::whitespace'].entry = 'proof { lem_at0(self.src@); lem_here(self.src@, 0); lem_here(self.src@, self.src@.len() as int); ax_str_fits(self.src); }'
    f['ReadToken::whitespace'].loops = {0: L(inv=[('white space so far', '__i0 <= __s0.len() && ws_len(self.src@) == blen(self.src@.take(__i0 as int)) + ws_len(self.src@.skip(__i0 as int))')],
        start='let ghost j = __i0 as int; proof { lem_at(self.src@, j); lem_here(self.src@, j); lem_ws(self.src@, j); }', dec='__s0.len() - __i0')}
    f['ReadToken::whitespace'].hints = [(r'^ *self\.peek\(self\.src\.len\(\)\)$', 'proof { lem_ws(self.src@, self.src@.len() as int); }', 'before')]
    for n, fn, extra in [('until_any', 'until_len', ''), ('until_any_or_whitespace', 'until_ws_len', '')]:
        c = f['ReadToken::' + n]
        c.entry = 'proof { lem_at0(self.src@); lem_here(self.src@, 0); lem_here(self.src@, self.src@.len() as int); ax_str_fits(self.src); }'
        c.loops = {0: L(inv=[('none of the characters so far', '__i0 <= __s0.len() && %s(self.src@, any@) == blen(self.src@.take(__i0 as int)) + %s(self.src@.skip(__i0 as int), any@)' % (fn, fn))],
                        start='let ghost j = __i0 as int; proof { lem_at(self.src@, j); lem_here(self.src@, j); lem_until(self.src@, any@, j); }', dec='__s0.len() - __i0',
                        end='proof { lem_not_in(any@, c); }'),
                   1: L(inv=[('not among the first', '__i1 <= __s1.len() && forall|m: int| 0 <= m < __i1 ==> #[trigger] any@[m] != c')], dec='__s1.len() - __i1')}
        c.hints = [(r'^ *\(self\.peek\(self\.src\.len\(\)\), None\)$', 'proof { lem_until(self.src@, any@, self.src@.len() as int); }', 'before')]
    c = f['ReadToken::string']
    c.entry = 'proof { lem_at0(self.src@); reveal(str_len); lem_str_len_pos(self.src@); ax_str_fits(self.src); }'
    c.loops = {0: L(inv=[('inside the literal', '1 <= char_indices.i <= char_indices.v@.len() && char_indices.v@.len() == self.src@.len() && (forall|i: int| 0 <= i < char_indices.v@.len() ==> (#[trigger] char_indices.v@[i]).0 == blen(self.src@.take(i)) && char_indices.v@[i].1 == self.src@[i])'),
                         ('same literal', 'self.src@.len() > 0 && self.src@[0] == \'"\' && str_len(self.src@) == oplus(blen(self.src@.take(char_indices.i as int)), str_end(self.src@.skip(char_indices.i as int), escape))')],
                    before='proof { lem_at(self.src@, 0); }',
                    start='let ghost j = char_indices.i as int; proof { lem_at(self.src@, j); lem_str_end(self.src@, j, escape); lem_str_len(self.src@); lem_take_pos(self.src@, j); }', dec='char_indices.v@.len() - char_indices.i')}
    c.hints = [(r'^ *None$', 'proof { lem_str_end(self.src@, self.src@.len() as int, escape); }', 'before')]
    c = f['ReadToken::number']
    c.entry = 'proof { lem_at0(self.src@); lem_here(self.src@, 0); lem_here(self.src@, self.src@.len() as int); ax_str_fits(self.src); reveal(num_len); }'
    us = 'settings.allow_underscore'
    c.loops = {0: L(inv=[('number so far', '__i0 <= __s0.len() && num_run(self.src@, true, nst(false, false, false, false, false), %s) == blen(self.src@.take(__i0 as int)) + num_run(self.src@.skip(__i0 as int), __i0 == 0, %s, %s)' % (us, NUMT, us))],
                    start='let ghost j = __i0 as int; let ghost t0 = %s; proof { lem_at(self.src@, j); lem_here(self.src@, j); lem_take_pos(self.src@, j); lem_num(self.src@, j, t0, %s); }' % (NUMT, us), dec='__s0.len() - __i0')}
    c.hints = [(r'^ *if self\.src\.len\(\) > 0 \{$', 'proof { lem_num(self.src@, self.src@.len() as int, %s, %s); lem_take_pos(self.src@, self.src@.len() as int); }' % (NUMT, us), 'before')]
    c = f['ReadToken::parse_unicode']
    c.entry = 'proof { lem_at0(self.src@); reveal(uni); lem_blen_ge(self.src@); ax_str_fits(self.src); lem_str_len(self.src@); }'
    c.loops = {0: L(inv=[('digits so far', '__i0 <= 4 && char_indices.i == __i0 && __i0 <= self.src@.len() && byte_offset == (if __i0 == 0 { 0int } else { __i0 - 1 }) && blen(self.src@.take(__i0 as int)) == __i0 && char_indices.v@.len() == self.src@.len() && (forall|i: int| 0 <= i < char_indices.v@.len() ==> (#[trigger] char_indices.v@[i]).0 == blen(self.src@.take(i)) && char_indices.v@[i].1 == self.src@[i])'),
                         ('their values', 'forall|m: int| 0 <= m < __i0 ==> hexv(#[trigger] self.src@[m]) == Some(u@[m] as int)')],
                    start='let ghost j = __i0 as int; proof { lem_hex_bad(self.src@, j); if j < self.src@.len() { lem_at(self.src@, j); lem_hex_ascii(self.src@[j]); } }', dec='4 - __i0')}
    c.hints = [(r'let code = ', 'proof { lem_hex_bad(self.src@, 4); assert(hexv(self.src@[0]) is Some && hexv(self.src@[1]) is Some && hexv(self.src@[2]) is Some && hexv(self.src@[3]) is Some); lem_code(u@[0], u@[1], u@[2], u@[3]); }', 'before')]
    c = f['ReadToken::parse_string']
    c.entry = 'let ghost s = self.src@; proof { lem_inner(s, n as int, 0); lem_str_len_pos(s); reveal(str_val); lem_at0(s.skip(1)); lem_at0(inner(s, n as int)); lem_prep(Seq::empty(), \' \', str_val(s, n as int)); assert(s.skip(0int + 1) == s.skip(1)); }'
    cont = 'let ghost t9 = txt@;'
    c.loops = {0: L(inv=[('same value', '__i0 <= __s0.len() && 0 <= skip_unicode <= 4 && str_val(s, n as int) == prep(txt@, str_dec(s.skip(__i0 + 1), 1 + blen(inner(s, n as int).take(__i0 as int)), n - 1, escape, skip_unicode as int))'),
                         ('inside of the literal', '__s0@.len() == inner(s, n as int).len() && s == self.src@')],
                    start='''let ghost j = __i0 as int; let ghost t0 = txt@; proof {
    lem_inner(s, n as int, j); lem_dec(s, n as int, j, escape, skip_unicode as int); lem_inner(s, n as int, j + 1); lem_at(inner(s, n as int), j); lem_at(s, j + 1); lem_skip_char(s, j + 2); lem_uni_shift(s.skip(j + 2), 1 + blen(inner(s, n as int).take(j + 1)));
    lem_boundary(s, blen(s.take(j + 2)));
    assert forall|x: char, r: Result<Seq<char>, (int, int, ParseStringError)>| #[trigger] prep(t0, prep(seq![x], r)) == prep(t0.push(x), r) by { lem_prep(t0, x, r); }
}''', dec='__s0.len() - __i0')}
    c.hints = [(r'^ *Ok\(txt\)$', 'proof { lem_dec(s, n as int, inner(s, n as int).len() as int, escape, skip_unicode as int); lem_inner(s, n as int, 0); assert(txt@ + Seq::<char>::empty() =~= txt@); }', 'before')]
    c = f['ReadToken::ended_with_newline']
    c.entry = 'proof { reveal(rng_ok); lem_boundary(self.src@, range.length as int); lem_boundary_zero(self.src@); lem_at0(btake(self.src@, range.length as int)); ax_str_fits(self.src); }'
    c.loops = {0: L(inv=[('so far', '__i0 <= __s0.len() && __s0@ == btake(self.src@, range.length as int) && ends_nl(__s0@, false) == ends_nl(__s0@.skip(__i0 as int), ends_with_newline)')],
                    start='proof { lem_ends_nl(__s0@, __i0 as int, ends_with_newline); }', dec='__s0.len() - __i0')}
    c.hints = [(r'^ *ends_with_newline$', 'proof { lem_ends_nl(btake(self.src@, range.length as int), btake(self.src@, range.length as int).len() as int, ends_with_newline); lem_at0(btake(self.src@, range.length as int)); }', 'before')]
    c = f['ReadToken::lines']
    E = 'Seq::<(Seq<char>, int, Option<Range>)>::empty()'
    c.entry = '''let ghost o = *self; let ghost l0 = f.log(); let ghost mut l: Seq<(Seq<char>, int, Option<Range>)> = %s; let ghost mut b = *self; let ghost mut nl0 = true;
    proof { lem_ls_empty(o.src@, o.offset as int); lem_log_push(l0, l, (o.src@, 0, None)); lem_adv_refl(o); }''' % E
    OFF = 'o.offset as int'
    LOG = ('calls so far', 'o == *self && rt_ok(o) && ascii_ws(o.src@) && f.log() == l0 + l && ls_ok(o.src@, o.offset as int, l)')
    ST = ('state', 'adv(o, read_token) && adv(b, read_token) && ls_run(o.src@, o.offset as int, l) == (LnS { src: b.src@, off: b.offset as int, nl: nl0, st: 0 }) && read_token.offset >= b.offset && lnext(b.src@, nl0, 0, 0) == lnext(read_token.src@, new_lines, read_token.offset - b.offset, read_token.offset - b.offset)')
    D = 'read_token.offset - b.offset'
    POS = 'proof { reveal(adv); lem_boundary(o.src@, read_token.offset - o.offset); lem_ascii(o.src@, read_token.offset - o.offset); lem_at0(read_token.src@); lem_blen_nonneg(read_token.src@); lem_lnext_at(read_token.src@, 0, new_lines, %s, %s); }' % (D, D)
    c.loops = {0: L(inv=[LOG], eb=[ST], ens=[('result', 'read_token.offset >= o.offset && ls_res(o.offset as int, ls_run(o.src@, o.offset as int, l), Ok(Range { offset: o.offset, length: (read_token.offset - o.offset) as usize, data: () }))')],
                    dec='ln_measure(read_token.src@, new_lines)', start=POS + 'let ghost d = %s; let ghost s = read_token.src@; let ghost p0 = read_token;' % D),
               1: L(inv=[('text', '__i1 <= __s1@.len() && __s1@.len() == s.len() && s == read_token.src@ && ascii_ws(s) && blen(s) <= isize::MAX && (forall|i: int| 0 <= i < __s1@.len() ==> (#[trigger] __s1@[i]).0 == blen(s.take(i)) && __s1@[i].1 == s[i])')],
                    eb=[('white space', '!ended_with_newline && reached_end && byte_offset == blen(s.take(__i1 as int)) && lnext(s, new_lines, d, d) == lnext(s.skip(__i1 as int), new_lines, d, d + byte_offset)')],
                    ens=[('end', 'reached_end ==> byte_offset == blen(s) && lnext(s, new_lines, d, d) == LN::End(d + byte_offset)'),
                         ('new line', '!reached_end && ended_with_newline ==> boundary(s, byte_offset + 1) && lnext(s, new_lines, d, d) == lnext(bskip(s, byte_offset + 1), true, d + byte_offset + 1, d + byte_offset + 1)'),
                         ('line', '!reached_end && !ended_with_newline ==> s.len() > 0 && lnext(s, new_lines, d, d) == if new_lines { LN::Call(d) } else { LN::Bad(d) }')],
                    start='let ghost j = __i1 as int; proof { lem_at(s, j); lem_lnext_at(s, j, new_lines, d, d + byte_offset); lem_here(s, j + 1); lem_skip_char(s, j + 1); reveal(ascii_ws); }', dec='__s1.len() - __i1')}
    c.hints = [(r'if reached_end \{', 'proof { lem_lnext_at(s, s.len() as int, new_lines, d, d + byte_offset); }', 'before'),
               (r'new_lines = new_lines \|\| true;', 'proof { lem_adv_consume(p0, read_token, byte_offset + 1); lem_boundary(s, byte_offset + 1); lem_adv_trans(o, p0, read_token); lem_adv_trans(b, p0, read_token); }', 'after'),
               (r'^ *None => \{', '''proof { let x = (read_token.src@, read_token.offset as int, None::<Range>); lem_ls_push(o.src@, o.offset as int, l, x); lem_log_push(l0, l, x); l = l.push(x); }''', 'after'),
               (r'return Err\(Range::empty', 'proof { assert(ls_res(o.offset as int, ls_run(o.src@, o.offset as int, l), Err(Range { offset: read_token.offset, length: 0, data: () }))); }', 'before'),
               (r'read_token = read_token\.consume', '''proof { reveal(adv); reveal(rng_ok); let x = (read_token.src@, read_token.offset as int, Some(range)); lem_ls_push(o.src@, o.offset as int, l, x); lem_log_push(l0, l, x); l = l.push(x);
                    lem_nl_empty(read_token.src@); lem_boundary(read_token.src@, range.length as int); nl0 = new_lines; }''', 'before'),
               (r'read_token = read_token\.consume', 'proof { lem_adv_trans(o, p0, read_token); b = read_token; lem_adv_refl(b); }', 'after')]
    for c in f.values():
        c.nodec = False
    return f


def theory():
    return Theory('rtok', ['prelude_base.rs', 'rtspec.rs', 'vpstd.rs', 'parse_base.rs', 'rtok.rs'], contracts())
