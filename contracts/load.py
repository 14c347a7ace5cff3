"""LOAD: a syntax that is loaded is safe to use (C19)"""
from weave import C, L, Theory
import sem, conv, boot, opt, base, common, meta
from errs import rd, callee, handler, reported, parses, ENTRY


def theory():
    f = {k: callee(common.RANGE[k]) for k in ['Range::empty', 'Range::wrap']}
    f['parse'] = parses()['parse']
    f['parse'].ens = [e for e in f['parse'].ens if not e[0].startswith('C07')]
    # the precondition under which theory `term` proves that parsing finishes
    f['parse'].req = list(f['parse'].req) + [('C20 reading the text of a syntax finishes', 'graded(rules.rules@)')]
    f['convert'] = callee(conv.contracts()['convert'])
    f['rules'] = C(ens=boot.ens() + meta.ENS, trusted=True)
    f['Syntax::optimize'] = callee(opt.theory().fns['Syntax::optimize'])
    f.update(handler())
    TXT = [('text representable', 'blen(rules@) <= isize::MAX && src_ok(rules@) && LA()')]
    OK = [('C19 a name for each loaded rule', 'r matches Ok(s) ==> s.rules@.len() == s.names@.len()'),
          ('C19 references and tables of a loaded syntax stay in range', 'r matches Ok(s) ==> wfr(s.rules@)'),
          ('C19 the rules described are loaded', 'r matches Ok(s) ==> loaded(s, rules@)'),
          ('C19 fails only when the text describes no rules', 'r is Err ==> refused(rules@)')]
    c = C(req=TXT, ens=OK + [('C19 the error lies inside the text', 'r matches Err(e) ==> end_of(e) <= blen(rules@)')], nodec=False, entry='broadcast use lem_builtin; proof { lem_blen_nonneg(rules@); }')
    c.hints = [(r'match convert\(', 'proof { ax_vec_fits(&tokens); }', 'before')]
    c.hints += [(r'parse\(&(\w+), rules, &mut (\w+)\)', r'proof { assert(builtin(\1.rules@)); }', 'before each')]
    f['syntax'] = c
    f['syntax_errstr'] = C(req=TXT, ens=OK + [reported('rules')], nodec=False, entry=ENTRY)
    spec = rd('cursor.rs') + rd('refs.rs') + conv.expand(rd('conv.rs')) + conv.names_lemma() + sem.text(False) + rd('opt.rs') + rd('term.rs') + rd('meta_rules.rs') + rd('meta.rs') + rd('load.rs')
    return Theory('load', ['prelude_base.rs', 'rtspec.rs', 'vpstd.rs', 'parse_base.rs', 'writer.rs', 'report.rs', 'errs.rs'], f, spec=spec, group='broadcast use grp_parse;')
