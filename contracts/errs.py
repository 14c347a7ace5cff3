"""ERRS: parsing with the error as text (C01, C06, C07, C08, C17)"""
from weave import C, L, Theory
import os
import base, sem, report

HERE = os.path.dirname(os.path.abspath(__file__))
ENTRY = 'broadcast use lem_reported; proof { ax_utf8_empty(); }'


def rd(n):
    return open(os.path.join(HERE, n)).read()


def callee(c, ens=None):
    """a function whose contract another theory proves"""
    return C(req=c.req, ens=c.ens if ens is None else ens, nodec=c.nodec, trusted=True)


def handler():
    rp = report.contracts()
    return {k: callee(rp[k]) for k in ['ParseErrorHandler::new', 'ParseErrorHandler::write']}


def parses():
    b = base.build('x', ('C07', 'C08'), '', []).fns
    s = sem.theory().fns
    return {k: C(req=b[k].req, ens=b[k].ens + [e for e in s[k].ens if e[0].startswith('C01')], trusted=True) for k in ['parse', 'parse_with_indent']}


def reported(t):
    return ('C17 the report of an error inside the text', 'ok_or_reported(r, %s@)' % t)


def theory():
    f = {'IndentSettings::default': callee(sem.theory().fns['IndentSettings::default'])}
    ps = parses()
    f.update(ps)
    f.update(handler())
    for k in ps:
        f[k.replace('parse', 'parse_errstr')] = C(req=ps[k].req, ens=[e for e in ps[k].ens if not e[0].startswith('C09')] + [reported('text')], nodec=False, entry=ENTRY)
    return Theory('errs', ['prelude_base.rs', 'rtspec.rs', 'vpstd.rs', 'parse_base.rs', 'writer.rs', 'report.rs', 'errs.rs', 'nest.rs'], f, spec=sem.text(False), group='broadcast use grp_parse;')
