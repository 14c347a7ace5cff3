"""FILES: loading data from files; standard streams (C01, C15, C17, C19)"""
from weave import C, L, Theory
import sem, conv, load, report
from errs import rd, callee, handler, parses


def theory():
    f = {'parse': parses()['parse']}
    f['parse'].ens = [e for e in f['parse'].ens if not e[0].startswith('C07')]
    f['syntax'] = callee(load.theory().fns['syntax'])
    f.update(handler())
    rp = report.contracts()
    w = rp['ParseErrorHandler::write']
    f['ParseErrorHandler::error'] = C(req=w.req, ens=[('C17 the line table stays', 'final(self).lines@ == old(self).lines@')], nodec=False, stops=True)
    f['stderr_unwrap'] = C(req=[('not longer than a string can be', 'blen(source@) <= isize::MAX'), ('error inside the text', 'res matches Err(e) ==> end_of(e) <= isize::MAX')],
                           ens=[('C19 returns only the value of a success', 'res == Ok::<T, Range<ParseError>>(r)')], nodec=False, stops=True)
    f['load_syntax_data'] = C(req=[('ascii letters', 'LA()')],
                              ens=[('C19 the meta data of the data file under the syntax of the syntax file', 'data_of(r@, file_text(syntax_path), file_text(data_path))')], nodec=False, stops=True)
    t = load.theory()
    return Theory('files', t.prelude + ['streams.rs', 'files.rs'], f, spec=t.spec, group='broadcast use grp_parse;')
