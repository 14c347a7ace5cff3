"""contracts shared by several theories (see DESIGN.md)"""
from weave import C, L, Theory

# ---- range crate and small helpers: exact
RANGE = {
    'Range::new': C(ens=[('value', 'r == (Range { offset, length, data: () })')]),
    'Range::wrap': C(ens=[('value', 'r == (Range { offset: self.offset, length: self.length, data })')]),
    'Range::empty': C(ens=[('value', 'r == (Range { offset, length: 0, data: () })')]),
    'Range::next_offset': C(req=[('no overflow', 'self.offset + self.length <= usize::MAX')],
                            ens=[('value', 'r == self.offset + self.length')]),
    'Range::range': C(ens=[('value', 'r == (Range { offset: self.offset, length: self.length, data: () })')]),
    'Range::unwrap': C(ens=[('value', 'r == self.data')]),
    'Range::decouple': C(ens=[('value', 'r == ((Range { offset: self.offset, length: self.length, data: () }), self.data)')]),
}

ERRS = {
    'err_update': C(req=[('no overflow', 'eok(err) && eok(*old(opt_error))')],
                    ens=[('deepest error wins, newest on ties', '*final(opt_error) == emerge(err, *old(opt_error))')]),
    'ret_err': C(req=[('no overflow', 'end_of(a) <= usize::MAX && eok(b)')],
                 ens=[('certain failure unless strictly deeper', 'r == efinal(a, b)')]),
    'update': C(req=[('whole characters', 'boundary(old(read_token).src@, range.length as int) && rt_ok(*old(read_token))'),
                     ('no overflow', 'eok(err) && eok(*old(opt_error))')],
                ens=[('advances past the range', 'final(read_token).offset == old(read_token).offset + range.length && final(read_token).src@ == bskip(old(read_token).src@, range.length as int)'),
                     ('position only moves over whole characters', 'adv(*old(read_token), *final(read_token))'),
                     ('deepest error wins', '*final(opt_error) == emerge(err, *old(opt_error))')],
                entry='proof { reveal(adv); }'),
}

READ_DATA = {
    'read_data': C(req=[('state within vector', 'state.0 <= old(tokens)@.len()')],
                   ens=[('tokens up to the state kept, one appended', 'final(tokens)@ =~= old(tokens)@.take(state.0 as int).push(range_data) && final(tokens)@ == old(tokens)@.take(state.0 as int).push(range_data)'),
                        ('next state', 'r.0 == state.0 + 1')]),
}

TERMINALS = ['Tag', 'Text', 'Number', 'UntilAny', 'UntilAnyOrWhitespace']
COMPOSITES = ['Select', 'FastSelect', 'Sequence', 'SeparateBy', 'Repeat', 'Lines', 'Node', 'Not']
WF = {
    'Rule': 'wf(*self, refs@.len())',
    'Select': 'wfs(self.args@, refs@.len())',
    'Sequence': 'wfs(self.args@, refs@.len())',
    'FastSelect': 'wfs(self.args@, refs@.len()) && wf_table(self.table, self.args@.len(), self.tail)',
    'SeparateBy': 'wf(self.rule, refs@.len()) && wf(self.by, refs@.len())',
    'Repeat': 'wf(self.rule, refs@.len())',
    'Lines': 'LA() && wf(self.rule, refs@.len())',
    'Optional': 'wf(self.rule, refs@.len())',
    'Not': 'wf(self.rule, refs@.len())',
    'Node': 'self.index matches Some(i) ==> i < refs@.len()',
}
