"""contracts of the dependency read_token 1.0.0; proved in theory `rtok`, used as callee contracts everywhere else"""
from weave import C, L


def contracts():
    f = {}
    HERE = 'r.0.offset == self.offset'
    f['ReadToken::new'] = C(ens=[('value', 'r.src@ == src@ && r.offset == offset')])
    f['ReadToken::consume'] = C(req=[('whole characters', 'boundary(self.src@, n as int)'), ('position representable', 'rt_ok(self)')],
                                ens=[('rest', 'r.src@ == bskip(self.src@, n as int)'), ('position', 'r.offset == self.offset + n'), ('advance', 'adv(self, r)')])
    f['ReadToken::raw_string'] = C(req=[('whole characters', 'boundary(self.src@, n as int)')], ens=[('characters', 'r@ == btake(self.src@, n as int)')])
    f['ReadToken::subtract'] = C(req=[('not before', 'self.offset >= rhs.offset')], ens=[('range', 'r.offset == rhs.offset && r.length == self.offset - rhs.offset')])
    f['ReadToken::start'] = C(ens=[('range', 'r.offset == self.offset && r.length == 0')])
    f['ReadToken::peek'] = C(ens=[('range', 'r.offset == self.offset && r.length == n')])
    f['ReadToken::tag'] = C(ens=[('tag', '''match r {
            Some(x) => starts_with(self.src@, tag@) && x.offset == self.offset && x.length == blen(tag@) && boundary(self.src@, x.length as int),
            None => !starts_with(self.src@, tag@) }''')])
    f['ReadToken::until_any_or_whitespace'] = C(ens=[('position', HERE), ('length', 'r.0.length == until_ws_len(self.src@, any@)'), ('whole characters', 'boundary(self.src@, r.0.length as int)')])
    f['ReadToken::until_any'] = C(ens=[('position', HERE), ('length', 'r.0.length == until_len(self.src@, any@)'), ('whole characters', 'boundary(self.src@, r.0.length as int)')])
    f['ReadToken::whitespace'] = C(ens=[('position', 'r.offset == self.offset'), ('length', 'r.length == ws_len(self.src@)'), ('whole characters', 'boundary(self.src@, r.length as int)')])
    f['ReadToken::string'] = C(ens=[('literal', '''match r {
            Some(x) => str_len(self.src@) == Some(x.length as int) && x.offset == self.offset && x.length >= 2
                && boundary(self.src@, x.length as int) && self.src@.len() > 0 && self.src@[0] == '"',
            None => str_len(self.src@) is None }''')])
    f['ReadToken::parse_string'] = C(req=[('literal', 'str_len(self.src@) == Some(n as int)'), ('position representable', 'rt_ok(*self)')], ens=[('value', '''match r {
            Ok(t) => str_val(self.src@, n as int) == Ok::<Seq<char>, (int, int, ParseStringError)>(t@),
            Err(e) => str_val(self.src@, n as int) matches Err(x) && e.offset == self.offset + x.0 && e.length == x.1 && e.data == x.2 && e.offset >= self.offset && e.offset + e.length <= self.offset + blen(self.src@) }''')])
    f['ReadToken::number'] = C(ens=[('literal', '''match r {
            Some(x) => num_len(self.src@, settings.allow_underscore) == Some(x.length as int) && x.offset == self.offset
                && boundary(self.src@, x.length as int),
            None => num_len(self.src@, settings.allow_underscore) is None }''')])
    f['ReadToken::parse_unicode'] = C(req=[('position representable', 'rt_ok(*self)')], ens=[('character', '''match r {
            Ok(x) => uni(self.src@, 0) == Ok::<char, (int, int, ParseStringError)>(x),
            Err(e) => uni(self.src@, 0) matches Err(x) && e.offset == self.offset + x.0 && e.length == x.1 && e.data == x.2 }''')])
    LR = [('position representable', 'rt_ok(*self)'), ('one-byte white space', 'ascii_ws(self.src@)')]
    f['ReadToken::ended_with_newline'] = C(req=[('range of whole characters', 'rng_ok(*self, range)'), ('position representable', 'rt_ok(*self)')], ens=[('new line', 'r == ends_nl(btake(self.src@, range.length as int), false)')])
    f['ReadToken::lines'] = C(req=LR, ens=[('calls and result', 'lines_spec(self.src@, self.offset as int, old(f).log(), final(f).log(), r)')])
    # floating point arithmetic: assumed everywhere
    f['ReadToken::parse_number'] = C(req=[('literal', 'num_len(self.src@, settings.allow_underscore) == Some(n as int)')],
                                     ens=[('value', 'r == num_val(self.src@, settings.allow_underscore, n as int)')], trusted=True)
    return f


def trusted():
    f = contracts()
    del f['ReadToken::ended_with_newline'], f['ReadToken::lines']
    for c in f.values():
        c.trusted = True
    return f
