"""reads the description of the meta language (assets/self-syntax.txt) and prints it as specification text.
   python3 tools/mkmeta.py FILE > contracts/meta_rules.rs     (done once; the checks use the committed output)
An independent reader of the meta language: it shares nothing with the Rust code."""
import sys

SEPS = '[]{}():.!?"'


class R:
    def __init__(self, t):
        self.t, self.i, self.strs = t, 0, {}

    def ws(self):
        while self.i < len(self.t):
            if self.t[self.i].isspace():
                self.i += 1
            elif self.t.startswith('//', self.i):
                self.i = self.t.find('\n', self.i) % (len(self.t) + 1)
            elif self.t.startswith('/*', self.i):
                d = 0
                while True:
                    if self.t.startswith('/*', self.i):
                        d, self.i = d + 1, self.i + 2
                    elif self.t.startswith('*/', self.i):
                        d, self.i = d - 1, self.i + 2
                        if d == 0:
                            break
                    else:
                        self.i += 1
            else:
                return

    def eat(self, s):
        if self.t.startswith(s, self.i):
            self.i += len(s)
            return True
        return False

    def need(self, s):
        assert self.eat(s), (s, self.t[self.i:self.i + 40])

    def name(self):
        j = self.i
        while self.t[self.i] not in SEPS and not self.t[self.i].isspace():
            self.i += 1
        return self.t[j:self.i]

    def quoted(self):
        self.need('"')
        o = ''
        while not self.eat('"'):
            if self.eat('\\'):
                o += {'n': '\n', 't': '\t', 'r': '\r'}.get(self.t[self.i], self.t[self.i])
            else:
                o += self.t[self.i]
            self.i += 1
        return o

    def set(self):
        if self.eat('_'):
            return self.strs[self.name()]
        return self.quoted()

    def prop(self):
        return self.set() if self.eat(':') else None

    def opt(self):
        if self.eat('?'):
            return True
        self.need('!')
        return False

    def many(self, end):
        out = []
        while True:
            self.ws()
            if self.eat(end):
                return out
            out.append(self.rule())

    def rule(self):
        if self.eat('['):
            return ('Seq', self.many(']'))
        if self.eat('{'):
            return ('Sel', self.many('}'))
        if self.eat('.w'):
            return ('Ws', self.opt())
        if self.eat('...'):
            return ('Until', self.set(), self.opt(), self.prop())
        if self.eat('..'):
            return ('UntilWs', self.set(), self.opt(), self.prop())
        if self.eat('.t'):
            return ('Text', self.opt(), self.prop())
        if self.eat('.$'):
            return ('Num', self.eat('_'), self.prop())
        if self.eat('.s'):
            o, tr = self.opt(), self.eat('.')
            self.need('(')
            self.ws(); by = self.rule(); self.ws(); r = self.rule(); self.ws()
            self.need(')')
            return ('Sep', o, tr, by, r)
        if self.eat('.r'):
            o = self.opt()
            self.need('(')
            r = self.rule()
            self.need(')')
            return ('Rep', o, r)
        if self.eat('.l'):
            ind = self.eat('+')
            self.need('(')
            self.ws(); r = self.rule(); self.ws()
            self.need(')')
            return ('Lines', ind, r)
        if self.eat('?'):
            return ('Opt', self.rule())
        if self.t[self.i] == '!' and self.t[self.i + 1] not in '"_':
            self.i += 1
            return ('Not', self.rule())
        if self.t[self.i] in '"_' or self.t[self.i] == '!':
            nt = self.eat('!')
            x = self.set()
            p, inv = None, False
            if self.eat(':'):
                inv = self.eat('!')
                p = self.set()
            return ('Tag', x, nt, inv, p)
        n = self.name()
        assert n, self.t[self.i:self.i + 40]
        return ('Ref', n, self.prop())

    def all(self):
        out = []
        while True:
            self.ws()
            if self.i >= len(self.t):
                return out
            if self.eat('_'):
                n = self.name()
                self.need(':')
                self.ws()
                self.strs[n] = self.quoted()
                continue
            while self.t[self.i].isdigit():
                self.i += 1
            self.ws(); n = self.name(); self.ws()
            self.need('=')
            self.ws()
            out.append((n, self.rule()))


def q(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n').replace('\t', '\\t') + '"@'


def p(x):
    return 'None' if x is None else 'Some(%s)' % q(x)


def b(x):
    return 'true' if x else 'false'


def show(r):
    k, a = r[0], r[1:]
    if k in ('Seq', 'Sel'):
        return 'ML::%s(Seq::<ML>::empty()%s)' % (k, ''.join('.push(%s)' % show(x) for x in a[0]))
    if k == 'Ws':
        return 'ML::Ws(%s)' % b(a[0])
    if k in ('Until', 'UntilWs'):
        return 'ML::%s(%s, %s, %s)' % (k, q(a[0]), b(a[1]), p(a[2]))
    if k in ('Text', 'Num'):
        return 'ML::%s(%s, %s)' % (k, b(a[0]), p(a[1]))
    if k == 'Sep':
        return 'ML::Sep(%s, %s, Box::new(%s), Box::new(%s))' % (b(a[0]), b(a[1]), show(a[2]), show(a[3]))
    if k in ('Rep', 'Lines'):
        return 'ML::%s(%s, Box::new(%s))' % (k, b(a[0]), show(a[1]))
    if k in ('Opt', 'Not'):
        return 'ML::%s(Box::new(%s))' % (k, show(a[0]))
    if k == 'Tag':
        return 'ML::Tag(%s, %s, %s, %s)' % (q(a[0]), b(a[1]), b(a[2]), p(a[3]))
    return 'ML::Ref(%s, %s)' % (q(a[0]), p(a[1]))


if __name__ == '__main__':
    rs = R(open(sys.argv[1]).read()).all()
    print('// written by tools/mkmeta.py from assets/self-syntax.txt')
    print('pub open spec fn ml_len() -> nat { %d }' % len(rs))
    print('pub open spec fn ml_name(i: int) -> Seq<char> {')
    print('    ' + ' else '.join('if i == %d { %s }' % (i, q(n)) for i, (n, _) in enumerate(rs[:-1])) + ' else { %s }' % q(rs[-1][0]))
    print('}')
    for i, (n, r) in enumerate(rs):
        print('pub open spec fn mlr_%s() -> ML { %s }' % (n, show(r)))
    print('#[verifier::opaque]')
    print('pub open spec fn ml_rule(i: int) -> ML {')
    print('    ' + ' else '.join('if i == %d { mlr_%s() }' % (i, n) for i, (n, _) in enumerate(rs[:-1])) + ' else { mlr_%s() }' % rs[-1][0])
    print('}')
    # the names as a set
    print('#[verifier::opaque]')
    print('pub open spec fn ml_named(s: Seq<char>) -> bool { %s }' % ' || '.join('s == %s' % q(n) for n, _ in rs))
    print('pub proof fn lem_mnames() ensures %s { reveal(ml_named); }' % ', '.join('ml_named(%s)' % q(n) for n, _ in rs))
    print('pub proof fn lem_named(names: Seq<Arc<String>>, s: Seq<char>) -> (k: int)')
    print('    requires ml_names(names), ml_named(s)')
    print('    ensures 0 <= k < names.len(), sv(names[k]) == s, names.len() <= usize::MAX')
    print('{')
    print('    reveal(ml_names); reveal(ml_named);')
    print('    ' + ' else '.join('if s == %s { assert(sv(names[%d]) == ml_name(%d)); %d }' % (q(n), i, i, i) for i, (n, _) in enumerate(rs)) + ' else { 0 }')
    print('}')
