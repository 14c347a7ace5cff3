#!/usr/bin/env python3
"""weave: put contracts on mechanically extracted functions and run Verus on the result.

The executable text comes from tools `vextract` only; this module adds specifications
(requires/ensures/invariants), proof text (ghost code) and the prelude, never executable code.
"""
import json, os, re, subprocess, sys, time, hashlib, importlib.util, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.environ.get('VP_BUILD', os.path.join(VERIF, 'build'))
EXTRACT = os.path.join(VERIF, 'extract', 'target', 'release', 'vextract')
SRC = ['src/lib.rs', 'src/tokenizer.rs', 'src/parse_error.rs', 'src/parse_error_handler.rs', 'src/json.rs',
       'src/optimize.rs']
SRC_DIRS = ['src/meta_rules']
SRC2 = ['src/bootstrap/convert.rs', 'src/bootstrap/rules.rs', 'src/search/src/lib.rs']


def sources():
    known = SRC + SRC2 + ['src/bootstrap/mod.rs']
    out = []
    for p in SRC:
        if os.path.exists(os.path.join(REPO, p)):
            out.append(p)
    # every other module file of the crate is extracted as well (a helper may have moved there)
    extra = []
    for root, _, fs in sorted(os.walk(os.path.join(REPO, 'src'))):
        for f in sorted(fs):
            p = os.path.relpath(os.path.join(root, f), REPO)
            if not p.endswith('.rs') or p in known or '/bin/' in p or '/tests' in p:
                continue
            if p.startswith('src/search/') and p not in SRC2:
                continue
            extra.append(p)
    out += extra
    out += [p for p in SRC2 if os.path.exists(os.path.join(REPO, p))]
    return out


def dep(name):
    base = os.path.expanduser('~/.cargo/registry/src')
    for d in sorted(os.listdir(base)):
        p = os.path.join(base, d, name)
        if os.path.isdir(p):
            return p
    return None


class ExtractError(Exception):
    pass


def build_extractor():
    r = subprocess.run(['cargo', 'build', '--offline', '--release', '-q'], cwd=os.path.join(VERIF, 'extract'),
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise ExtractError('extractor does not build: ' + r.stderr[-2000:])


_cache = {}


def extract(known=None):
    key = tuple(sorted(known or []))
    if key in _cache:
        return _cache[key]
    if not os.path.exists(EXTRACT):
        build_extractor()
    cmd = [EXTRACT]
    if known:
        os.makedirs(BUILD, exist_ok=True)
        kf = os.path.join(BUILD, 'known.%d.%d.txt' % (os.getpid(), threading.get_ident()))
        with open(kf, 'w') as f:
            f.write('\n'.join(sorted(known)) + '\n')
        cmd += ['--known', kf]
    files = sources()
    rp = dep('range-1.0.0')
    r = subprocess.run(cmd + files + ([os.path.join(rp, 'src/lib.rs')] if rp else []), cwd=REPO, capture_output=True, text=True)
    if known:
        os.unlink(kf)
    if r.returncode != 0:
        raise ExtractError(r.stderr[-4000:])
    d = json.loads(r.stdout)
    d['by_key'] = {f['key']: f for f in d['functions']}
    _cache[key] = d
    return d


def extract_for(th):
    """the functions as theory th needs them: calls of functions that it neither specifies nor declares are inlined"""
    text = ''.join(open(os.path.join(VERIF, 'contracts', p)).read() for p in th.prelude) + (th.spec or '')
    names = {('*.' if ind else '*') + n
             for ind, n in re.findall(r'^([ \t]*)[^\n/]*?(?<!spec )(?<!proof )(?<!axiom )\bfn (\w+)', text, re.M)}
    return extract(sorted(set(th.fns) | names | {'-' + k for k, c in th.fns.items() if c.trusted}))


DEP_TYPES = ['ReadToken', 'ParseStringError', 'NumberSettings', 'ParseNumberError']


def extract_dep():
    """the dependency read_token, whose functions the parser calls"""
    if 'dep' not in _cache:
        if not os.path.exists(EXTRACT):
            build_extractor()
        p = dep('read_token-1.0.0')
        if not p:
            raise ExtractError('read_token-1.0.0 not found')
        r = subprocess.run([EXTRACT, '--str-slices', os.path.join(p, 'src/lib.rs')], capture_output=True, text=True)
        if r.returncode != 0:
            raise ExtractError(r.stderr[-4000:])
        d = json.loads(r.stdout)
        d['by_key'] = {f['key']: f for f in d['functions'] if f['owner'] in DEP_TYPES}
        _cache['dep'] = d
    return _cache['dep']


class C:
    """contract of one function"""

    def __init__(self, req=(), ens=(), loops=None, entry='', attrs=(), ret='r', isolate=False, dec=None, nodec=True, mode='',
                 rlimit=None, trusted=False, strlits=False, stops=False):
        # stops: the documentation announces the panics of the function; a panic ends it (what it returns otherwise is specified)
        # strlits: the characters of every string literal of the function are revealed at its entry
        self.req = list(req)
        self.ens = list(ens)
        self.loops = loops or {}
        self.entry = entry
        self.attrs = list(attrs)
        self.ret = ret
        self.isolate = isolate
        self.dec = dec
        self.nodec = nodec
        self.rlimit = rlimit
        self.trusted = trusted
        self.strlits = strlits
        self.stops = stops
        self.min_loops = None    # number of loops when the optional ones are absent
        self.hints = []          # (regex, text, where) proof text placed before/after the first matching line (where: before, after) or each (before each, after each); skipped when not found


class L:
    """loop contract"""

    def __init__(self, inv=(), eb=(), ens=(), dec=None, start='', end='', before=''):
        self.inv = list(inv)
        self.eb = list(eb)
        self.ens = list(ens)
        self.dec = dec
        self.start = start
        self.end = end
        self.before = before


class Theory:
    def __init__(self, name, prelude, fns, types=None, spec='', drop_types=(), tail='', group=''):
        self.name = name
        self.prelude = prelude      # list of file names in contracts/
        self.fns = fns              # key -> C
        self.spec = spec            # additional spec text
        self.drop_types = set(drop_types)
        self.tail = tail
        self.group = group


# ---------------------------------------------------------------- renamed variables
LOCALS = os.path.join(VERIF, 'contracts', 'locals.json')


def shape(f):
    """names of the parameters and locals of a function, in order"""
    unu = lambda x: re.sub(r'__([a-z])_(\d+)_u\b', r'__\1\2', x)
    ps = [re.sub(r'^mut ', '', x.split(':')[0].strip()) for x in split_params(f['inputs'])]
    kinds = []
    for k in range(f['nloops']):
        h = f['body'].split('__vp_loop!(%d)' % k)[0] if '__vp_loop!(%d)' % k in f['body'] else ''
        h = re.findall(r'\b(while|loop)\b', h)
        kinds.append(h[-1] if h else '')
    return [ps, [[unu(a), ' '.join(unu(b).split())] for a, b in f['locals']], kinds]


def renames(key, f):
    """-> (names of the pinned tree -> names now, whether only whole lists of equal length differ)"""
    if 'locals' not in _cache:
        _cache['locals'] = json.load(open(LOCALS)) if os.path.exists(LOCALS) else {}
    if key not in _cache['locals'] or os.environ.get('VP_NORENAME'):
        return ({}, {}), True
    (op, ol, ok), (np, nl, nk) = _cache['locals'][key], shape(f)
    m = {}
    if len(op) == len(np):
        m = {a: b for a, b in zip(op, np) if a != b}
    strict = ok == nk
    old, new = set(x[0] for x in ol), set(x[0] for x in nl)
    inner = dict(m)
    import difflib
    for tag, a, b, c, d in difflib.SequenceMatcher(a=[x[0] for x in ol], b=[x[0] for x in nl], autojunk=False).get_opcodes():
        if tag == 'equal':
            continue
        gone = [x for x in ol[a:b] if x[0] not in new]
        came = [x for x in nl[c:d] if x[0] not in old]
        if not gone or not came:
            continue
        if len(gone) == len(came) and b - a == d - c:
            pairs = list(zip(gone, came))
        else:
            strict = False
            pairs, rest = [], list(came)
            for g in gone:
                h = next((x for x in rest if x[1] == g[1]), None)
                if h:
                    rest.remove(h)
                    pairs.append((g, h))
        for g, h in pairs:
            if not g[0].startswith('__q') and g[0].startswith('__i') and not h[0].startswith('__'):
                continue                # counters: by their loop, below
            if g[0].startswith('__') != h[0].startswith('__'):
                strict = False
            if g[0] in op:
                strict = False
            inner[g[0]] = h[0]
    # a counted loop written as `while i < n`: its counter takes the place of the generated one
    heads = re.findall(r'\bwhile (\w+) <[^\n]*\{\s*__vp_loop!\((\d+)\);', f['body'])
    for i, k in heads:
        if '__i' + k in old and '__i' + k not in new and not i.startswith('__'):
            strict = False
            inner['__i' + k] = i
    # the same for the vector that a loop fills
    for k, b in re.findall(r'__vp_loop!\((\d+)\);(.*?)__vp_loopend!\(\1\);', f['body'], re.S):
        x = re.findall(r'^\s*(\w+)\.push\(', b, re.M)
        if '__c' + k in old and '__c' + k not in new and len(set(x)) == 1 and not x[0].startswith('__'):
            strict = False
            inner['__c' + k] = x[0]
    return (m, inner), strict


def renamed(c, mm):
    """the contract with other names for the variables"""
    def sub(m):
        if not m:
            return lambda x: x
        rx = pattern(m)
        return lambda x: rx.sub(lambda g: m[g.group(1)], x) if isinstance(x, str) else x
    def pattern(m):
        return re.compile(r'(?:(?<=\\b)|(?<![\w.\\]))(' + '|'.join(re.escape(x) for x in sorted(m, key=len, reverse=True)) + r')\b(?!\s*\()')
    u, t = sub(mm[0]), sub(mm[1])
    cl = lambda l: [(a, t(b)) for a, b in l]
    co = lambda l: [(a, u(b)) for a, b in l]
    import copy
    n = copy.copy(c)
    n.req, n.ens, n.entry, n.dec = co(c.req), co(c.ens), u(c.entry), u(c.dec)
    n.hints = [(t(a), t(b), w) for a, b, w in c.hints]
    n.loops = {k: L(cl(l.inv), cl(l.eb), cl(l.ens), t(l.dec), t(l.start), t(l.end), t(l.before)) for k, l in c.loops.items()}
    return n


RANGE_SKIP = {'map', 'iter', 'intersect', 'ends_intersect', 'shrink', 'shrink_n'}


def clause(kw, items, out, key):
    """items: list of (label, expr)"""
    if not items:
        return
    out.append((kw, None))
    for lab, e in items:
        out.append(('    ' + e.strip() + ',', (key, kw, lab)))


class Woven:
    pass


def split_params(inputs):
    res = []
    depth = 0
    cur = ''
    for ch in inputs:
        if ch in '<([{':
            depth += 1
        if ch in '>)]}':
            depth -= 1
        if ch == ',' and depth == 0:
            res.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        res.append(cur.strip())
    return res


def lab(e, d):
    """proof text may end in `//@ label`: the obligation of that line"""
    m = re.search(r'//@ (.*)$', e)
    return m.group(1) if m else d


def auto_loop(k, before):
    """bounds of the counters of a generated loop without contract"""
    init = cnt = None
    for l in before[-12:]:
        m = re.match(r'\s*let mut __i%d(?:: usize)? = ([\w.()]+);' % k, l)
        init = m.group(1) if m else init
        cnt = cnt or re.match(r'\s*let mut __c%d: usize = 0;' % k, l)
    m = re.match(r'\s*while __i%d ([<>]) ([\w.()]+) \{$' % k, before[-1]) if before else None
    if not m or init is None:
        return None
    if m.group(1) == '<' and init == '0':
        return L(inv=[('counter', '__i%d <= %s' % (k, m.group(2)))] + ([('count', '__c%d <= __i%d' % (k, k))] if cnt else []), dec='%s - __i%d' % (m.group(2), k))
    if m.group(1) == '>' and m.group(2) == '0':
        return L(inv=[('counter', '__i%d <= %s' % (k, init))] + ([('count', '__c%d <= %s - __i%d' % (k, init, k))] if cnt else []), dec='__i%d' % k)
    return None


def weave_fn(f, c, out, group='', probe=False):
    key = f['key']
    inputs = f['inputs']
    for p in c.attrs:
        out.append((p, None))
    if c.nodec and not c.trusted and not c.dec and re.search(r'\b(loop|while|for)\b|\bparse\w*\(', f['body']):
        out.append(('#[verifier::exec_allows_no_decreases_clause]', None))
    if not c.isolate:
        out.append(('#[verifier::loop_isolation(false)]', None))
    if any(l.eb or l.ens for l in c.loops.values()):
        out.append(('#[verifier::allow_complex_invariants]', None))
    if c.rlimit:
        out.append(('#[verifier::rlimit(%s)]' % c.rlimit, None))
    if c.trusted:
        out.append(('#[verifier::external_body]', None))
    ret = ' -> (%s: %s)' % (c.ret, f['ret']) if f['ret'] else ''
    out.append(('pub fn %s%s(%s)%s %s' % (f['name'], f['generics'], inputs.strip().rstrip(','), ret, f['where']), (key, 'sig', 'signature')))
    clause('requires', c.req, out, key)
    clause('ensures', c.ens, out, key)
    if c.dec:
        out.append(('decreases', None))
        out.append(('    ' + c.dec + ',', (key, 'decreases', 'termination')))
    body = f['body']
    if c.stops:
        body = body.replace('vp_panic()', 'vp_stop()').replace('.unwrap()', '.vp_or_stop()')
    if c.trusted:
        out.append(('{ unimplemented!() }', None))
        return
    lines = body.rstrip('\n').split('\n')
    i = 0
    res = []
    for ln in lines:
        s = ln.strip()
        m = re.match(r'__vp_entry!\("(.*)"\);', s)
        if m:
            res.append((ln.replace(s, group), None, 'x'))
            if probe:
                res.append(('    assert(false);', (key, 'probe', 'unreachable'), 'p'))
            if c.strlits:
                for lit in sorted(set(re.findall(r'"(?:[^"\\]|\\.)*"', re.sub(r"'\\?\"'", '', body))) - {'"%s"' % key}):
                    res.append(('    proof { reveal_strlit(%s); }' % lit, (key, 'proof', 'entry'), 'p'))
            if c.entry:
                for e in c.entry.strip('\n').split('\n'):
                    res.append(('    ' + e, (key, 'proof', lab(e, 'entry')), 'p'))
            continue
        m = re.match(r'__vp_loop!\((\d+)\);', s)
        if m:
            k = int(m.group(1))
            lc = c.loops.get(k) or auto_loop(k, [x[0] for x in res if x[2] == 'b'])
            # the previous line ends with the loop's `{`
            j = len(res) - 1
            while res[j][2] != 'b' or not res[j][0].rstrip().endswith('{'):
                j -= 1
            if lc:
                ind = re.match(r'\s*', res[j][0]).group(0)
                head = res[j][0].rstrip()[:-1]
                ins = []
                # if the header is multi-line the keyword may be further up; only the `{` matters
                blk = []
                b = re.search(r'__vp_loop!\(%d\);(.*)__vp_loopend!\(%d\);' % (k, k), body, re.S)
                if b and not re.search(r'\bbreak\b', b.group(1)):
                    # without `break` the two kinds are the same
                    clause(ind + '  invariant', list(lc.eb) + list(lc.inv), blk, key + '#loop%d' % k)
                else:
                    clause(ind + '  invariant_except_break', lc.eb, blk, key + '#loop%d' % k)
                    clause(ind + '  invariant', lc.inv, blk, key + '#loop%d' % k)
                clause(ind + '  ensures', lc.ens, blk, key + '#loop%d' % k)
                if lc.dec:
                    blk.append((ind + '  decreases ' + lc.dec + ',', (key + '#loop%d' % k, 'decreases', 'termination')))
                tail = [(t, g, 'c') for t, g in blk] + [(ind + '{', None, 'x')]
                pre = []
                if lc.before:
                    # ghost statements before the loop: go before the line that starts the loop
                    h = j
                    while not re.search(r'\b(while|loop|for)\b', res[h][0]):
                        h -= 1
                    bl = [(ind + '    ' + e, (key + '#loop%d' % k, 'proof', lab(e, 'before')), 'p') for e in lc.before.strip('\n').split('\n')]
                    res[h:h] = bl
                    j += len(bl)
                res[j:j + 1] = [(head, None, 'b')] + tail
                if lc.start:
                    for e in lc.start.strip('\n').split('\n'):
                        res.append(('        ' + e, (key + '#loop%d' % k, 'proof', lab(e, 'start')), 'p'))
            continue
        m = re.match(r'__vp_loopend!\((\d+)\);', s)
        if m:
            k = int(m.group(1))
            lc = c.loops.get(k)
            if lc and lc.end:
                for e in lc.end.strip('\n').split('\n'):
                    res.append(('        ' + e, (key + '#loop%d' % k, 'proof', lab(e, 'end')), 'p'))
            continue
        res.append((ln, (key, 'body', ln.strip()), 'b'))
    for rx, text, where in c.hints:
        j = 0
        while j < len(res):
            ln, g, kind = res[j]
            m = re.search(rx, ln) if kind == 'b' else None
            if m:
                tx = m.expand(text) if where.endswith('each') else text
                bl = [(e, (key, 'proof', lab(e, 'hint')), 'p') for e in tx.strip('\n').split('\n')]
                p = j if where.startswith('before') else j + 1
                res[p:p] = bl
                j += len(bl)
                if not where.endswith('each'):
                    break
            j += 1
    for ln, g, _ in res:
        out.append((ln, g))


def weave(th, d, only=None, probe=False):
    """returns Woven with .text, .map (line -> (key, kind, label)), .missing, .unsupported"""
    w = Woven()
    out = []
    w.missing = []
    w.unsupported = []
    E = lambda s: [out.append((l, None)) for l in s.split('\n')]
    E('#![allow(unused_imports, unused_variables, unused_mut, unused_assignments, dead_code, unused_parens, unused_braces, non_snake_case, unreachable_code, unused_must_use)]')
    E('use vstd::prelude::*;')
    E('use std::sync::Arc;')
    E('verus! {')
    def pre(p, t=None):
        t = t if t is not None else open(os.path.join(VERIF, 'contracts', p)).read()
        cur = 'prelude ' + p
        for l in t.split('\n'):
            m = re.match(r'\s*(?:pub\s+)?(?:broadcast\s+)?(?:open\s+)?(?:proof\s+|spec\s+)?fn\s+(\w+)', l)
            if m:
                cur = 'lemma ' + m.group(1)
            out.append((l, (cur, 'lemma', p)))
    pre(th.prelude[0])
    for a in d['aliases']:
        E(a)
    for a in d['consts']:
        E(a)
    dd = extract_dep()
    for t in d['types'] + [x for x in dd['types'] if x['name'] in DEP_TYPES]:
        if t['name'] in th.drop_types:
            continue
        if 'Copy' in t['derives']:
            E('#[derive(Clone, Copy)]')
        E(re.sub(r'\s+', ' ', t['text']))
    for p in th.prelude[1:]:
        pre(p)
    pre('spec ' + th.name, th.spec)
    by = dict(dd['by_key'])
    by.update(d['by_key'])
    w.keys = []
    w.moved = []                # functions whose variables were matched by a guess
    for key, c in th.fns.items():
        f = by.get(key)
        if f is None:
            w.missing.append(key)
            continue
        if f['unsupported'] and not c.trusted:
            w.unsupported.append((key, f['unsupported']))
        if f['nloops'] != getattr(c, 'expect_loops', f['nloops']):
            w.unsupported.append((key, ['loop count %d' % f['nloops']]))
        w.keys.append(key)
        m, strict = renames(key, f)
        if m[0] or m[1]:
            c = renamed(c, m)
        if not strict:
            w.moved.append(key)
        if f['owner']:
            E('impl%s %s {' % (f['impl_generics'], f['self_ty']))
        weave_fn(f, c, out, th.group, probe)
        if f['owner']:
            E('}')
    for l in th.tail.split('\n'):
        out.append((l, ('tail ' + th.name, 'lemma', '')))
    E('} // verus!')
    E('fn main() {}')
    # expand multi-line entries
    lines = []
    mp = {}
    for t, g in out:
        for l in t.split('\n'):
            lines.append(l)
            if g:
                mp[len(lines)] = g
    w.text = '\n'.join(lines) + '\n'
    w.map = mp
    return w


def droppable(g):
    """loop clauses and proof text that carry no obligation of a property: without them less can be proved, never more"""
    if not g:
        return False
    if '#loop' in g[0] and g[1].strip() in ('invariant', 'invariant_except_break', 'ensures'):
        return True
    return g[1] == 'proof' and not re.match(r'C\d\d\b', g[2] or '')


def drop(w, drops):
    """leaves out the lines (contract text, not code) listed in drops"""
    lines = w.text.split('\n')
    n = 0
    for i, l in enumerate(lines):
        g = w.map.get(i + 1)
        if (g, l) in drops:
            lines[i] = '' if g[1] == 'proof' else '    true,'
            n += 1
    w.text = '\n'.join(lines)
    return n


def to_drop(w, errors):
    """contract text that does not fit the code any more (it names variables that are gone); None if the errors have another cause"""
    lines = w.text.split('\n')
    res = set()
    for e in errors:
        if classify(e['msg']) != 'compile':
            continue
        at = [ln for ln, g, _, primary in e['spans'] if primary and droppable(g)]
        if not at:
            return None
        for ln in at:
            g = w.map[ln]
            a = b = ln
            same = (lambda x: x and x[0] == g[0] and x[1] == 'proof') if g[1] == 'proof' else (lambda x: x == g)
            while same(w.map.get(a - 1)):
                a -= 1
            while same(w.map.get(b + 1)):
                b += 1
            for k in range(a, b + 1):
                if not droppable(w.map[k]):
                    return None
                res.add((w.map[k], lines[k - 1]))
    return res or None


VERUS_ARGS = ['--output-json', '--time-expanded', '--error-format=json', '--num-threads', '8', '--triggers-mode', 'silent', '--multiple-errors', '5', '--rlimit', '20']


def run_verus(w, name, extra=(), timeout=800):
    os.makedirs(BUILD, exist_ok=True)
    path = os.path.join(BUILD, name + '.rs')
    with open(path, 'w') as f:
        f.write(w.text)
    t0 = time.time()
    try:
        r = subprocess.run(['verus', path] + VERUS_ARGS + list(extra), capture_output=True, text=True, timeout=timeout, cwd=BUILD)
    except subprocess.TimeoutExpired:
        return dict(status='timeout', errors=[], verified=0, seconds=time.time() - t0, path=path, other=[])
    res = dict(seconds=time.time() - t0, path=path, errors=[], other=[], rc=r.returncode)
    try:
        o = json.loads(r.stdout)
        vr = o.get('verification-results', {})
        res['verified'] = vr.get('verified', 0)
        res['nerrors'] = vr.get('errors', 0)
        res['vir_error'] = vr.get('encountered-vir-error', False)
        res['success'] = vr.get('success', False)
        t = o.get('times-ms', {})
        res['smt_ms'] = (t.get('smt') or {}).get('total') if isinstance(t.get('smt'), dict) else None
        res['times'] = t
    except Exception:
        res['verified'] = 0
        res['nerrors'] = -1
        res['success'] = False
    for l in r.stderr.split('\n'):
        if not l.startswith('{'):
            continue
        try:
            m = json.loads(l)
        except Exception:
            continue
        if m.get('level') not in ('error', 'warning', 'note', 'help'):
            continue
        if m['level'] != 'error':
            continue
        spans = []
        for s in m.get('spans', []):
            for ln in range(s['line_start'], s['line_end'] + 1):
                if ln in w.map:
                    spans.append((ln, w.map[ln], s.get('label'), s.get('is_primary')))
                    break
            else:
                spans.append((s['line_start'], None, s.get('label'), s.get('is_primary')))
        msg = m.get('message', '')
        if msg.startswith('aborting due to'):
            continue
        res['errors'].append(dict(msg=msg, spans=spans, rendered=m.get('rendered', ''), code=m.get('code')))
    if res.get('success'):
        res['status'] = 'verified'
    else:
        kinds = [classify(e['msg']) for e in res['errors']]
        if res.get('vir_error') or res['nerrors'] <= 0 or not kinds or 'compile' in kinds:
            res['status'] = 'compile'
        elif all(k == 'rlimit' for k in kinds):
            res['status'] = 'rlimit'
        else:
            res['status'] = 'failed'
    return res


def classify(msg):
    ok = ['not satisfied', 'not met', 'assertion failed', 'invariant not satisfied', 'possible arithmetic',
          'decreases not satisfied', 'loop ensures', 'possible division', 'recommendation', 'unable to prove', 'assertion', 'possible bit',
          'could not prove', 'bitvector', 'constructed value may fail', 'cannot show invariant', 'possible']
    if 'rlimit' in msg.lower() or 'resource limit' in msg.lower():
        return 'rlimit'
    m = msg.lower()
    for k in ok:
        if k in m:
            return 'obligation'
    return 'compile'


def load(name):
    p = os.path.join(VERIF, 'contracts', name + '.py')
    sys.path.insert(0, os.path.join(VERIF, 'tools'))
    sys.path.insert(0, os.path.join(VERIF, 'contracts'))
    spec = importlib.util.spec_from_file_location(name, p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.theory()


if __name__ == '__main__':
    name = sys.argv[1]
    th = load(name)
    d = extract_for(th)
    w = weave(th, d)
    if w.missing:
        print('MISSING', w.missing)
    if w.unsupported:
        print('UNSUPPORTED', w.unsupported)
    r = run_verus(w, name, sys.argv[2:])
    for e in r['errors'][:40]:
        print('--', e['msg'])
        for s in e['spans']:
            print('     line %d %s %s' % (s[0], s[1], s[2] or ''))
        if classify(e['msg']) == 'compile':
            print(e['rendered'][:1500])
    if os.environ.get('VP_T'):
        fl = []
        for m in r['times'].get('smt', {}).get('smt-run-module-times', []):
            for x in m.get('function-breakdown', []):
                fl.append((x.get('time', 0), x.get('rlimit', 0), x['function']))
        for x in sorted(fl, reverse=True)[:14]:
            print('   ', x)
    print(name, r['status'], 'verified', r.get('verified'), 'errors', r.get('nerrors'), '%.1fs' % r['seconds'], 'smt', r.get('smt_ms'))
