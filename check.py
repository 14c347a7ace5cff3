#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property of /repo's working tree.

1. extract the functions of /repo mechanically, put the contracts on them, let Verus discharge every obligation;
2. run the reference comparison on the real code (looks for a concrete failing input; bounded, never counted as proof);
3. exit 0 / exit 1 with a VIOLATION line (see DESIGN.md, "Verdicts").
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, time, resource, hashlib

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
sys.path.insert(0, os.path.join(VERIF, 'contracts'))
import weave
from index import PROPS

REPO, BUILD = weave.REPO, weave.BUILD
T0 = time.time()
SEED = int(os.environ.get('VERIF_SEED', '1'))


def log(*a):
    print(*a, flush=True)


# run-time safety: overflow, division, preconditions of calls (indexing, slicing, unreachable panics), termination
SAFETY = r'arithmetic|division|precondition not satisfied|precondition not met|decreases not satisfied'

ENDS = r'decreases not satisfied|prove termination'


def build_harness():
    """build the harness crate against REPO; the manifest is rewritten only for another repository path"""
    src = os.path.join(VERIF, 'harness')
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, 'harness-target'))
    if REPO != '/repo':
        dst = os.path.join(BUILD, 'harness')
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(src, dst, ignore=shutil.ignore_patterns('target'))
        t = open(os.path.join(dst, 'Cargo.toml')).read().replace('"/repo', '"' + REPO)
        open(os.path.join(dst, 'Cargo.toml'), 'w').write(t)
        src = dst
    r = subprocess.run(['cargo', 'build', '--offline', '-q'], cwd=src, env=env, capture_output=True, text=True)
    exe = os.path.join(BUILD, 'harness-target', 'debug', 'vharness')
    if r.returncode != 0 or not os.path.exists(exe):
        return None, r.stderr[-3000:]
    return exe, ''


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_harness(exe, prop, secs, seed):
    """-> dict(ok, cases, skipped, fail=(case, text)|None)"""
    base = [exe, prop, '--seed', str(seed)]
    try:
        r = subprocess.run(base + ['--secs', str(secs)], capture_output=True, text=True, preexec_fn=limits, timeout=secs + 120, errors='replace')
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        rc, out = 'timeout', ''
    m = re.search(r'^OK pass=(\d+) skip=(\d+)', out, re.M)
    if rc == 0 and m:
        return dict(ok=True, cases=int(m.group(1)), skipped=int(m.group(2)), fail=None)
    m = re.search(r'^FAIL case=(\d+) seed=\d+\n', out, re.M)
    if m:
        case, text = int(m.group(1)), out[m.end():]
        return dict(ok=False, cases=case, skipped=0, fail=(case, text))
    # crashed: find the case again, one at a time
    tf = os.path.join(BUILD, 'trace.%d' % os.getpid())
    case = None
    try:
        r = subprocess.run(base + ['--secs', str(secs * 6), '--trace', tf], capture_output=True, text=True, preexec_fn=limits, timeout=secs * 6 + 60, errors='replace')
        if r.returncode not in (0, 1):
            case = int(open(tf).read())
        elif r.returncode == 1:
            m = re.search(r'^FAIL case=(\d+)', r.stdout, re.M)
            case = int(m.group(1)) if m else None
    except subprocess.TimeoutExpired:
        pass
    finally:
        if os.path.exists(tf):
            os.unlink(tf)
    if case is None:
        return dict(ok=False, cases=0, skipped=0, fail=None, crashed=str(rc))
    r = subprocess.run(base + ['--case', str(case)], capture_output=True, text=True, preexec_fn=limits, timeout=120, errors='replace')
    if r.returncode == 0:
        return dict(ok=False, cases=0, skipped=0, fail=None, crashed=str(rc))
    return dict(ok=False, cases=case, skipped=0, fail=(case, r.stdout + '\n  process ended with %s\n%s' % (r.returncode, r.stderr[-400:])))


def run_theory(name):
    """-> dict(status, errors, ...)"""
    th = weave.load(name)
    try:
        d = weave.extract_for(th)
    except weave.ExtractError as e:
        return dict(name=name, status='extract', detail=str(e)[-1500:], errors=[])
    w = weave.weave(th, d)
    if w.missing:
        return dict(name=name, status='lost anchor', detail='functions not found: %s' % ', '.join(w.missing), errors=[])
    if w.unsupported:
        return dict(name=name, status='unsupported', detail='; '.join('%s: %s' % (k, ', '.join(v)) for k, v in w.unsupported), errors=[])
    r = weave.run_verus(w, name)
    drops = set()
    for _ in range(4):
        more = weave.to_drop(w, r['errors']) if r['status'] == 'compile' else None
        if not more:
            break
        drops |= more
        weave.drop(w, more)
        w.moved += sorted({g[0].split('#')[0] for g, _ in more} & set(w.keys))
        r = weave.run_verus(w, name)
    r['name'] = name
    r['functions'] = w.keys
    # functions whose loops are not the ones the invariants were written for: their failed obligations decide nothing
    by = dict(weave.extract_dep()['by_key'])
    by.update(d['by_key'])
    r['loose'] = [k for k in w.keys if not th.fns[k].trusted and by[k]['nloops'] not in (len(th.fns[k].loops), th.fns[k].min_loops)]
    # the same for functions whose variables were matched with renamed ones by a guess, or in which a new helper was inlined
    r['loose'] += [k for k in w.keys if not th.fns[k].trusted and (k in w.moved or any(x.startswith('inlined') for x in by[k]['notes']))]
    r['clauses'] = sum(len(c.req) + len(c.ens) + sum(len(l.inv) + len(l.eb) + len(l.ens) for l in c.loops.values()) for c in th.fns.values())
    r['trusted'] = [k for k, c in th.fns.items() if c.trusted]
    if r['status'] == 'verified':
        # vacuity guard: `assert(false)` behind every precondition must fail
        wp = weave.weave(th, d, probe=True)
        weave.drop(wp, drops)
        p = weave.run_verus(wp, name + '_probe')
        hit = set()
        for e in p['errors']:
            for _, g, _, _ in e['spans']:
                if g and g[1] == 'probe':
                    hit.add(g[0])
        r['probe_missing'] = [k for k in w.keys if k not in hit and not th.fns[k].trusted]
    return r


def clauses(l):
    return set(' '.join(x[1].split()) for x in l)


def callee_contracts(thr):
    """contracts used without proof in one theory and proved, with the same text, in another one.
    -> (names whose every clause is proved in this run, notes for the others)"""
    here = {r['name'] for r in thr if r['status'] == 'verified'}
    ths = {n: weave.load(n) for n in sorted({t for c in PROPS.values() for t in c['theories']})}
    done, notes = set(), []
    for r in thr:
        for k, c in ths[r['name']].fns.items():
            if not c.trusted:
                continue
            provers = [(n, t.fns[k]) for n, t in ths.items() if k in t.fns and not t.fns[k].trusted and clauses(t.fns[k].req) <= clauses(c.req)]
            missing, elsewhere = [], set()
            for e in c.ens:
                by = [n for n, d in provers if ' '.join(e[1].split()) in clauses(d.ens)]
                if not by:
                    missing.append(e[0])
                elif not set(by) & here:
                    elsewhere.add(by[0])
            if missing or not provers:
                notes.append('assumed contract of %s%s' % (k, ': ' + '; '.join(missing) if missing else ''))
            elif elsewhere:
                for t in sorted(elsewhere):
                    notes.append('callee contract of %s: proved in theory %s, which the check of %s runs' % (k, t, [p for p, c in PROPS.items() if t in c['theories']][0]))
            done.add(k.split('::')[-1])
    return done, notes


def scan_assumptions(names, thr=()):
    """mechanical scan of the woven files for everything that is assumed"""
    res = []
    open_ended = []
    proved, notes = callee_contracts(thr)
    res += notes
    for n in names:
        p = os.path.join(BUILD, n + '.rs')
        if not os.path.exists(p):
            continue
        fn = ''
        ext = nodec = False
        text = open(p).read()
        used = lambda f: len(re.findall(r'\b%s\b' % f, text)) > 1
        for l in text.split('\n'):
            m = re.search(r'\bfn\s+(\w+)', l)
            if m:
                fn = m.group(1)
                if ext and fn not in proved and used(fn):
                    res.append('external_body %s' % fn)
                if nodec:
                    open_ended.append('%s (%s)' % (fn, n))
                ext = nodec = False
            if 'external_body' in l:
                ext = True
            if re.search(r'\bassume\(', l):
                res.append('assume in %s: %s' % (fn, re.search(r'assume\((.*?)\)', l).group(1)))
            if re.search(r'\badmit\(|\baxiom\b', l) and used(fn):
                res.append('axiom %s' % fn)
            m = re.search(r'assume_specification.*\[\s*([\w:<> ]+?)\s*\]', l)
            if m and len(re.findall(r'\b%s\(' % m.group(1).split('::')[-1], text)) > 0:
                res.append('assume_specification %s' % l.strip()[:100])
            if 'exec_allows_no_decreases_clause' in l:
                nodec = True
    if open_ended:
        res.append('termination not proved in this check (for the parse functions see C20): ' + ', '.join(open_ended))
    out = []
    for x in res:
        if x not in out:
            out.append(x)
    return out


def safe(cfg, theory):
    x = cfg.get('safety')
    return x is True or isinstance(x, list) and theory in x


def judge(prop, cfg, thr):
    """which failed obligations count for the property"""
    alarms, undecided, other = [], [], []
    for r in thr:
        n = r['name']
        if r['status'] == 'verified':
            if r.get('probe_missing'):
                log('vacuous contracts in %s: %s' % (n, r['probe_missing']))
                sys.exit(3)
            continue
        if r['status'] != 'failed':
            det = r.get('detail', '')
            if r['status'] == 'compile':
                det = ' | '.join(e['msg'] for e in r['errors'][:4])
            undecided.append('%s: %s (%s)' % (n, r['status'], det))
            continue
        for e in r['errors']:
            if weave.classify(e['msg']) == 'rlimit':
                undecided.append('%s: resource limit: %s' % (n, where(e)))
                continue
            labs = [g[2] for _, g, _, _ in e['spans'] if g and g[2]]
            tags = set(t for l in labs if re.match(r'C\d\d', l) for t in re.match(r'C\d\d(?:,C\d\d)*', l).group(0).split(','))
            if n in cfg.get('ends', []) and not tags and re.search(ENDS, e['msg']):
                tags = {prop}
            item = dict(theory=n, obligation=where(e), message=e['msg'], verus=e['rendered'])
            inside = set(g[0].split('#loop')[0] for _, g, _, _ in e['spans'] if g and g[1] in ('sig', 'body', 'proof', 'invariant', 'invariant_except_break', 'ensures', 'decreases', 'entry'))
            if any(k in inside for k in r.get('loose', [])):
                other.append(dict(item, obligation=item['obligation'] + ' (its proof was written for another shape of the function)'))
            elif prop in tags or (safe(cfg, n) and not tags and re.search(SAFETY, e['msg']) and not any(g and g[1] == 'proof' for _, g, _, pr in e['spans'] if pr)) or cfg.get('all'):
                alarms.append(item)
            else:
                other.append(item)
    if other and not alarms:
        undecided.append('obligations the proof of %s rests on failed: %s' % (prop, '; '.join(o['obligation'] for o in other[:4])))
    return alarms, undecided, other


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    cfg = PROPS[prop]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(BUILD, 'replay'), exist_ok=True)
    secs = cfg.get('secs', 12) if tier == 'quick' else 150
    if not os.path.exists(weave.EXTRACT):
        weave.build_extractor()
    with cf.ThreadPoolExecutor(8) as ex:
        fh = ex.submit(build_harness)
        fts = [ex.submit(run_theory, t) for t in cfg['theories']]
        exe, herr = fh.result()
        thr = [f.result() for f in fts]
    if exe is None:
        log('harness does not build against %s:' % REPO)
        log(herr)
    alarms, undecided, other = judge(prop, cfg, thr)
    proved = not alarms and not undecided and not other
    # --- look for a concrete failing input on the real code
    h = None
    if exe:
        h = run_harness(exe, prop, secs if proved else max(secs, 45), SEED)
        if h.get('crashed'):
            log('harness ended abnormally: %s' % h['crashed'])
    # --- verdict
    violations = 0
    rp = os.path.join(BUILD, 'replay', prop + '.json')
    if h and h['fail']:
        violations = 1
        case, text = h['fail']
        json.dump(dict(property=prop, seed=SEED, case=case, failing_input=text,
                       replay='%s %s --seed %d --case %d' % (exe, prop, SEED, case),
                       failed_obligations=alarms + other, undecided=undecided), open(rp, 'w'), indent=1)
        log(text[:3000])
        for a in alarms[:5]:
            log('failed obligation: %s (%s)' % (a['obligation'], a['message']))
        for u in undecided:
            log('proof: ' + u)
        log('VIOLATION property=%s replay=%s' % (prop, rp))
    elif alarms:
        violations = 1
        json.dump(dict(property=prop, failed_obligations=alarms, other=other, undecided=undecided,
                       searched=h and h['cases']), open(rp, 'w'), indent=1)
        for a in alarms[:5]:
            log('failed obligation: %s (%s)' % (a['obligation'], a['message']))
            log(a['verus'])
        log('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
    # --- known findings
    known = []
    for k in json.load(open(os.path.join(VERIF, 'known_findings.json'))):
        if k['kind'] == 'finding' and k['property'] == prop and exe:
            r = subprocess.run([exe, 'finding', k['id']], capture_output=True, text=True, timeout=60)
            if 'REPRODUCED' in r.stdout:
                known.append(k['id'])
                log('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    # --- evidence
    names = [r['name'] for r in thr]
    cov = dict(theories=[dict(name=r['name'], status=r['status'], verified=r.get('verified', 0), errors=r.get('nerrors', 0),
                              functions=r.get('functions', []), clauses=r.get('clauses', 0), seconds=round(r.get('seconds', 0), 1),
                              smt_ms=r.get('smt_ms'), trusted=r.get('trusted', []), detail=r.get('detail', '')) for r in thr],
               undecided=undecided, failed=[a['obligation'] for a in alarms + other], known_findings=known,
               bounded_stand_in=dict(what='random comparison of the real code with the reference meaning (harness/), bounded by time and size; not proof',
                                     cases=h['cases'] if h else 0, skipped=h['skipped'] if h else 0, seconds=secs,
                                     built=bool(exe)))
    cov['back_end'] = 'Verus ' + 'with Z3 (bundled)'
    cov['limits'] = cfg.get('limits', '')
    ver = sum(r.get('verified', 0) or 0 for r in thr)
    bad = sum(max(r.get('nerrors', 0) or 0, 0) for r in thr)
    level = 'proof' if thr and (proved or alarms) else 'exploration'
    if level == 'proof':
        cov.update(obligations=ver + bad, discharged=ver, checker_cmd='verus %s' % ' '.join(weave.VERUS_ARGS),
                   trusted_base=scan_assumptions(names, thr) + ['the extractor (extract/): mechanical rewriting listed in DESIGN.md', 'Verus and Z3', 'rustc'])
    else:
        cov.update(evaluations=h['cases'] + h['skipped'] if h else 0, distinct_nontrivial=h['cases'] if h else 0,
                   rule='a case is a generated input on which the reference meaning is defined (terminates)',
                   samples=samples(exe, prop) if exe else [])
    ev = dict(property=prop, tier=tier, seed=SEED, level=level, coverage=cov, assumptions=scan_assumptions(names, thr), wall_s=round(time.time() - T0, 1), violations=violations)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    if violations:
        sys.exit(1)
    if not exe and not proved:
        log('no decision: neither proof nor harness available')
        sys.exit(2)
    if h and not h['ok'] and not h['fail']:
        log('no decision: harness did not finish')
        sys.exit(2)
    if undecided:
        for u in undecided:
            log('UNDECIDED (bounded check only): ' + u)
    log('%s: %s; %d obligations discharged in %s; %d bounded cases; %.1fs' % (prop, 'proved' if proved else 'held on everything explored (bounded)', ver, ','.join(names), h['cases'] if h else 0, time.time() - T0))


def where(e):
    g = [x[1] for x in e['spans'] if x[1]]
    lab = [x for x in g if x[1] not in ('body', 'proof')] or g
    fn = [x[0] for x in g if x[1] in ('body', 'sig')] or [x[0] for x in g]
    return '%s: %s [%s]' % (fn[0] if fn else '?', lab[0][2] if lab else e['msg'], e['msg'])


def samples(exe, prop):
    r = subprocess.run([exe, prop, '--seed', str(SEED), '--case', '3'], capture_output=True, text=True, timeout=60, errors='replace')
    return [r.stdout[:1500]]


if __name__ == '__main__':
    main()
