#!/usr/bin/env python3
"""check.py PROPERTY: verifies the functions the property rests on against
their contracts, from /repo's current source, and runs the bounded harness."""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
sys.path.insert(0, os.path.join(HERE, 'engine/py'))
sys.path.insert(0, os.path.join(HERE, 'contracts'))
T0 = time.time()


def goenv():
    e = dict(os.environ)
    e['GOFLAGS'], e['GOPROXY'], e['GOTOOLCHAIN'] = '-mod=mod', 'off', 'local'
    e.setdefault('HOME', '/root')
    if not shutil.which('go', path=e.get('PATH', '')):
        e['PATH'] = '/usr/local/go/bin:/opt/veriftools/go1.27.3/bin:' + e.get('PATH', '')
    return e


class Fatal(Exception):
    pass


# ------------------------------------------------------------------ proof part
def dump_ssa(tmp):
    e = goenv()
    front = os.path.join(tmp, 'front')
    p = subprocess.run(['go', 'build', '-o', front, '.'], cwd=os.path.join(HERE, 'engine/front'), env=e, capture_output=True, text=True)
    if p.returncode:
        raise Fatal('building the front end failed:\n' + p.stderr[-3000:])
    out = os.path.join(tmp, 'ssa.json')
    p = subprocess.run([front, REPO, out, './...', 'github.com/ipfs/go-bitfield'], cwd=REPO, env=e, capture_output=True, text=True)
    if p.returncode:
        raise Fatal('the code does not build:\n' + (p.stderr or p.stdout)[-3000:])
    return out


def verify_one(P, fn, workers, timeout):
    import run, discharge, execu
    from shapes import short
    r = dict(fn=short(fn), obligations=[], err=None)
    t0 = time.time()
    if fn not in P.funcs:
        r['err'] = 'the function does not exist'
        return r
    E = run.verify(P, fn, {'budget': 200 if TIER == 'quick' else 600})
    r['sym_s'] = round(time.time() - t0, 2)
    t1 = time.time()
    if E.err is None:
        discharge.discharge(E.obls, workers=workers, timeout=timeout)
        if time.time() - T0 < 400:
            discharge.insist(E.obls, workers, timeout)
        nbad = sum(o.status != 'ok' for o in E.obls)
        if 0 < nbad <= 4 and r['sym_s'] < 30 and time.time() - T0 < 300:      # once more from the start, with more time for every question
            execu.SLOW = 4
            try:
                E2 = run.verify(P, fn, {'budget': 200 if TIER == 'quick' else 600})
                if E2.err is None:
                    discharge.discharge(E2.obls, workers=workers, timeout=timeout)
                    if sum(o.status != 'ok' for o in E2.obls) < nbad:
                        E = E2
            finally:
                execu.SLOW = 1
    r['dis_s'] = round(time.time() - t1, 2)
    r['err'] = E.err
    r['unknown'] = dict(E.unknown)
    r['models'] = sorted(E.used_models)
    r['callees'] = sorted(short(x) for x in E.used_contracts)
    r['inlined'] = sorted(short(x) for x in E.inlined)
    r['cover'] = getattr(E, 'pre_cover', None)
    r['reach'] = getattr(E, 'reach', 0)
    r['paths'] = getattr(E, 'outcomes', 0)
    r['solver_s'] = round(E.qtime + sum(o.time for o in E.obls), 2)
    for o in E.obls:
        r['obligations'].append((o.name, o.kind, o.line, o.status if E.err is None else 'unchecked', o.backend, o.detail[:300]))
    return r


def verify_lemma(name, th, timeout):
    import discharge
    from core import Obl
    r = dict(fn='lemma ' + name, obligations=[], err=None, unknown={}, models=[], callees=[], inlined=[], cover='sat', reach=1, paths=0, sym_s=0)
    t0 = time.time()
    for lab, hyp, goal in th():
        o = Obl(lab, 'lemma', '', 0, hyp, goal)
        discharge.discharge([o], workers=1, timeout=timeout)
        discharge.insist([o], 1, timeout)
        r['obligations'].append((o.name, 'lemma', 0, o.status, o.backend, o.detail[:300]))
    r['solver_s'] = r['dis_s'] = round(time.time() - t0, 2)
    return r


def proof(prop, ssa, out):
    """verify every function the property rests on, in forked workers"""
    import importlib, pickle, mmap, struct, fcntl
    import props
    import spec, shapes
    from core import Prog
    from execu import CONTRACTS
    for m in props.MODULES + props.PROPS[prop].get('modules', []):
        importlib.import_module(m)
    import run
    P = Prog(ssa)
    pats = [re.compile(p) for p in props.PROPS[prop]['funcs']]
    jobs = []
    for fn, c in CONTRACTS.items():
        if c.inline or c.trusted:
            continue
        if any(p.search(fn) for p in pats):
            jobs.append(('fn', fn))
    lem = props.PROPS[prop].get('lemmas', [])
    for name, th in shapes.LEMMAS:
        if name in lem:
            jobs.append(('lemma', name, th))
    heavy = getattr(props, 'HEAVY', [])
    jobs.sort(key=lambda j: -max([0] + [w for p, w in heavy if re.search(p, j[1])]))
    timeout = 10 if TIER == 'quick' else 60
    out['trusted_contracts'] = sorted(fn for fn, c in CONTRACTS.items() if c.trusted and any(p.search(fn) for p in pats))
    if not jobs:
        return []
    ctr = mmap.mmap(-1, 8)
    tmp = tempfile.mkdtemp(prefix='vp')
    lock = os.path.join(tmp, 'lock')
    open(lock, 'w').close()
    kids = []
    for w in range(min(6, len(jobs))):
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                lf = open(lock, 'w')
                with open(os.path.join(tmp, 'r%d' % w), 'wb') as f:
                    while True:
                        fcntl.flock(lf, fcntl.LOCK_EX)
                        n = struct.unpack('q', ctr[:8])[0]
                        ctr[:8] = struct.pack('q', n + 1)
                        fcntl.flock(lf, fcntl.LOCK_UN)
                        if n >= len(jobs):
                            break
                        j = jobs[n]
                        try:
                            r = verify_one(P, j[1], 4, timeout) if j[0] == 'fn' else verify_lemma(j[1], j[2], timeout)
                        except Exception as e:
                            r = dict(fn=j[1], obligations=[], err='internal: %s: %s' % (type(e).__name__, e), unknown={}, models=[], callees=[], inlined=[], cover=None, reach=0, paths=0)
                        pickle.dump((n, r), f)
                        f.flush()
            except BaseException:
                code = 1
            os._exit(code)
        kids.append(pid)
    for pid in kids:
        os.waitpid(pid, 0)
    res = {}
    for w in range(len(kids)):
        try:
            with open(os.path.join(tmp, 'r%d' % w), 'rb') as f:
                while True:
                    try:
                        n, r = pickle.load(f)
                    except EOFError:
                        break
                    res[n] = r
        except OSError:
            pass
    shutil.rmtree(tmp, ignore_errors=True)
    return [res.get(n) or dict(fn=jobs[n][1], obligations=[], err='worker died', unknown={}, models=[], callees=[], inlined=[], cover=None, reach=0, paths=0) for n in range(len(jobs))]


# ------------------------------------------------------------------ bounded part
def build_harness(tmp, pkg):
    """compiles the harness in package pkg; (binary, None) or (None, error)"""
    rep = {}
    for f in sorted(os.listdir(os.path.join(HERE, 'harness'))):
        if not f.endswith('_test.go'):
            continue
        src = os.path.join(HERE, 'harness', f)
        if f.startswith('in_'):
            pk = f.split('_')[1]
            if pk == pkg:
                rep['%s/%s/zverif_%s' % (REPO, pk, f)] = src
        elif pkg == 'internal/zverif':
            rep['%s/internal/zverif/%s' % (REPO, f)] = src
    # only the harness: the package's own tests stay out, a change to them is no concern of ours
    if pkg != 'internal/zverif':
        d = os.path.join(REPO, pkg)
        for f in os.listdir(d):
            if f.endswith('_test.go'):
                rep[os.path.join(d, f)] = ''
    ov = os.path.join(tmp, 'ov_%s.json' % pkg.replace('/', '_'))
    json.dump({'Replace': rep}, open(ov, 'w'))
    out = os.path.join(tmp, 'h_' + pkg.replace('/', '_'))
    p = subprocess.run(['go', 'test', '-c', '-vet=off', '-overlay', ov, '-o', out, './' + pkg], cwd=REPO, env=goenv(), capture_output=True, text=True)
    if p.returncode or not os.path.exists(out):
        return None, (p.stdout + p.stderr)[-3000:]
    return out, None


def run_harness(binary, test, budget_ms, seed, tmp, tag):
    st, rp, pg = (os.path.join(tmp, '%s_%s' % (x, tag)) for x in ('stats', 'replay', 'progress'))
    e = goenv()
    e.update(VERIF_SEED=str(seed), VERIF_BUDGET_MS=str(budget_ms), VERIF_STATS=st, VERIF_REPLAY=rp, VERIF_PROGRESS=pg)
    cwd = os.path.join(tmp, 'cwd_' + tag)
    os.makedirs(cwd, exist_ok=True)
    lim = budget_ms / 1000.0 * 3 + 150
    try:
        p = subprocess.run([binary, '-test.timeout', '%ds' % int(lim), '-test.run', '^' + test + '$'], cwd=cwd, env=e, capture_output=True, text=True, timeout=lim + 20)
        rc, out = p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired as x:
        rc, out = 1, 'no end within %d s\n' % lim + str(x.stdout or '')[-2000:]
    r = dict(test=test, rc=rc, output=out[-6000:], stats={}, replay=None, seed=seed)
    try:
        r['stats'] = json.load(open(st))
    except Exception:
        pass
    for f in (rp, pg):
        if rc and os.path.exists(f):
            try:
                r['replay'] = json.load(open(f))
                break
            except Exception:
                pass
    return r


def harness_main(prop, tmp, budget):
    import props
    cfg = props.PROPS[prop]
    box = dict(bins={}, berr={}, runs=[])
    try:
        for pkg in sorted(set(t[0] for t in cfg['tests'])):
            b, err = build_harness(tmp, pkg)
            if b:
                box['bins'][pkg] = b
            else:
                box['berr'][pkg] = err
        for i, (pkg, test) in enumerate(cfg['tests']):
            if pkg in box['bins']:
                box['runs'].append(run_harness(box['bins'][pkg], test, budget // len(cfg['tests']), SEED, tmp, 'q%d' % i))
    except Exception as e:
        box['exc'] = repr(e)
    json.dump(box, open(os.path.join(tmp, 'box.json'), 'w'))
    return 0


def main():
    if sys.argv[1] == '--harness':
        return harness_main(sys.argv[2], sys.argv[3], int(sys.argv[4]))
    prop = sys.argv[1]
    import props
    cfg = props.PROPS[prop]
    tmp = tempfile.mkdtemp(prefix='vcheck_')
    try:
        return check(prop, cfg, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(prop, cfg, tmp):
    import props
    quick = TIER != 'thorough'
    budget = int(os.environ.get('VERIF_BUDGET_MS') or (8000 if quick else 300000))
    ssa = dump_ssa(tmp) if cfg['funcs'] else None
    # the harness runs in a process of its own while the proof runs here
    hp = subprocess.Popen([sys.executable, os.path.abspath(__file__), '--harness', prop, tmp, str(budget)])
    out = {}
    res = proof(prop, ssa, out) if ssa else []
    hp.wait()
    try:
        box = json.load(open(os.path.join(tmp, 'box.json')))
    except Exception:
        raise Fatal('the harness process died')
    if 'exc' in box:
        raise Fatal('harness: ' + box['exc'])
    if box['berr'] and not box['bins']:
        raise Fatal('the harness does not compile:\n' + '\n'.join(box['berr'].values()))

    # ---- verdict
    total = discharged = 0
    failed, undecided, funcs, backends = [], [], [], {}
    assumed, models, inl = set(), set(), set()
    solver = 0.0
    for r in res:
        n = ok = 0
        bad = []
        for name, kind, line, status, be, detail in r['obligations']:
            if not props.counts(prop, name, kind):
                continue
            n += 1
            if status == 'ok':
                ok += 1
                backends[be] = backends.get(be, 0) + 1
            else:
                bad.append(dict(function=r['fn'], obligation=name, kind=kind, line=line, status=status, solver=detail))
        total += n
        discharged += ok
        solver += r.get('solver_s', 0) or 0
        models |= set(r['models'])
        inl |= set(r['inlined'])
        f = dict(function=r['fn'], obligations=n, discharged=ok, paths=r['paths'], symbolic_s=r.get('sym_s'), discharge_s=r.get('dis_s'))
        if r['unknown']:
            f['uninterpreted_calls'] = sorted(r['unknown'])
            assumed |= set(r['unknown'])
        funcs.append(f)
        if r['err']:
            f['undecided'] = r['err']
            undecided.append('%s: %s' % (r['fn'], r['err']))
        elif bad and r['fn'].startswith('lemma '):      # a lemma says nothing about the code: failing is the solver's doing
            f['undecided'] = 'lemma not discharged: ' + ', '.join(b['obligation'] for b in bad)
            undecided.append('%s: %s' % (r['fn'], f['undecided']))
        elif bad and r['unknown']:
            f['undecided'] = 'calls functions without model: ' + ', '.join(sorted(r['unknown']))
            undecided.append('%s: %s' % (r['fn'], f['undecided']))
        elif bad:
            failed += bad
        elif r['cover'] == 'unsat' or (r['reach'] == 0 and r['paths'] == 0 and n == 0):
            undecided.append('%s: vacuous (precondition %s, %s reachable ends)' % (r['fn'], r['cover'], r['reach']))
            f['undecided'] = 'vacuous'
    concrete = [r for r in box.get('runs', []) if r['rc'] != 0]
    extra = []
    search = (failed or undecided or box['berr']) and not concrete
    if search:
        # look for a concrete failing input, longer and from other seeds
        secs = int(os.environ.get('VERIF_SEARCH_MS') or (40000 if quick else 300000))
        for k in range(2):
            for i, (pkg, test) in enumerate(cfg['tests']):
                if pkg in box['bins'] and not concrete:
                    r = run_harness(box['bins'][pkg], test, secs // 2, SEED + 1000 + k, tmp, 's%d_%d' % (k, i))
                    extra.append(r)
                    if r['rc'] != 0:
                        concrete.append(r)
    evals = sum(r['stats'].get('evaluations', 0) for r in box.get('runs', []) + extra)
    distinct = sum(r['stats'].get('distinct_nontrivial', 0) for r in box.get('runs', []))
    samples = [s for r in box.get('runs', []) for s in (r['stats'].get('samples') or [])][:5]
    known = load_known(prop)
    violations = 0
    lines = []
    rpath = os.path.join(HERE, 'replay', prop + '.json')
    os.makedirs(os.path.dirname(rpath), exist_ok=True)
    if concrete:
        violations += len(concrete)
        r = concrete[0]
        json.dump(dict(property=prop, kind='failing input', test=r['test'], seed=r['seed'], case=r['replay'], output=r['output'], failed_obligations=failed[:20],
                       how_to_replay='VERIF_SEED=%s VERIF_CASE=<case> with the harness test %s (see DESIGN.md)' % (r['seed'], r['test'])), open(rpath, 'w'), indent=1)
        lines.append('VIOLATION property=%s replay=%s' % (prop, rpath))
    elif failed:
        violations += len(failed)
        json.dump(dict(property=prop, kind='failed obligation', failed_obligations=failed[:60], searched=dict(evaluations=evals)), open(rpath, 'w'), indent=1)
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rpath))
    level = cfg.get('level') or ('proof' if cfg['funcs'] else 'exploration')
    bounded = dict(evaluations=evals, distinct_nontrivial=distinct, samples=samples, tests=[t[1] for t in cfg['tests']],
                   rule='seeded random histories through the public API against an independent oracle; a case counts as distinct by its configuration and outcome sizes; bounded, never counted as proved',
                   stands_in_for=cfg['left'])
    cov = dict(bounded)
    if cfg['funcs']:
        pcov = dict(obligations=total, discharged=discharged, checker_cmd='python3-vt check.py %s (z3 %s in process, z3 and cvc5 on SMT-LIB text)' % (prop, z3v()),
                   trusted_base=trusted(models, assumed, out.get('trusted_contracts', [])), functions=funcs, backends=backends, solver_s=round(solver, 1),
                   inlined=sorted(inl), undecided=undecided, failed=failed[:20])
        cov = dict(pcov, bounded=bounded) if level == 'proof' else dict(bounded, contracts=pcov)
    ev = dict(property=prop, tier='quick' if quick else 'thorough', seed=SEED, level=level, coverage=cov, assumptions=ASSUME if cfg["funcs"] else ASSUME_B,
              wall_s=round(time.time() - T0, 1), violations=violations)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    for k in known:
        lines.append('KNOWN-FINDING: property=%s %s' % (prop, k))
    if cfg['funcs']:
        print('%s: %d of %d obligations of %d functions discharged, %.0f s of solving; bounded harness: %d cases, %d distinct' % (prop, discharged, total, len(res), solver, evals, distinct))
    else:
        print('%s: bounded harness: %d cases, %d distinct' % (prop, evals, distinct))
    for u in undecided:
        print('undecided by proof: ' + u)
    for b in failed[:8]:
        print('failed obligation: %s line %s: %s' % (b['function'], b['line'], b['obligation']))
    for r in concrete[:1]:
        print(r['output'][:1500])
    for l in lines:
        print(l)
    return 1 if violations else 0


def z3v():
    import z3
    return z3.get_version_string()


def load_known(prop):
    out = []
    try:
        for l in open(os.path.join(HERE, 'known_findings.txt')):
            m = re.match(r'known: property=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop:
                out.append(m.group(2))
    except OSError:
        pass
    return out


def trusted(models, assumed, tc):
    out = ['go/ssa construction and the JSON dump of it (engine/front)', 'the obligation generator (engine/py) and its memory model', 'z3 and cvc5',
           'the fold lemma schema of engine/py/core.py (Fold split and frame facts, instantiated at ground terms)']
    out += ['model of external function ' + m for m in sorted(models)]
    out += ['uninterpreted external function (result arbitrary, no effect on modelled state) ' + m for m in sorted(assumed)]
    out += ['assumed contract of ' + m for m in tc]
    return out


ASSUME = [
    'identifiers are collision-free: the content below an identifier is a function of the identifier',
    'the DAG service stores what Add is given when it reports success, and returns nodes that re-encode to their identifier',
    'lengths of byte slices and sequences are below 2^48, child counts below 2^40; machine integer arithmetic is otherwise exact (wrap-around is modelled)',
    'capacity beyond the length of a slice is not observable except through append, which is modelled',
    'the protobuf codec round-trips the fields of pb.Data and pb.Metadata (gogo/protobuf is external)',
    'goroutines other than the caller do not touch the objects a function works on',
    'the bounded harness is a bounded check and is not counted as proof']
ASSUME_B = ['bounded: generated histories of limited length against an independent oracle; nothing is proved for this property by this check']


if __name__ == '__main__':
    try:
        rc = main()
    except Fatal as e:
        print('ERROR: %s' % e)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
