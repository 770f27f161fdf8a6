"""Discharging obligations.  The obligations of a function are shared out to
forked workers; each tries z3 in process with the ground lemma instances, then
z3 and cvc5 as separate processes on the SMT-LIB text."""
import os, pickle, signal, shutil, subprocess, tempfile, time, mmap, struct, fcntl
import z3
from core import instantiate

Z3BIN = shutil.which('z3-new') or shutil.which('z3')
CVC5 = shutil.which('cvc5')


def smt2(pc, facts, goal):
    s = z3.Solver()
    for c in pc:
        s.add(c)
    for f in facts:
        s.add(f)
    s.add(z3.Not(goal))
    t = s.to_smt2()
    lines = [l for l in t.split('\n') if not l.startswith('(set-info') and not l.startswith('; benchmark')]
    return '(set-logic ALL)\n' + '\n'.join(lines)


SLOW = 1     # a second attempt at what failed gets more time


def solve_file(path, timeout):
    """returns (result, backend, seconds, outputs)"""
    procs = []
    t0 = time.time()
    cmds = [('z3', [Z3BIN, '-T:%d' % timeout, path]), ('cvc5', [CVC5, '--strings-exp', '--tlimit=%d' % (timeout * 1000), path])]
    for n, c in cmds:
        if c[0]:
            procs.append((n, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    res, outs = None, {}
    live = dict(procs)
    sat = None
    while live and time.time() - t0 < timeout + 3:
        for n in list(live):
            p = live[n]
            if p.poll() is not None:
                out = p.stdout.read().strip()
                outs[n] = out[:2000]
                del live[n]
                first = out.split('\n')[0] if out else ''
                if first == 'unsat':
                    res = ('unsat', n)
                elif first == 'sat':
                    sat = ('sat', n)
        if res:
            break
        time.sleep(0.01)
    for p in live.values():
        p.kill()
        p.wait()
    for n, p in procs:
        p.stdout.close()
    r = res or sat or ('unknown', '-')
    return r[0], r[1], time.time() - t0, outs


_NARY = {z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or, z3.Z3_OP_SEQ_CONCAT: z3.Concat, z3.Z3_OP_ADD: z3.Sum, z3.Z3_OP_MUL: z3.Product}


def purify(fs):
    """name every sequence-sorted subterm that is not a concatenation: equisatisfiable, and far easier for the sequence solvers"""
    cache, defs = {}, []

    def go(e):
        h = e.get_id()
        if h in cache:
            return cache[h][0]
        if not z3.is_app(e) or e.num_args() == 0:
            cache[h] = (e, e)
            return e
        ch = [go(c) for c in e.children()]
        k = e.decl().kind()
        if all(a.eq(b) for a, b in zip(ch, e.children())):
            r = e
        elif k in _NARY:
            r = _NARY[k](*ch)
        elif k == z3.Z3_OP_DISTINCT:
            r = z3.Distinct(*ch)
        else:
            r = e.decl()(*ch)
        if z3.is_seq(e) and k not in (z3.Z3_OP_SEQ_CONCAT, z3.Z3_OP_SEQ_EMPTY, z3.Z3_OP_SEQ_UNIT):
            c = z3.FreshConst(e.sort(), 'pu')
            defs.append(c == r)
            r = c
        cache[h] = (r, e)
        return r
    out = [go(f) for f in fs]
    return out + defs


WS = z3.DeclareSort('Word')
_cc = z3.Function('w.cat', WS, WS, WS)
_eps = z3.Const('w.eps', WS)
_len = z3.Function('w.len', WS, z3.IntSort())
_ext = z3.Function('w.ext', WS, z3.IntSort(), z3.IntSort(), WS)
_unit = z3.Function('w.unit', z3.IntSort(), WS)
_at = z3.Function('w.at', WS, z3.IntSort(), WS)
_nth = z3.Function('w.nth', WS, z3.IntSort(), z3.IntSort())
_a, _b, _c = z3.Consts('a b c', WS)
_i, _j, _k, _l = z3.Ints('i j k l')
WAX = [z3.ForAll([_a, _b, _c], _cc(_cc(_a, _b), _c) == _cc(_a, _cc(_b, _c)), patterns=[_cc(_cc(_a, _b), _c)]),
       z3.ForAll([_a], _cc(_eps, _a) == _a, patterns=[_cc(_eps, _a)]), z3.ForAll([_a], _cc(_a, _eps) == _a, patterns=[_cc(_a, _eps)]),
       z3.ForAll([_a, _b], _len(_cc(_a, _b)) == _len(_a) + _len(_b), patterns=[_cc(_a, _b)]),
       z3.ForAll([_a], z3.And(_len(_a) >= 0, (_len(_a) == 0) == (_a == _eps)), patterns=[_len(_a)]), _len(_eps) == 0,
       z3.ForAll([_i], _len(_unit(_i)) == 1, patterns=[_unit(_i)]),
       z3.ForAll([_a, _i, _j], z3.Implies(z3.And(_i >= 0, _j >= 0, _i + _j <= _len(_a)), _len(_ext(_a, _i, _j)) == _j), patterns=[_ext(_a, _i, _j)]),
       z3.ForAll([_a, _j], z3.Implies(_j == _len(_a), _ext(_a, 0, _j) == _a), patterns=[_ext(_a, 0, _j)])]


class NoWord(Exception):
    pass


def wordsort(s):
    if s.kind() == z3.Z3_SEQ_SORT:
        return WS
    if s.kind() == z3.Z3_ARRAY_SORT:
        return z3.ArraySort(wordsort(s.domain()), wordsort(s.range()))
    return s


def words(fs):
    """the same formulas over an uninterpreted monoid: byte sequences with only the laws of concatenation and length"""
    cache = {}

    def go(e):
        h = e.get_id()
        if h in cache:
            return cache[h][0]
        if not z3.is_app(e):
            raise NoWord()
        k = e.decl().kind()
        ch = [go(c) for c in e.children()]
        if k == z3.Z3_OP_SEQ_CONCAT:
            r = ch[-1]
            for c in reversed(ch[:-1]):
                r = _cc(c, r)
        elif k == z3.Z3_OP_SEQ_EMPTY:
            r = _eps
        elif k == z3.Z3_OP_SEQ_UNIT:
            r = _unit(*ch)
        elif k == z3.Z3_OP_SEQ_LENGTH:
            r = _len(*ch)
        elif k == z3.Z3_OP_SEQ_EXTRACT:
            r = _ext(*ch)
        elif k == z3.Z3_OP_SEQ_AT:
            r = _at(*ch)
        elif k == z3.Z3_OP_SEQ_NTH:
            r = _nth(*ch)
        elif k == z3.Z3_OP_UNINTERPRETED:
            d = e.decl()
            if not ch:
                r = z3.Const(d.name(), wordsort(e.sort()))
            else:
                r = z3.Function(d.name(), *([c.sort() for c in ch] + [wordsort(e.sort())]))(*ch)
        elif k == z3.Z3_OP_EQ:
            r = ch[0] == ch[1]
        elif k == z3.Z3_OP_DISTINCT:
            r = z3.Distinct(*ch)
        elif k == z3.Z3_OP_ITE:
            r = z3.If(*ch)
        elif k == z3.Z3_OP_SELECT:
            r = z3.Select(*ch)
        elif k == z3.Z3_OP_STORE:
            r = z3.Store(*ch)
        elif k == z3.Z3_OP_CONST_ARRAY:
            r = z3.K(wordsort(e.sort().domain()), *ch)
        elif e.num_args() == 0:
            r = e
        elif k in _NARY:
            r = _NARY[k](*ch)
        elif any(c.sort().kind() == z3.Z3_SEQ_SORT for c in e.children()) or e.sort().kind() == z3.Z3_SEQ_SORT:
            raise NoWord()
        else:
            r = e.decl()(*ch)
        cache[h] = (r, e)
        return r
    return [go(f) for f in fs] + WAX


def wordquick(o, facts, ms=3000):
    try:
        fs = words(list(o.pc) + facts + [z3.Not(o.goal)])
    except (NoWord, z3.Z3Exception):
        return z3.unknown
    s = z3.SimpleSolver()
    s.set('timeout', SLOW * ms)
    s.set('smt.mbqi', False) if False else None
    s.add(*fs)
    return s.check()


def pieces(fs, rounds=3, cap=60):
    """laws of extraction at the terms present: parts of a concatenation, parts of parts"""
    seen, allx, out = set(), [], []
    work = list(fs)
    L, X, C = z3.Length, z3.Extract, z3.Concat
    for _ in range(rounds):
        terms = []

        def go(e):
            if e.get_id() in seen:
                return
            seen.add(e.get_id())
            keep.append(e)
            for c in e.children():
                go(c)
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
                terms.append(e)
        for f in work:
            go(f)
        work = []
        allx += terms
        for e in terms:
            for f in allx:
                for x, y in ((e, f), (f, e)):
                    (u, i, m), (v, j, n) = x.children(), y.children()
                    if u.eq(v) and z3.is_int_value(z3.simplify(i + m - j)) and z3.simplify(i + m - j).as_long() == 0:
                        whole = u if z3.is_int_value(z3.simplify(m + n - L(u))) and z3.simplify(m + n - L(u)).as_long() == 0 and z3.is_int_value(i) else X(u, i, z3.simplify(m + n))
                        work.append(z3.Implies(z3.And(i >= 0, m >= 0, n >= 0, j + n <= L(u)), whole == C(x, y)))
        for e in terms:
            if len(out) > cap:
                break
            t, i, m = e.children()
            if not z3.is_app(t):
                continue
            k = t.decl().kind()
            if k == z3.Z3_OP_SEQ_CONCAT:
                ch = t.children()
                a, r = ch[0], ch[1] if len(ch) == 2 else C(*ch[1:])
                work += [z3.Implies(z3.And(i >= 0, m >= 0, i + m <= L(a)), e == X(a, i, m)),
                         z3.Implies(z3.And(i >= 0, i <= L(a), i + m >= L(a), i + m <= L(t)), e == C(X(a, i, L(a) - i), X(r, z3.IntVal(0), m - (L(a) - i)))),
                         z3.Implies(z3.And(i >= L(a), m >= 0), e == X(r, i - L(a), m))]
            elif k == z3.Z3_OP_SEQ_EXTRACT:
                u, j, n = t.children()
                work += [z3.Implies(z3.And(i >= 0, m >= 0, j >= 0, j + n <= L(u), i + m <= n), e == X(u, j + i, m))]
            else:
                work += [z3.Implies(z3.And(i >= 0, m >= 0, i + m <= L(t)), L(e) == m)]
        out += work
    return out


keep = []


def guards(fs):
    seen, out = set(), {}

    def add(e):
        while z3.is_not(e):
            e = e.arg(0)
        if not z3.is_true(e) and not z3.is_false(e):
            out[e.get_id()] = e

    def go(e):
        if e.get_id() in seen or not z3.is_app(e):
            return
        seen.add(e.get_id())
        k = e.decl().kind()
        ch = e.children()
        if k in (z3.Z3_OP_ITE, z3.Z3_OP_IMPLIES):
            add(ch[0])
        elif k == z3.Z3_OP_OR:
            for c in ch:
                add(c)
        for c in ch:
            go(c)
    for f in fs:
        go(f)
    return sorted(out.values(), key=lambda g: len(g.sexpr()))


def reduced(o, facts, ms=3000):
    """decide the conditions inside the formulas first (each by its own entailment check), then solve what is left"""
    fs = [z3.simplify(f) for f in list(o.pc) + facts + [z3.Not(o.goal)]]
    try:
        s = z3.SimpleSolver()
        s.set('timeout', SLOW * 60)
        s.add(*words(fs))
        sub = []
        for g in guards(fs):
            w = words([g])[0]
            for v in (True, False):
                s.push()
                s.add(z3.Not(w) if v else w)
                r = s.check()
                s.pop()
                if r == z3.unsat:
                    sub.append((g, z3.BoolVal(v)))
                    s.add(w if v else z3.Not(w))
                    break
        fs = [z3.substitute(f, *sub) for f in fs] + [g if z3.is_true(v) else z3.Not(g) for g, v in sub]
        g = z3.Goal()
        g.add(*fs)
        fs = list(z3.Then(z3.Tactic('simplify'), z3.Tactic('propagate-values'), z3.Tactic('solve-eqs'), z3.Tactic('simplify'))(g)[0])
        for r in (1, 2, 0):
            s = z3.SimpleSolver()
            s.set('timeout', SLOW * ms)
            s.add(*words(fs + (pieces([z3.simplify(f) for f in fs if 'seq.' in f.sexpr()], r, 100) if r else [])))
            if inchild(lambda: s.check() == z3.unsat, SLOW * ms / 1000 + 1):
                return z3.unsat
        return z3.unknown
    except (NoWord, z3.Z3Exception):
        return z3.unknown


def inchild(f, seconds):
    """f() in a child process that is killed when the time is up (a solver may overrun its own time limit)"""
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_REAL, seconds)
            code = 0 if f() else 1
        except BaseException:
            pass
        finally:
            os._exit(code)
    return os.waitpid(pid, 0)[1] == 0


def quick(o, ms=400, facts=None):
    """in-process attempt with the lemma instances"""
    s = z3.Solver()
    s.set('timeout', SLOW * ms)
    if facts is None:
        facts = instantiate(o.pc, o.goal)
    s.add(*purify(list(o.pc) + facts + [z3.Not(o.goal)]))
    return s.check()


def solve_one(o, timeout, tmp, ms=1500):
    """(status, backend, seconds, detail)"""
    t0 = time.time()
    if z3.is_true(z3.simplify(o.goal)):
        return 'ok', 'z3-api', time.time() - t0, ''
    # the goal may already be among the assumptions or follow without lemma instances
    s = z3.Solver()
    s.set('timeout', SLOW * 100)
    s.add(*o.pc)
    s.add(z3.Not(o.goal))
    if s.check() == z3.unsat:
        return 'ok', 'z3-api', time.time() - t0, ''
    facts = instantiate(o.pc, o.goal)
    if quick(o, ms, facts) == z3.unsat:
        return 'ok', 'z3-api', time.time() - t0, ''
    if wordquick(o, facts) == z3.unsat:
        return 'ok', 'z3-words', time.time() - t0, ''
    if inchild(lambda: reduced(o, facts) == z3.unsat, 40 if SLOW == 1 else 60):
        return 'ok', 'z3-words', time.time() - t0, ''
    path = os.path.join(tmp, '%d_%d.smt2' % (os.getpid(), int(time.time() * 1e6)))
    text = smt2(o.pc, facts, o.goal)
    open(path, 'w').write(text)
    r, b, t, outs = solve_file(path, timeout * SLOW)
    if os.environ.get('VC_KEEP'):
        shutil.copy(path, os.environ['VC_KEEP'])
    os.unlink(path)
    if r == 'unsat':
        return 'ok', b, time.time() - t0, ''
    return ('refuted' if r == 'sat' else 'unknown'), b, time.time() - t0, '; '.join('%s: %s' % (k, v.split('\n')[0]) for k, v in outs.items())


def insist(obls, workers, timeout, limit=4):
    """a few obligations left: try them again with more time, in case the machine was busy"""
    global SLOW
    bad = [o for o in obls if o.status != 'ok']
    if 0 < len(bad) <= limit:
        SLOW = 3
        try:
            for o in bad:
                o.status = None
            discharge(bad, workers=workers, timeout=timeout)
        finally:
            SLOW = 1


def discharge(obls, workers=8, timeout=10, stop_after=None):
    """solve all obligations in parallel; fills status/backend/time/detail"""
    todo = [i for i, o in enumerate(obls) if o.status != 'ok']
    if not todo:
        return
    # share identical questions
    rep, uniq = {}, []
    for i in todo:
        o = obls[i]
        k = (o.goal.get_id(), tuple(c.get_id() for c in o.pc))
        if k in rep:
            rep[k].append(i)
        else:
            rep[k] = [i]
            uniq.append(k)
    tmp = tempfile.mkdtemp(prefix='vc')
    ctr = mmap.mmap(-1, 8)
    lockf = open(os.path.join(tmp, 'lock'), 'w+')
    kids = []
    for w in range(min(workers, len(uniq))):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                lf = open(os.path.join(tmp, 'lock'), 'w+')
                with os.fdopen(wr, 'wb') as out:
                    while True:
                        fcntl.flock(lf, fcntl.LOCK_EX)
                        n = struct.unpack('q', ctr[:8])[0]
                        ctr[:8] = struct.pack('q', n + 1)
                        fcntl.flock(lf, fcntl.LOCK_UN)
                        if n >= len(uniq):
                            break
                        o = obls[rep[uniq[n]][0]]
                        try:
                            res = solve_one(o, timeout, tmp)
                        except Exception as e:  # a solver that dies leaves the obligation undecided
                            res = ('unknown', '-', 0.0, 'error: %s' % e)
                        pickle.dump((n, res), out)
                        out.flush()
            except BaseException:
                code = 1
            os._exit(code)
        os.close(wr)
        kids.append((pid, r))
    import selectors
    sel = selectors.DefaultSelector()
    bufs = {}
    for pid, r in kids:
        sel.register(r, selectors.EVENT_READ)
        bufs[r] = b''
    live = len(kids)
    while live:
        for k, _ in sel.select():
            d = os.read(k.fd, 1 << 16)
            if not d:
                sel.unregister(k.fd)
                os.close(k.fd)
                live -= 1
            else:
                bufs[k.fd] += d
    for pid, r in kids:
        os.waitpid(pid, 0)
    import io
    for b in bufs.values():
        f = io.BytesIO(b)
        while True:
            try:
                n, res = pickle.load(f)
            except EOFError:
                break
            for j, i in enumerate(rep[uniq[n]]):
                o = obls[i]
                o.status, o.backend, o.detail = res[0], res[1], res[3]
                o.time += res[2] if j == 0 else 0.0
    for i in todo:
        if obls[i].status is None:
            obls[i].status, obls[i].detail = 'unknown', 'worker died'
    shutil.rmtree(tmp, ignore_errors=True)
