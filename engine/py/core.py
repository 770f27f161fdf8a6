"""Symbolic-execution condition generator over go/ssa (JSON from govcfront).

Every function under contract is executed symbolically path by path from its
current SSA; callees with a contract are replaced by the contract, repository
callees without one are inlined, external callees are replaced by the trusted
models in models.py.  Loops are cut at their headers by invariants.  Each
check becomes an obligation (path condition => goal) discharged by z3/cvc5.
"""
import ast, itertools, json, os, sys, time
import z3

sys.setrecursionlimit(20000)

IntS, BoolS = z3.IntSort(), z3.BoolSort()
BYTES = z3.SeqSort(IntS)
ARR = z3.ArraySort(IntS, IntS)
EMPTY = z3.Empty(BYTES)
I = z3.IntVal
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)

GO_INT = {'int': (64, True), 'int64': (64, True), 'int32': (32, True), 'rune': (32, True), 'int16': (16, True), 'int8': (8, True),
          'uint': (64, False), 'uint64': (64, False), 'uint32': (32, False), 'uint16': (16, False), 'uint8': (8, False),
          'byte': (8, False), 'uintptr': (64, False), 'untyped int': (64, True), 'untyped rune': (32, True)}
MAXLEN = 2 ** 48

U = 'github.com/ipfs/go-unixfs'


class Unsupported(Exception):
    pass


class SpecError(Exception):
    pass


# ---------------------------------------------------------------- values
class SliceV:
    __slots__ = ('base', 'off', 'len', 'cap', 'et')

    def __init__(s, base, off, len, cap, et):
        s.base, s.off, s.len, s.cap, s.et = base, off, len, cap, et


class StructV:
    __slots__ = ('t', 'f')

    def __init__(s, t, f):
        s.t, s.f = t, f


class Loc:
    """address of a non-struct location: field of object or slice element"""
    __slots__ = ('kind', 'ref', 'key', 't', 'idx')

    def __init__(s, kind, ref, key, t, idx=None):
        s.kind, s.ref, s.key, s.t, s.idx = kind, ref, key, t, idx


class TupleV:
    __slots__ = ('es',)

    def __init__(s, es):
        s.es = es


class FuncV:
    __slots__ = ('fn', 'bind')

    def __init__(s, fn, bind=()):
        s.fn, s.bind = fn, tuple(bind)


# ---------------------------------------------------------------- program
class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.funcs, self.types, self.globals, self.methods = d['funcs'], d['types'], d['globals'], d['methods']
        self.pkgs = d['pkgs']
        self._dynid = {}

    def under(self, t):
        d = self.types[t]
        while d['k'] == 'named':
            t = d['u']
            d = self.types[t]
        return d

    def kind(self, t):
        if t == 'github.com/ipfs/go-cid.Cid':
            return 'cid'
        d = self.under(t)
        k = d['k']
        if k == 'basic':
            n = d['n']
            if n in GO_INT:
                return 'int'
            if n in ('bool', 'untyped bool'):
                return 'bool'
            if n in ('string', 'untyped string'):
                return 'string'
            if n == 'untyped nil':
                return 'ref'
            if n in ('float64', 'float32', 'untyped float'):
                return 'float'
            return 'ref'
        if k in ('iface', 'map', 'chan', 'func'):
            return 'ref'
        if k == 'ptr':
            ek = self.kind(d['e']) if d['e'] != t else 'struct'
            return 'ref'
        return k  # slice, struct, array, tuple

    def intinfo(self, t):
        return GO_INT[self.under(t)['n']]

    def elem(self, t):
        return self.under(t)['e']

    def fields(self, t):
        return self.under(t)['fs']

    def dynid(self, t):
        if t not in self._dynid:
            self._dynid[t] = len(self._dynid) + 1
        return self._dynid[t]

    def is_byte_slice(self, t):
        d = self.under(t)
        return d['k'] == 'slice' and self.kind(d['e']) == 'int' and self.intinfo(d['e'])[0] == 8


# ---------------------------------------------------------------- state
class Frame:
    __slots__ = ('fn', 'regs', 'env', 'defers', 'cut', 'up')

    def __init__(s, fn):
        s.fn, s.regs, s.env, s.defers, s.cut, s.up = fn, {}, {}, [], {}, None

    def copy(s):
        f = Frame(s.fn)
        f.regs, f.env, f.defers, f.cut = dict(s.regs), dict(s.env), list(s.defers), dict(s.cut)
        f.up = s.up
        return f


class State:
    __slots__ = ('heap', 'pc', 'alloc', 'serial', 'frame', 'log', 'epoch', 'info', 'epochA', 'dead')

    def __init__(s):
        s.heap, s.pc, s.alloc, s.serial, s.frame = {}, [], None, 0, None
        s.log, s.epoch, s.info, s.epochA, s.dead = [], 0, {}, {}, False

    def copy(s):
        t = State()
        t.heap, t.pc, t.alloc, t.serial = dict(s.heap), list(s.pc), s.alloc, s.serial
        t.frame = s.frame.copy() if s.frame else None
        t.log, t.epoch, t.info, t.epochA = list(s.log), s.epoch, dict(s.info), dict(s.epochA)
        return t

    def assume(s, *cs):
        for c in cs:
            if isinstance(c, bool):
                c = z3.BoolVal(c)
            if z3.is_true(c):
                continue
            if z3.is_and(c):
                s.assume(*c.children())
                continue
            s.pc.append(c)


class Obl:
    __slots__ = ('name', 'kind', 'fn', 'line', 'pc', 'goal', 'status', 'backend', 'time', 'detail', 'prop', 'watch')

    def __init__(s, name, kind, fn, line, pc, goal):
        s.name, s.kind, s.fn, s.line, s.pc, s.goal = name, kind, fn, line, pc, goal
        s.status, s.backend, s.time, s.detail, s.prop, s.watch = None, None, 0.0, '', None, None


_ctr = itertools.count()


def fresh_name(p):
    return '%s!%d' % (p, next(_ctr))


def is_const_int(e):
    return isinstance(e, z3.ExprRef) and z3.is_int_value(e)


def eqb(a, b):
    """equality with cheap simplification"""
    if a.eq(b):
        return TRUE
    if is_const_int(a) and is_const_int(b):
        return z3.BoolVal(a.as_long() == b.as_long())
    return a == b


def simp_int(e):
    if is_const_int(e):
        return e
    if e.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        return z3.simplify(e)
    return e


# sort of heap keys (range sort); index sort is Int
KEYSORT = {}
GHOST = {}  # ghost field name -> sort


def ghost(name, sort):
    GHOST[name] = sort
    KEYSORT['G:' + name] = sort


dyn = z3.Function('dyn', IntS, IntS)  # dynamic type of a reference
isval = z3.Function('unboxI', IntS, IntS)

# ---------------------------------------------------------------- fold functions
FOLDS = {}


class Fold:
    """f(arrays..., params..., lo, hi): fold of step over indices lo..hi-1.
    kind: 'cat' (sequence concatenation), 'sum' (integer sum), 'and' (conjunction),
    'first' (the first contribution that is not 0).
    step(elems, params) gives the contribution of one index."""

    def __init__(self, name, arrs, params, kind, step, lemma=None, prefix=False):
        self.name, self.na, self.np, self.kind, self.step = name, len(arrs), len(params), kind, step
        rng = {'cat': BYTES, 'sum': IntS, 'and': BoolS, 'first': IntS}[kind]
        self.f = z3.Function(name, *(arrs + params + [IntS, IntS, rng]))
        self.unit = {'cat': EMPTY, 'sum': I(0), 'and': TRUE, 'first': I(0)}[kind]
        self.names = any(a.range() == BYTES for a in arrs)
        self.lemma = lemma
        self.prefix = prefix   # step also sees the arrays and the index (may look at earlier elements only)
        FOLDS[name] = self

    def comb(self, *xs):
        if self.kind == 'cat':
            xs = [x for x in xs if not x.eq(EMPTY)]
            if not xs:
                return EMPTY
            return z3.Concat(*xs) if len(xs) > 1 else xs[0]
        if self.kind == 'sum':
            return z3.Sum(*xs)
        if self.kind == 'first':
            r = xs[-1]
            for x in reversed(xs[:-1]):
                r = z3.If(x != 0, x, r)
            return r
        return z3.And(*xs)

    def __call__(self, *args):
        lo, hi = args[-2], args[-1]
        lo = I(lo) if isinstance(lo, int) else lo
        hi = I(hi) if isinstance(hi, int) else hi
        if lo.eq(hi):
            return self.unit
        return self.f(*(list(args[:-2]) + [lo, hi]))


# lazily instantiated facts about array-valued symbols introduced by range copies
COPIES = {}  # name -> (dst, di, src, si, n)
ALLHAVOC = {}
LEMMAS = []     # (name, thunk -> list of (label, hypotheses, goal)) proved on every run
# plain lemma schemata: function name -> callable(term) -> list of facts
UNFOLD = {}


pow2 = z3.Function('pow2', IntS, IntS)
UNFOLD['pow2'] = lambda e: [z3.Implies(e.arg(0) == k, e == 2 ** k) for k in range(65)] + [e >= 1] + [z3.Implies(e.arg(0) <= k, e <= 2 ** k) for k in (31, 62)]
shl = z3.Function('shl', IntS, IntS, IntS)     # x * 2^n for x, n >= 0


def un_shl(e):
    x, n = e.children()
    out = [z3.Implies(n == 0, e == x), z3.Implies(z3.And(x >= 0, n >= 0), z3.And(e >= 0, e >= x)), z3.Implies(x == 1, e == pow2(n))]
    for c in range(1, 9):
        out.append(z3.Implies(z3.And(x >= 0, x < 2 ** c, n >= 0, n <= 62 - c), e < 2 ** 62))
    return out


UNFOLD['shl'] = un_shl


def is_store(a):
    return z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE


def subterms(es):
    seen, out, stack = set(), [], list(es)
    while stack:
        e = stack.pop()
        h = e.get_id()
        if h in seen:
            continue
        seen.add(h)
        out.append(e)
        if z3.is_quantifier(e):
            continue
        stack.extend(e.children())
    return out


def instantiate(pc, goal, rounds=4, maxterms=1500):
    """ground instances of the fold lemmas for the terms of one obligation"""
    facts = []
    done = set()
    base = list(pc) + [goal]
    terms = subterms(base)
    points = {}

    def addpoint(p):
        points.setdefault(p.get_id(), p)
    work = []
    known = set()
    alias = {}
    keepalive = []

    def scan(ts):
        for e in ts:
            if e.get_id() in known or not z3.is_app(e):
                continue
            known.add(e.get_id())
            d = e.decl()
            if e.num_args() == 0 and d.name() in COPIES:
                dst, di, src, si, n = COPIES[d.name()]
                facts.append(z3.Implies(n <= 0, e == dst))
                scan(subterms([dst, src]))
            k = d.kind()
            if k == z3.Z3_OP_EQ and z3.is_array(e.arg(0)) and e.arg(0).sort().domain() == IntS and not z3.is_array(e.arg(0).sort().range()):
                x, y = e.arg(0), e.arg(1)
                alias.setdefault(x.get_id(), []).append(y)
                alias.setdefault(y.get_id(), []).append(x)
            if k in (z3.Z3_OP_SELECT, z3.Z3_OP_STORE):
                a = e.arg(0)
                if a.sort().domain() == IntS and a.sort().range() in rngs:
                    work.append(e)
            elif k == z3.Z3_OP_UNINTERPRETED:
                n = d.name()
                if n in FOLDS or n in UNFOLD:
                    work.append(e)

    def concrete(a):
        seen, todo, best = {a.get_id()}, [a], a
        while todo and len(seen) < 30:
            x = todo.pop(0)
            if rankof(x) > rankof(best):
                best = x
            for y in alias.get(x.get_id(), ()):
                if y.get_id() not in seen:
                    seen.add(y.get_id())
                    todo.append(y)
        return best

    rngs = (IntS, BoolS)
    if any(z3.is_app(e) and e.decl().name() in FOLDS and FOLDS[e.decl().name()].names for e in terms):
        rngs = (IntS, BoolS, BYTES)
    scan(terms)
    # points: indices at which arrays used by folds are read or written

    def heapish(a):
        while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
            a = a.arg(0)
        return z3.is_app(a) and a.num_args() == 0 and a.decl().name()[:2] in ('F:', 'C:', 'G:', 'E:')
    for rnd in range(rounds):
        cur, work = work, []
        folds = []
        newf = []
        for e in cur:
            d = e.decl()
            if d.kind() == z3.Z3_OP_STORE:
                if not heapish(e.arg(0)):
                    addpoint(e.arg(1))
            elif d.kind() == z3.Z3_OP_SELECT:
                a, i = e.arg(0), e.arg(1)
                if not heapish(a):
                    addpoint(i)
                nm = a.decl().name() if z3.is_app(a) and a.num_args() == 0 else None
                if nm in COPIES:
                    dst, di, src, si, n = COPIES[nm]
                    facts.append(e == z3.If(z3.And(i >= di, i < di + n), z3.Select(src, si + i - di), z3.Select(dst, i)))
            elif d.name() in UNFOLD:
                fs = UNFOLD[d.name()](e)
                if rnd <= 1:
                    newf.extend(fs)
                else:
                    facts.extend(fs)
            else:
                folds.append(e)
        if rnd == 0:
            allfolds = []
        allfolds.extend(folds)
        if len(allfolds) > maxterms:
            facts.extend(newf)
            break
        pts = list(points.values())
        for e in (allfolds if rnd <= 1 else folds):
            F = FOLDS[e.decl().name()]
            args = e.children()
            arrs, ps, lo, hi = args[:F.na], args[F.na:F.na + F.np], args[-2], args[-1]

            def mk(*xs):
                return F(*xs)
            kk = (e.get_id(), 'u')
            if kk not in done:
                done.add(kk)
                newf.append(z3.Implies(hi <= lo, e == F.unit))
                if F.lemma:
                    newf.extend(F.lemma(F, e, arrs, ps, lo, hi))
                # the same fold over arrays equated with these
                for j, a in enumerate(arrs):
                    for y in alias.get(a.get_id(), ()):
                        if (e.get_id(), j, y.get_id()) in done or is_store(a):
                            continue
                        done.add((e.get_id(), j, y.get_id()))
                        e2 = mk(*(arrs[:j] + [y] + arrs[j + 1:] + ps + [lo, hi]))
                        newf.append(z3.Implies(a == y, e == e2))
                # ... and over the most concrete terms all of its arrays are equated with
                if F.na > 1 and rnd <= 1:
                    rep = [concrete(a) for a in arrs]
                    if sum(not x.eq(y) for x, y in zip(rep, arrs)) > 1:
                        newf.append(z3.Implies(z3.And(*[x == y for x, y in zip(rep, arrs) if not x.eq(y)]), e == mk(*(rep + ps + [lo, hi]))))
                # store frames
                if any(z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE for a in arrs):
                    conds, inner = [], []
                    for a in arrs:
                        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
                            conds.append(a.arg(1) >= hi if F.prefix else z3.Or(a.arg(1) < lo, a.arg(1) >= hi))
                            inner.append(a.arg(0))
                        else:
                            inner.append(a)
                    newf.append(z3.Implies(z3.And(*conds), e == mk(*(inner + ps + [lo, hi]))))
                for j, a in enumerate(arrs):
                    nm = a.decl().name() if z3.is_app(a) and a.num_args() == 0 else None
                    if nm in COPIES and F.na == 1:
                        dst, di, src, si, n = COPIES[nm]
                        newf.append(z3.Implies(hi <= di, e == mk(*([dst] + ps + [lo, hi]))))
                        if F.prefix:
                            continue
                        newf.append(z3.Implies(z3.And(lo >= di, hi <= di + n), e == mk(*([src] + ps + [z3.simplify(lo - di + si), z3.simplify(hi - di + si)]))))
                        newf.append(z3.Implies(z3.And(lo <= di, di <= hi), e == F.comb(mk(*([a] + ps + [lo, di])), mk(*([a] + ps + [di, hi])))))
            if rnd <= 1:
                for p in pts:
                    kk = (e.get_id(), p.get_id())
                    if kk in done:
                        continue
                    done.add(kk)
                    if is_const_int(p) and is_const_int(lo) and p.as_long() < lo.as_long():
                        continue
                    if rnd == 1 and len(pts) * len(folds) > 150 and not p.eq(lo) and not any(is_store(a) and a.arg(1).eq(p) for a in arrs) and not _lastof(p, hi):
                        continue
                    els = [z3.Select(a, p) for a in arrs]
                    newf.append(z3.Implies(z3.And(lo <= p, p < hi),
                                           e == F.comb(mk(*(arrs + ps + [lo, p])), (F.step(els, ps, arrs, p) if F.prefix else F.step(els, ps)), mk(*(arrs + ps + [z3.simplify(p + 1), hi])))))
        facts.extend(newf)
        scan(subterms(newf))
    return facts


def rankof(a):
    if is_store(a):
        return 2
    return 1 if a.num_args() == 0 or a.decl().kind() == z3.Z3_OP_SELECT else 0


def _lastof(p, hi):
    return z3.simplify(hi - p - 1).eq(I(0))
