from core import *
import core

MODELS = {}      # external callee name -> model function(E, st, args, ins) -> [(st, result)]
CONTRACTS = {}   # function name -> Contract
ARB = []         # constants of byte strings that stand for arbitrary ones
RECV = []        # model of receiving from a channel
CHAN = {}        # other channel operations: 'make' (E, st, ref), 'send' (E, st, ch, v, line), 'close' (E, st, ch, line), 'recv' (E, st, ch, type): states with (value, ok)
APPENDHOOKS = []  # run on the array an append may allocate
GOHOOK = {}      # function started by a go statement -> what the caller may rely on (E, st, env)
FUNCSIG = {}     # signature of a function value (may be nil) -> model
FUNCVAR = {}     # global function variable -> model
GLOBCONST = {}   # globals with known immutable meaning -> callable(E, st)
NEVERINLINE = set()


SLOW = 1     # a second attempt gets more time


class Clause:
    def __init__(self, label, src):
        self.label, self.src = label, src
        if isinstance(src, str):
            tree = ast.parse(src.strip(), mode='eval')
            tree = _Tr().visit(tree)
            ast.fix_missing_locations(tree)
            self.code = compile(tree, '<%s>' % label, 'eval')
        else:
            self.code = None


class _Tr(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'old':
            n.args = [ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=n.args[0])]
            n.func = ast.Name(id='OLD', ctx=ast.Load())
        elif isinstance(n.func, ast.Name) and n.func.id == 'entry':
            n.args = [ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=n.args[0])]
            n.func = ast.Name(id='ENTRY', ctx=ast.Load())
        elif isinstance(n.func, ast.Name) and n.func.id == 'head':
            n.args[1] = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=n.args[1])
            n.func = ast.Name(id='HEAD', ctx=ast.Load())
        elif isinstance(n.func, ast.Name) and n.func.id == 'implies':
            # lazily evaluated consequent
            n.args[1] = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=n.args[1])
        return n

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        return ast.Call(func=ast.Name(id='AND' if isinstance(n.op, ast.And) else 'OR', ctx=ast.Load()), args=n.values, keywords=[])

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            return ast.Call(func=ast.Name(id='NOT', ctx=ast.Load()), args=[n.operand], keywords=[])
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.Call(func=ast.Name(id='ITE', ctx=ast.Load()), args=[n.test, n.body, n.orelse], keywords=[])

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            return n
        parts, left = [], n.left
        for op, r in zip(n.ops, n.comparators):
            parts.append(ast.Compare(left=left, ops=[op], comparators=[r]))
            left = r
        return ast.Call(func=ast.Name(id='AND', ctx=ast.Load()), args=parts, keywords=[])


class Contract:
    """requires/ensures/modifies of one function; loops: list of LoopSpec in source order"""

    def __init__(self, fn, params='', returns='', requires=(), ensures=(), modifies=(), loops=(), inline=False,
                 ghost=(), trusted=False, note='', havoc_all=False, cb=(), bv=False, setup=None, pre=None, exit=None, local=False, may_panic=False, lemma=(), rank=None, group=None, alias=None, distinct=False, visits=(), inl=None):
        self.fn = fn
        self.params = params.split()
        self.returns = returns.split()
        self.requires = [self.mk('req', i, c) for i, c in enumerate(requires)]
        self.ensures = [self.mk('ens', i, c) for i, c in enumerate(ensures)]
        self.modifies = list(modifies)
        self.loops = list(loops)
        self.inline, self.trusted, self.note = inline, trusted, note
        self.cb = list(cb)
        self.bv = bv
        self.setup = setup
        self.pre, self.exit = pre, exit      # ghost code before a call, and before the postconditions
        self.local = local                   # used by callers in its own package only
        self.may_panic = may_panic
        self.havoc_all = havoc_all
        self.rank = Clause('rank', rank) if rank else None
        self.group = group or fn
        self.distinct = distinct
        self.visits = list(visits)     # invariants of the visitor calls a dependency makes
        self.inl = inl or {}           # functions expanded at their calls here -> their loops
        self.alias = None     # the first result is always this reference
        if alias:
            self.alias = Clause('alias', 'sameref(r0, %s)' % alias)
            self.alias_term = Clause('alias', alias)
            self.ensures.insert(0, self.alias)
        CONTRACTS[fn] = self

    @staticmethod
    def mk(pfx, i, c):
        if isinstance(c, Clause):
            return c
        if isinstance(c, tuple):
            return Clause(c[0], c[1])
        return Clause('%s%d' % (pfx, i), c)


class LoopSpec:
    def __init__(self, inv=(), dec=None, unroll=None):
        self.inv = [Contract.mk('inv', i, c) for i, c in enumerate(inv)]
        self.dec = Clause('decreases', dec) if dec else None
        self.unroll = unroll


# ---------------------------------------------------------------- spec wrappers
class W:
    """typed view of a value in the state selected by E.cur"""

    def __init__(self, E, v, t):
        object.__setattr__(self, 'E', E)
        object.__setattr__(self, 'v', v)
        object.__setattr__(self, 't', t)

    def __getattr__(self, name):
        E = self.E
        st = E.cur
        v = self.v
        if isinstance(v, SliceV):
            if name in ('base', 'off', 'len', 'cap'):
                return getattr(v, name)
            raise SpecError('slice attr ' + name)
        if isinstance(v, StructV):
            for i, f in enumerate(E.P.fields(v.t)):
                if f['n'] == name:
                    return E.wrap(v.f[i], f['t'])
        if name in GHOST:
            return E.rd(st, 'G:' + name, v)
        t = self.t
        ud = E.P.under(t)
        if ud['k'] == 'ptr':
            t = ud['e']
        if E.P.kind(t) == 'struct':
            for i, f in enumerate(E.P.fields(t)):
                if f['n'] == name:
                    if E.P.kind(f['t']) == 'struct':
                        return W(E, E.subref(t, i, v), f['t'])
                    return E.wrap(E.load_field(st, v, t, i), f['t'])
        raise SpecError('no field %s in %s' % (name, self.t))

    def __getitem__(self, i):
        v = self.v
        i = I(i) if isinstance(i, int) else i
        if isinstance(v, SliceV):
            return self.E.wrap(self.E.load_elem(self.E.cur, v, i), v.et)
        raise SpecError('index')

    def __eq__(self, o):
        if o is None:
            return (self.v.base if isinstance(self.v, SliceV) else self.v) == 0
        if isinstance(o, W):
            return eqb(self.v, o.v)
        return self.v == o

    def __ne__(self, o):
        return z3.Not(self.__eq__(o))

    __hash__ = None


def unw(x):
    if isinstance(x, W):
        return x.v
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return I(x)
    return x


def AND(*a):
    return z3.And(*[unw(x) for x in a])


def OR(*a):
    return z3.Or(*[unw(x) for x in a])


def NOT(a):
    return z3.Not(unw(a))


def ITE(c, a, b):
    return z3.If(unw(c), unw(a), unw(b))


class Names(dict):
    """specification names; each is defined once"""
    def __setitem__(self, k, v):
        assert k not in self, 'specification name %s defined twice' % k
        dict.__setitem__(self, k, v)

    def update(self, *a, **kw):
        for k, v in dict(*a, **kw).items():
            self[k] = v


SPECFN = Names()


def specfn(f):
    SPECFN[f.__name__] = f
    return f


# ---------------------------------------------------------------- engine
class Engine:
    MAXPATH = 4000

    def __init__(self, prog, fn, contract=None, opts=None):
        self.P = prog
        self.fn = fn
        self.C = contract
        self.obls = []
        self.solver = z3.Solver()
        self.solver.set('timeout', SLOW * 120)
        self.stack = []       # pc mirrored in solver
        self.qcount = 0
        self.qtime = 0.0
        self.cur = None
        self.oldst = None
        self.assuming = False
        self.entryst = None
        self.suppress = 0
        self.depth = 0
        self.used_models = {}
        self.used_contracts = set()
        self.inlined = set()
        self.unknown = {}
        self.npaths = 0
        self.callstack = []
        self.opts = opts or {}
        self.loopctx = []
        self.cover = []
        self.unsupported = []
        self.deadline = time.time() + self.opts.get('budget', 300)
        self.strconsts = {}
        self.predarr = {}     # array after a call -> (array before, region it may have written, allocation mark)
        self.modset = None
        self.trivial = 0

    # ---- solver helpers
    def sync(self, pc):
        s, st = self.solver, self.stack
        n = 0
        m = min(len(st), len(pc))
        while n < m and st[n].get_id() == pc[n].get_id():
            n += 1
        if len(st) > n:
            s.pop(len(st) - n)
            del st[n:]
        for c in pc[n:]:
            s.push()
            s.add(c)
            st.append(c)

    def prove(self, st, goal, timeout=None):
        if isinstance(goal, bool):
            return goal
        if z3.is_true(goal):
            return True
        if z3.is_false(goal):
            return False
        t0 = time.time()
        self.sync(st.pc)
        self.solver.push()
        self.solver.add(z3.Not(goal))
        self.solver.set('timeout', SLOW * (timeout or 120))
        try:
            r = self.solver.check()
        except z3.Z3Exception:      # resource limit inside the sequence solver
            r = z3.unknown
        self.solver.pop()
        self.qcount += 1
        self.qtime += time.time() - t0
        return r == z3.unsat

    def feasible(self, st, cond):
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        t0 = time.time()
        self.sync(st.pc)
        self.solver.push()
        self.solver.add(cond)
        self.solver.set('timeout', SLOW * 120)
        try:
            r = self.solver.check()
        except z3.Z3Exception:      # resource limit inside the sequence solver
            r = z3.unknown
        self.solver.pop()
        self.qcount += 1
        self.qtime += time.time() - t0
        return r != z3.unsat

    # ---- obligations
    def oblige(self, st, name, kind, goal, line=None, assume=True):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if not self.suppress:
            o = Obl(name, kind, self.fn, line, list(st.pc), goal)
            g = goal
            if z3.is_true(g) or z3.is_true(z3.simplify(g)):
                o.status, o.backend = 'ok', 'simplifier'
            elif kind == 'safety' and self.prove(st, g):
                o.status, o.backend = 'ok', 'z3-inproc'
            if o.status == 'ok':
                o.pc = None
            self.obls.append(o)
        if assume:
            st.assume(goal)

    # ---- fresh values
    def new_ref(self, st, hint='new'):
        r = z3.Int(fresh_name(hint))
        st.serial += 1
        st.assume(r > st.alloc)
        st.alloc = r
        st.info[r.get_id()] = ('fresh', st.serial, r)
        return r

    def note_old(self, st, e, serial):
        if e.get_id() not in st.info:
            st.info[e.get_id()] = ('old', serial, e)

    def bump_alloc(self, st):
        a = z3.Int(fresh_name('A'))
        st.assume(a >= st.alloc)
        st.alloc = a
        st.serial += 1

    def bound_of(self, st, e):
        x = st.info.get(e.get_id())
        if x is None:
            if is_const_int(e):
                return ('old', 0) if e.as_long() >= 0 else ('old', 0)
            return None
        return x[:-1] if x[0] == 'new' else x[:2]

    def differ(self, st, i, ref):
        k = ('ne', i.get_id(), ref.get_id())
        r = st.info.get(k)
        if r is True:
            return True
        n, at = r or (0, -1)
        if n >= 3 or at == len(st.pc):
            return False
        if self.prove(st, i != ref, 100):
            st.info[k] = True
            return True
        st.info[k] = (n + 1, len(st.pc))
        return False

    def kind_here(self, st, k):
        """the node kind the path fixes"""
        key = ('kd', k.get_id())
        r = st.info.get(key)
        if r is not None and r[0] is not None:
            return r[0]
        if r is not None and r[1] == len(st.pc):
            return None
        for c in (0, 1):
            if self.prove(st, k == c, 60):
                st.info[key] = (c, 0, k)
                return c
        st.info[key] = (None, len(st.pc), k)
        return None

    def settle(self, st, e):
        """a reference a contract calls fresh (under a condition): record when it was born, if the path proves it"""
        s = self.subinfo.get(e.get_id())
        if s:
            e = s[0]
        c = st.info.get(('fc', e.get_id()))
        if c is None or (st.info.get(e.get_id()) or ('',))[0] == 'new':
            return False
        n, at = st.info.get(('fcn', e.get_id()), (0, -1))
        if n >= 4 or at == len(st.pc):
            return False
        if self.prove(st, e > c[1], 100):
            st.info[e.get_id()] = ('new', c[2], c[3], e)
            return True
        st.info[('fcn', e.get_id())] = (n + 1, len(st.pc))
        return False

    def distinct_syn(self, st, a, b):
        if a.eq(b):
            return False
        if is_const_int(a) and is_const_int(b):
            return a.as_long() != b.as_long()
        ia, ib = self.bound_of(st, a), self.bound_of(st, b)
        if ia and ib:
            if ia[0] == 'fresh' and ib[0] == 'fresh':
                return ia[1] != ib[1]
            if ia[0] == 'fresh' and ib[0] == 'old' and ib[1] < ia[1]:
                return True
            if ib[0] == 'fresh' and ia[0] == 'old' and ia[1] < ib[1]:
                return True
            if ia[0] == 'new' or ib[0] == 'new':
                x, y = (ia, ib) if ia[0] == 'new' else (ib, ia)
                if y[0] == 'old' and y[1] <= x[1]:
                    return True
                if y[0] == 'fresh' and (y[1] <= x[1] or y[1] > x[2]):
                    return True
                if y[0] == 'new' and (y[1] >= x[2] or x[1] >= y[2]):
                    return True
        # interior references: -(16 r + code)
        sa, sb = self.subinfo.get(a.get_id()), self.subinfo.get(b.get_id())
        if sa and sb:
            if sa[1] != sb[1]:
                return True
            return self.distinct_syn(st, sa[0], sb[0])
        if (sa is None) != (sb is None):
            return True if (ia or ib) and self._posref(st, b if sa else a) else False
        return False

    def _posref(self, st, e):
        x = st.info.get(e.get_id())
        return bool(x and x[0] == 'fresh')

    subinfo = {}
    subcode = {}

    def subref(self, t, i, r):
        key = (t, i)
        if key not in self.subcode:
            self.subcode[key] = len(self.subcode) + 1
        code = self.subcode[key]
        e = -(r * 64 + code)
        if e.get_id() not in self.subinfo:
            self.subinfo[e.get_id()] = (r, code, e)
        return e

    def fresh_val(self, st, t, hint='v', bound=None):
        """arbitrary value of Go type t, with type facts assumed"""
        k = self.P.kind(t)
        n = fresh_name(hint)
        if k == 'int':
            v = z3.Int(n)
            self.assume_range(st, v, t)
            return v
        if k == 'bool':
            return z3.Bool(n)
        if k == 'string':
            v = z3.Const(n, BYTES)
            st.assume(z3.Length(v) <= MAXLEN)
            return v
        if k in ('ref', 'cid', 'float'):
            v = z3.Int(n)
            if k == 'ref':
                st.assume(v <= st.alloc)
                if self.P.under(t)['k'] == 'ptr':
                    pass
                self.note_old(st, v, st.serial)
            return v
        if k == 'slice':
            b, o, l, c = z3.Int(n + '.b'), z3.Int(n + '.o'), z3.Int(n + '.l'), z3.Int(n + '.c')
            s = SliceV(b, o, l, c, self.P.elem(t))
            self.assume_slice(st, s)
            self.note_old(st, b, st.serial)
            return s
        if k == 'struct':
            return StructV(t, [self.fresh_val(st, f['t'], hint) for f in self.P.fields(t)])
        if k == 'tuple':
            return TupleV([self.fresh_val(st, x, hint) for x in self.P.under(t)['es']])
        raise Unsupported('fresh value of type ' + t)

    def assume_range(self, st, v, t):
        w, sg = self.P.intinfo(t)
        if sg:
            st.assume(v >= -(2 ** (w - 1)), v < 2 ** (w - 1))
        else:
            st.assume(v >= 0, v < 2 ** w)

    def assume_slice(self, st, s):
        st.assume(s.base >= 0, s.base <= st.alloc, s.off >= 0, s.len >= 0, s.len <= s.cap, s.cap <= MAXLEN, s.off <= MAXLEN,
                  z3.Implies(s.base == 0, z3.And(s.cap == 0, s.off == 0)))
        if self.isbyte(s.et):
            st.assume(z3.Implies(s.base > 0, s.off + s.cap <= z3.Length(self.rd(st, 'E:byte', s.base))))

    def isbyte(self, et):
        return self.P.kind(et) == 'int' and self.P.intinfo(et)[0] == 8

    def zero(self, t):
        k = self.P.kind(t)
        if k in ('int', 'ref', 'cid', 'float'):
            return I(0)
        if k == 'bool':
            return FALSE
        if k == 'string':
            return EMPTY
        if k == 'slice':
            return SliceV(I(0), I(0), I(0), I(0), self.P.elem(t))
        if k == 'struct':
            return StructV(t, [self.zero(f['t']) for f in self.P.fields(t)])
        if k == 'tuple':
            return TupleV([self.zero(x) for x in self.P.under(t)['es']])
        raise Unsupported('zero of ' + t)

    # ---- heap
    def sortof(self, key):
        if key in KEYSORT:
            return KEYSORT[key]
        raise SpecError('no sort for key ' + key)

    def harr(self, st, key):
        if key not in st.heap:
            nm = '%s@%d' % (key, st.epoch)
            st.heap[key] = z3.Array(nm, IntS, self.sortof(key))
            st.info[('arr', st.heap[key].get_id())] = st.epochA.get(st.epoch, 0)
        return st.heap[key]

    def rd(self, st, key, ref):
        if isinstance(ref, W):
            ref = ref.v
        a = self.harr(st, key)
        while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
            i = a.arg(1)
            if i.eq(ref):
                return a.arg(2)
            if self.distinct_syn(st, i, ref):
                a = a.arg(0)
                continue
            if self.settle(st, i) | self.settle(st, ref):
                continue
            if self.C is not None and self.C.distinct and self.differ(st, i, ref):
                a = a.arg(0)
                continue
            break
        if self.predarr:
            self.framefact(st, a, ref)
        return z3.Select(a, ref)

    def framefact(self, st, a, ref):
        """a call that may write a region only: what lies outside it is as before"""
        while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
            a = a.arg(0)
        nm = a.decl().name()
        if nm not in self.predarr or ('ff', nm, ref.get_id()) in st.info:
            return
        st.info[('ff', nm, ref.get_id())] = (ref, )
        old, pred, alloc = self.predarr[nm]
        st.assume(z3.Implies(z3.And(ref <= alloc, z3.Not(pred(ref))), z3.Select(a, ref) == z3.Select(old, ref)))
        self.framefact(st, old, ref)

    def wr(self, st, key, ref, val, check=True):
        a = self.harr(st, key)
        # drop an immediately overwritten store
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE and a.arg(1).eq(ref):
            a = a.arg(0)
        st.heap[key] = z3.Store(a, ref, val)
        if check:
            self.logwrite(st, key, ref)

    def logwrite(self, st, key, ref):
        st.log.append((key, ref))
        for h in WRITEHOOKS:
            h(self, st, key, ref)
        if self.modset is not None and not self.suppress:
            self.check_frame(st, key, ref)

    def is_fresh_since(self, st, ref, serial, alloc):
        base = ref
        s = self.subinfo.get(ref.get_id())
        if s:
            base = s[0]
        inf = st.info.get(base.get_id())
        if inf and inf[0] == 'fresh' and inf[1] > serial:
            return True
        if inf and inf[0] == 'new' and inf[1] >= serial:
            return True
        if inf and inf[0] == 'old' and inf[1] <= serial:
            return False
        return None

    def check_frame(self, st, key, ref):
        if key == 'E:byte' and ('ro', ref.get_id()) in st.info:
            self.oblige(st, 'frame: data of a node is not written', 'frame', z3.Length(st.info[('ro', ref.get_id())][1]) == 0, assume=False)
            return
        f = self.is_fresh_since(st, ref, 0, None)
        if f:
            return
        if key.startswith('G:') and key[2:] in UNFRAMED:
            return
        base = ref
        s = self.subinfo.get(ref.get_id())
        if s:
            base = s[0]
        opts = [base > self.A0]
        k0 = basekey(key)
        if k0.startswith('E:'):
            opts.append(base == 0)     # the empty backing array has no cells
        if k0[2:] in NILFREE:
            opts.append(base == 0)
        for (mk, mr) in self.modset:
            if mk == '*' or mk == k0:
                if mr is None:
                    return
                if callable(mr):
                    opts.append(mr(ref))
                    continue
                if mr.eq(ref):
                    return
                opts.append(ref == mr)
        self.oblige(st, 'frame: write to %s only where the contract allows' % k0, 'frame', z3.Or(*opts), assume=False)

    # field access
    def fkey(self, t, i):
        f = self.P.fields(t)[i]
        return 'F:%s.%s' % (t, f['n']), f['t']

    def comps(self, t):
        """component suffixes and sorts for a stored value of type t"""
        k = self.P.kind(t)
        if k in ('int', 'ref', 'cid', 'float'):
            return [('', IntS)]
        if k == 'bool':
            return [('', BoolS)]
        if k == 'string':
            return [('', BYTES)]
        if k == 'slice':
            return [('.b', IntS), ('.o', IntS), ('.l', IntS), ('.c', IntS)]
        raise Unsupported('stored value of type ' + t)

    def regkey(self, key, t):
        for s, so in self.comps(t):
            KEYSORT.setdefault(key + s, so)

    def load_key(self, st, key, ref, t):
        self.regkey(key, t)
        k = self.P.kind(t)
        if k == 'slice':
            s = SliceV(self.rd(st, key + '.b', ref), self.rd(st, key + '.o', ref), self.rd(st, key + '.l', ref), self.rd(st, key + '.c', ref), self.P.elem(t))
            arr = self.rd(st, 'E:byte', s.base) if self.isbyte(s.et) else s.base
            sk = ('sl', s.base.get_id(), s.off.get_id(), s.len.get_id(), arr.get_id())
            if not st.info.get(sk):
                st.info[sk] = (s, arr)
                self.assume_slice(st, s)
                self.note_load(st, s.base)
            return s
        v = self.rd(st, key, ref)
        if ('ld', v.get_id()) not in st.info:
            st.info[('ld', v.get_id())] = (v, )
            if k == 'int':
                if not is_const_int(v):
                    self.assume_range(st, v, t)
            elif k == 'ref':
                self.note_load(st, v)
                if not is_const_int(v):
                    st.assume(v <= st.alloc)
            elif k == 'string':
                st.assume(z3.Length(v) <= MAXLEN)
        return v

    def note_load(self, st, v):
        """a value read from an entry-time array at a pre-existing reference is itself pre-existing"""
        if v.get_id() in st.info:
            return
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_SELECT:
            a, r = v.arg(0), v.arg(1)
            ser = st.info.get(('arr', a.get_id()))
            rb = r
            s = self.subinfo.get(r.get_id())
            if s:
                rb = s[0]
            b = self.bound_of(st, rb)
            if ser is not None and b and b[0] == 'old' and b[1] <= ser:
                self.note_old(st, v, ser)
                if ser == 0:
                    st.assume(v <= self.A0)
                return
            if ser == 0:
                st.assume(z3.Implies(rb <= self.A0, v <= self.A0))
        self.note_old(st, v, st.serial)

    def load_field(self, st, ref, t, i):
        key, ft = self.fkey(t, i)
        k = self.P.kind(ft)
        if k == 'struct':
            return self.load_struct(st, self.subref(t, i, ref), ft)
        if k == 'array':
            raise Unsupported('array field')
        return self.load_key(st, key, ref, ft)

    def load_struct(self, st, ref, t):
        return StructV(t, [self.load_field(st, ref, t, i) for i in range(len(self.P.fields(t)))])

    def store_key(self, st, key, ref, t, v):
        self.regkey(key, t)
        if self.P.kind(t) == 'slice':
            for s, x in (('.b', v.base), ('.o', v.off), ('.l', v.len), ('.c', v.cap)):
                self.wr(st, key + s, ref, x)
            return
        self.wr(st, key, ref, self.enc(st, v))

    def enc(self, st, v):
        """value stored in a heap cell"""
        if isinstance(v, Loc):
            if v.kind == 'field':
                f = z3.Function('fp_' + v.key, IntS, IntS)
                e = f(v.ref)
                self.locenc[e.get_id()] = (v, e)
                st.assume(e < 0)
                return e
            raise Unsupported('storing address of a slice element')
        if isinstance(v, FuncV):
            r = z3.Int(fresh_name('fn'))
            self.funcenc[r.get_id()] = (v, r)
            st.assume(r > 0, r <= st.alloc)
            return r
        return v

    locenc = {}
    funcenc = {}

    def store_struct(self, st, ref, t, v):
        for i, f in enumerate(self.P.fields(t)):
            if self.P.kind(f['t']) == 'struct':
                self.store_struct(st, self.subref(t, i, ref), f['t'], v.f[i])
            else:
                key, ft = self.fkey(t, i)
                self.store_key(st, key, ref, ft, v.f[i])

    def ekey(self, et):
        if self.isbyte(et):
            KEYSORT.setdefault('E:byte', BYTES)
            return 'E:byte'
        cs = self.comps(et)
        if len(cs) != 1:
            raise Unsupported('slice of ' + et)
        k = 'E:' + et
        KEYSORT.setdefault(k, z3.ArraySort(IntS, cs[0][1]))
        return k

    def load_elem(self, st, s, i):
        j = i if is_const_int(s.off) and s.off.as_long() == 0 else simp_int(s.off + i)
        return self.load_at(st, s.base, j, s.et)

    def load_at(self, st, base, j, et):
        if self.P.kind(et) == 'struct':
            raise Unsupported('slice of structs')
        k = self.ekey(et)
        arr = self.rd(st, k, base)
        if k == 'E:byte':
            v = arr[j]
            st.assume(v >= 0, v < 256)
            return v
        while z3.is_app(arr) and arr.decl().kind() == z3.Z3_OP_STORE:
            if arr.arg(1).eq(j):
                break
            if is_const_int(arr.arg(1)) and is_const_int(j):
                arr = arr.arg(0)
                continue
            break
        if z3.is_app(arr) and arr.decl().kind() == z3.Z3_OP_STORE and arr.arg(1).eq(j):
            v = arr.arg(2)
        else:
            v = z3.Select(arr, j)
        if ('ld', v.get_id()) not in st.info:
            st.info[('ld', v.get_id())] = (v, )
            kk = self.P.kind(et)
            if kk == 'int' and not is_const_int(v):
                self.assume_range(st, v, et)
            elif kk == 'ref' and not is_const_int(v):
                st.assume(v <= st.alloc)
                self.note_old(st, v, st.serial)
        for h in ELEMHOOKS:
            h(self, st, base, j, et, v)
        return v

    def store_at(self, st, base, j, et, v):
        k = self.ekey(et)
        arr = self.rd(st, k, base)
        if k == 'E:byte':
            n = z3.Length(arr)
            self.wr(st, k, base, z3.Concat(z3.Extract(arr, I(0), j), z3.Unit(v), z3.Extract(arr, j + 1, n - j - 1)))
        else:
            self.wr(st, k, base, z3.Store(arr, j, self.enc(st, v)))
            for h in ELEMSTORES:
                h(self, st, base, j, et, v)

    def bytes_of(self, st, s):
        """content of a byte slice as a sequence"""
        if is_const_int(s.len) and s.len.as_long() == 0:
            return EMPTY
        arr = self.rd(st, 'E:byte', s.base)
        if is_const_int(s.off) and s.off.as_long() == 0 and s.len.eq(z3.Length(arr)):
            return arr
        return z3.Extract(arr, s.off, s.len)

    def new_bytes(self, st, content, hint='buf'):
        b = self.new_ref(st, hint)
        KEYSORT.setdefault('E:byte', BYTES)
        self.wr(st, 'E:byte', b, content, check=False)
        l = z3.Length(content)
        st.assume(l <= MAXLEN)
        return SliceV(b, I(0), l, l, 'byte')

    def deref(self, st, p, t):
        """load through pointer value p to type t"""
        if isinstance(p, Loc):
            if p.kind == 'field':
                if p.key in EMBEDS:
                    return p.ref
                return self.load_key(st, p.key, p.ref, p.t)
            return self.load_at(st, p.ref, p.idx, p.t)
        k = self.P.kind(t)
        if k == 'struct':
            return self.load_struct(st, p, t)
        if p.get_id() in self.locenc:
            return self.deref(st, self.locenc[p.get_id()][0], t)
        if k == 'array':
            raise Unsupported('array load')
        return self.load_key(st, 'C:' + t, p, t)

    def assign(self, st, p, t, v):
        if isinstance(p, Loc):
            if p.kind == 'field':
                for h in STOREHOOKS:
                    if h(self, st, p, v):
                        return
                return self.store_key(st, p.key, p.ref, p.t, v)
            return self.store_at(st, p.ref, p.idx, p.t, v)
        k = self.P.kind(t)
        if k == 'struct':
            for h in STRUCTHOOKS:
                h(self, st, p, t)
            return self.store_struct(st, p, t, v)
        if p.get_id() in self.locenc:
            return self.assign(st, self.locenc[p.get_id()][0], t, v)
        return self.store_key(st, 'C:' + t, p, t, v)

    # ---- spec evaluation
    def wrap(self, v, t):
        if isinstance(v, (SliceV, StructV)):
            return W(self, v, t)
        if self.P.kind(t) == 'ref' and t is not None:
            return W(self, v, t)
        return v

    def evalc(self, clause, env, st, old=None):
        sc, so = self.cur, self.oldst
        self.cur, self.oldst = st, old
        try:
            g = dict(SPECFN)
            g.update({'AND': AND, 'OR': OR, 'NOT': NOT, 'ITE': ITE, 'OLD': self._old, 'ENTRY': self._entry, 'HEAD': self._head, 'implies': self._implies,
                      'len_': lambda x: unw(x).len if isinstance(unw(x), SliceV) else z3.Length(unw(x)),
                      'true': TRUE, 'false': FALSE, 'E': self, 'z3': z3})
            g.update(env)
            r = eval(clause.code, g) if clause.code else clause.src(self, env)
            r = unw(r)
            return r
        finally:
            self.cur, self.oldst = sc, so

    def _old(self, th):
        if self.oldst is None:
            raise SpecError('old() without pre-state')
        return self._at(self.oldst, th)

    def _at(self, pre, th):
        """evaluate in an earlier state; type facts met there hold now too"""
        s = self.cur
        self.cur = pre
        n, inf, hp = len(pre.pc), dict(pre.info), dict(pre.heap)
        try:
            return th()
        finally:
            new = pre.pc[n:]
            del pre.pc[n:]
            pre.info = inf
            self.cur = s
            s.assume(*new)

    def _entry(self, th):
        return self._at(self.entryst, th)

    heads = {}

    def _head(self, i, th):
        """value at the head of the enclosing loop number i"""
        if i not in self.heads:
            raise SpecError('head(%s) outside that loop' % i)
        return self._at(self.heads[i], th)

    def _implies(self, a, th):
        a = unw(a)
        if z3.is_false(a):
            return TRUE
        return z3.Implies(a, unw(th()))

    def eval_mods(self, mods, env, st, old=None):
        """evaluate modifies items to [(key, ref)]"""
        out = []
        for m in mods:
            if callable(m):
                sc = self.cur
                self.cur = st
                try:
                    out.extend(m(self, env))
                finally:
                    self.cur = sc
                continue
            if m == '*':
                out.append(('*', None))
                continue
            obj, fld = m.rsplit('.', 1)
            guard = None
            cl = Clause('mod', obj)
            w = None
            sc, so = self.cur, self.oldst
            self.cur, self.oldst = st, old
            try:
                g = dict(SPECFN)
                g.update({'AND': AND, 'OR': OR, 'NOT': NOT, 'ITE': ITE, 'E': self})
                g.update(env)
                w = eval(cl.code, g)
                out.extend(self.modkeys(w, fld))
            finally:
                self.cur, self.oldst = sc, so
        return out

    def modkeys(self, w, fld):
        t = w.t
        ud = self.P.under(t)
        if ud['k'] == 'ptr':
            t = ud['e']
        if fld in GHOST:
            return [('G:' + fld, w.v)]
        fs = self.P.fields(t) if self.P.kind(t) == 'struct' else []
        out = []
        for i, f in enumerate(fs):
            if fld == '*' or f['n'] == fld:
                if self.P.kind(f['t']) == 'struct':
                    sub = W(self, self.subref(t, i, w.v), f['t'])
                    out.extend(self.modkeys(sub, '*'))
                else:
                    out.append((self.fkey(t, i)[0], w.v))
                    if fld != '*' and self.P.kind(f['t']) == 'slice' and False:
                        pass
        if not out and fld == 'elems':
            if isinstance(w.v, SliceV):
                out.append((self.ekey(w.v.et), w.v.base))
        if not out:
            raise SpecError('modifies: no field %s in %s' % (fld, t))
        return out

    def havoc_at(self, st, key, ref, hint='hv'):
        """arbitrary new value of field `key` (without component suffix) at ref"""
        if key.startswith('F:') or key.startswith('C:'):
            t = self.keytype(key)
            v = self.fresh_val(st, t, hint)
            self.store_key(st, key, ref, t, v)
        else:
            so = self.sortof(key)
            v = z3.Const(fresh_name('hv_' + key), so)
            if key == 'E:byte':        # storage does not change its size
                st.assume(z3.Length(v) == z3.Length(self.rd(st, key, ref)))
            self.wr(st, key, ref, v)

    def keytype(self, key):
        if key.startswith('C:'):
            return key[2:]
        t, f = key[2:].rsplit('.', 1)
        for x in self.P.fields(t):
            if x['n'] == f:
                return x['t']
        raise SpecError('key ' + key)


NILFREE = set()    # ghost fields never read at nil
UNFRAMED = set()   # ghost fields that need no frame (logical history)
EMBEDS = {'F:github.com/ipfs/go-merkledag.RawNode.Block'}   # embedded interface identified with its holder
ELEMHOOKS = []
NOTHOME = set()     # functions whose model stands for them outside their own package only
STOREHOOKS = []
ELEMSTORES, STRUCTHOOKS, MAKEHOOKS, CALLHOOKS, HAVOCHOOKS, WRITEHOOKS = [], [], [], [], [], []


def basekey(key):
    if key.endswith(('.b', '.o', '.l', '.c')) and (key.startswith('F:') or key.startswith('C:')):
        return key[:-2]
    return key
