"""Block executor: paths, loops, calls."""
from execu import *
import execu

IFACE_IMPL = {}   # interface-method full name -> model


class Outcome:
    __slots__ = ('st', 'res')

    def __init__(s, st, res):
        s.st, s.res = st, res


class Machine(Engine):
    MAXDEPTH = 12

    # ------------------------------------------------------------ operands
    def gref(self, name):
        ids = self.P.__dict__.setdefault('_gids', {})
        if name not in ids:
            ids[name] = len(ids) + 1000
        return I(ids[name])

    def strconst(self, s):
        b = s.encode('utf-8', 'surrogateescape') if isinstance(s, str) else s
        if len(b) == 0:
            return EMPTY
        if len(b) > 80:
            v = z3.Const('str_%s' % abs(hash(b)), BYTES)
            return v
        us = [z3.Unit(I(x)) for x in b]
        return us[0] if len(us) == 1 else z3.Concat(*us)

    def val(self, st, o):
        if 'r' in o:
            r = o['r']
            if r not in st.frame.regs:
                raise Unsupported('register %s undefined' % r)
            return st.frame.regs[r]
        if 'g' in o:
            return ('G', o['g'], self.P.elem(o['t']))
        if 'f' in o:
            return FuncV(o['f'])
        if 'b' in o:
            return ('B', o['b'])
        t = o['t']
        c = o['c']
        if c is None:
            return self.zero(t)
        k = self.P.kind(t)
        if k == 'int':
            if 'float' in o:
                raise Unsupported('float const as int')
            return I(int(c))
        if k == 'bool':
            return z3.BoolVal(c)
        if k == 'string':
            return self.strconst(c)
        if k == 'float':
            return I(abs(hash(str(c))) % 10**9)
        raise Unsupported('const %s of %s' % (c, t))

    # ------------------------------------------------------------ globals
    def gload(self, st, name, t):
        if name in GLOBCONST:
            return GLOBCONST[name](self, st)
        if self.P.kind(t) == 'ref' and self.P.under(t)['k'] == 'iface' and name not in self.P_written():
            return self.gref(name)     # error sentinel: a distinct non-nil constant
        if self.P.kind(t) == 'struct':
            return self.load_struct(st, self.gref(name), t)
        return self.load_key(st, 'C:' + t, self.gref(name), t)

    def P_written(self):
        P = self.P
        if not hasattr(P, '_gw'):
            P._gw = set()
            for n, f in P.funcs.items():
                if f['name'] == 'init' and 'parent' not in f:
                    continue
                for b in f['blocks']:
                    for i in b['i']:
                        if i['op'] == 'Store' and 'g' in i['a']:
                            P._gw.add(i['a']['g'])
        return P._gw

    def ptr(self, st, p):
        """pointer value for memory access"""
        if isinstance(p, tuple) and p[0] == 'G':
            return self.gref(p[1])
        return p

    def nilcheck(self, st, p, line, what='nil dereference'):
        if isinstance(p, (Loc, tuple)):
            return
        if is_const_int(p) and p.as_long() > 0:
            return
        if p.get_id() in self.subinfo or p.get_id() in self.locenc:
            return
        inf = st.info.get(p.get_id())
        if inf and inf[0] == 'fresh':
            return
        self.oblige(st, what, 'safety', p != 0, line)

    # ------------------------------------------------------------ arithmetic
    def wrap_int(self, st, r, t):
        if all(is_const_int(a) for a in r.children()):
            r = z3.simplify(r)
        if is_const_int(r):
            w, sg = self.P.intinfo(t)
            v = r.as_long() % (2 ** w)
            if sg and v >= 2 ** (w - 1):
                v -= 2 ** w
            return I(v)
        w, sg = self.P.intinfo(t)
        lo, hi = (-(2 ** (w - 1)), 2 ** (w - 1) - 1) if sg else (0, 2 ** w - 1)
        rng = z3.And(r >= lo, r <= hi)
        if self.prove(st, rng, 60):
            return r
        v = z3.Int(fresh_name('wr'))
        st.assume(v >= lo, v <= hi)
        q = z3.Int(fresh_name('q'))
        st.assume(v == r - q * (2 ** w))
        st.assume(z3.Implies(rng, v == r))
        return v

    def binop(self, st, ins):
        o = ins['o']
        x, y = self.val(st, ins['x']), self.val(st, ins['y'])
        tx = ins['x'].get('t')
        t = ins['t']
        if o in ('==', '!='):
            e = self.equal(st, x, y, tx)
            return e if o == '==' else z3.simplify(z3.Not(e)) if z3.is_true(e) or z3.is_false(e) else z3.Not(e)
        k = self.P.kind(tx)
        if k == 'string':
            if o == '+':
                r = z3.Concat(x, y) if not x.eq(EMPTY) and not y.eq(EMPTY) else (y if x.eq(EMPTY) else x)
                st.assume(z3.Length(r) <= MAXLEN)
                return r
            f = z3.Function('strlt', BYTES, BYTES, BoolS)
            return {'<': lambda: f(x, y), '>': lambda: f(y, x), '<=': lambda: z3.Not(f(y, x)), '>=': lambda: z3.Not(f(x, y))}[o]()
        if k == 'float':
            rs = BoolS if self.P.kind(t) == 'bool' else IntS
            return z3.Function('fl' + o, IntS, IntS, rs)(x, y)
        if o == '<':
            return x < y
        if o == '<=':
            return x <= y
        if o == '>':
            return x > y
        if o == '>=':
            return x >= y
        if o == '+':
            return self.wrap_int(st, simp_int(x + y), t)
        if o == '-':
            return self.wrap_int(st, simp_int(x - y), t)
        if o == '*':
            return self.wrap_int(st, z3.simplify(x * y) if is_const_int(x) and is_const_int(y) else x * y, t)
        if o in ('/', '%'):
            self.oblige(st, 'division by zero', 'safety', y != 0, ins.get('line'))
            if is_const_int(x) and is_const_int(y):
                a, b = x.as_long(), y.as_long()
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return I(q if o == '/' else a - q * b)
            if self.prove(st, z3.And(x >= 0, y > 0), 60):
                return x / y if o == '/' else x % y
            ax, ay = z3.If(x < 0, -x, x), z3.If(y < 0, -y, y)
            if o == '/':
                q = ax / ay
                return self.wrap_int(st, z3.If((x < 0) == (y < 0), q, -q), t)
            m = ax % ay
            return z3.If(x < 0, -m, m)
        if o in ('<<', '>>') and is_const_int(y):
            n = y.as_long()
            if o == '<<':
                return self.wrap_int(st, simp_int(x * (2 ** n)), t)
            return x / I(2 ** n) if n < 64 else I(0)
        if is_const_int(x) and is_const_int(y) and o in ('&', '|', '^', '&^'):
            a, b = x.as_long(), y.as_long()
            return I({'&': a & b, '|': a | b, '^': a ^ b, '&^': a & ~b}[o])
        if o in ('&', '|', '^', '&^') and (is_const_int(x) or is_const_int(y)):
            v, c = (y, x) if is_const_int(x) else (x, y)
            k = c.as_long()
            w, sg = self.P.intinfo(t)
            if o == '&^' and v is y:
                v = None
            if v is not None and k >= 0 and bin(k).count('1') + 0 <= 64 and (not sg or self.prove(st, v >= 0, 60)):
                if o == '&^':
                    return self.andconst(v, (2 ** w - 1) & ~k)
                a = self.andconst(v, k)
                return a if o == '&' else v + k - a if o == '|' else v + k - 2 * a
        if o in ('<<', '>>'):
            w, sg = self.P.intinfo(t)
            p = pow2(y)
            if o == '<<':
                return self.wrap_int(st, p if is_const_int(x) and x.as_long() == 1 and self.prove(st, y < w, 60) else z3.If(y < w, shl(x, y), 0), t)
            if not sg or self.prove(st, x >= 0, 60):
                return z3.If(y < w, x / p, 0)
        f = z3.Function('go_%s_%s' % ({'&': 'and', '|': 'or', '^': 'xor', '&^': 'andnot', '<<': 'shl', '>>': 'shr'}[o], self.P.under(t)['n']), IntS, IntS, IntS)
        r = f(x, y)
        self.assume_range(st, r, t)
        if o == '&':
            st.assume(z3.Implies(y >= 0, z3.And(r >= 0, r <= y)), z3.Implies(x >= 0, z3.And(r >= 0, r <= x)))
        if o == '>>':
            st.assume(z3.Implies(z3.And(x >= 0), z3.And(r >= 0, r <= x)))
        return r

    def equal(self, st, x, y, t):
        if isinstance(x, SliceV) or isinstance(y, SliceV):
            s, o = (x, y) if isinstance(x, SliceV) else (y, x)
            if isinstance(o, SliceV):
                if is_const_int(o.base) and o.base.as_long() == 0:
                    return eqb(s.base, I(0))
                if is_const_int(s.base) and s.base.as_long() == 0:
                    return eqb(o.base, I(0))
            raise Unsupported('slice comparison')
        if isinstance(x, StructV):
            es = [self.equal(st, a, b, f['t']) for a, b, f in zip(x.f, y.f, self.P.fields(x.t))]
            return z3.And(*es) if es else TRUE
        if isinstance(x, (FuncV, Loc)) or isinstance(y, (FuncV, Loc)):
            a, b = (x, y) if isinstance(x, (FuncV, Loc)) else (y, x)
            if not isinstance(b, (FuncV, Loc)) and is_const_int(b) and b.as_long() == 0:
                return FALSE
            x, y = self.enc(st, x), self.enc(st, y)
        if isinstance(x, tuple) or isinstance(y, tuple):
            x, y = self.ptr(st, x), self.ptr(st, y)
        if is_const_int(x) and is_const_int(y):
            return z3.BoolVal(x.as_long() == y.as_long())
        if x.eq(y):
            return TRUE
        if self.distinct_syn(st, x, y) and self.P.kind(t) == 'ref':
            return FALSE
        return x == y

    # ------------------------------------------------------------ driver
    def inline_call(self, st, fn, args, fv=()):
        """execute fn's body; returns outcomes with the caller frame restored"""
        F = self.P.funcs[fn]
        if len(self.callstack) > self.MAXDEPTH or self.callstack.count(fn) > 0:
            raise Unsupported('recursive or too deep inlining of ' + fn)
        self.inlined.add(fn)
        caller = st.frame
        fr = Frame(fn)
        fr.up = caller
        for p, a in zip(F['params'], args):
            fr.regs[p['n']] = a
            fr.env[p['n']] = (a, p['t'])
        for p, a in zip(F['freevars'], fv):
            fr.regs[p['n']] = a
            if p.get('pos'):
                fr.env[p['n']] = fr.regs[('pos', p['pos'])] = (('ADDR', a), p['t'])
        st.frame = fr
        self.callstack.append(fn)
        try:
            outs = self.exec_block(st, 0, None)
        finally:
            self.callstack.pop()
        for o in outs:
            o.st.frame = caller.copy() if caller else None
        return outs

    def tick(self):
        if time.time() > self.deadline:
            raise Unsupported('symbolic execution budget exceeded')

    def loops_of(self, fn):
        F = self.P.funcs[fn]
        if '_loops' in F:
            return F['_loops']
        bl = F['blocks']
        n = len(bl)
        # dominators (simple iterative)
        dom = [set(range(n)) for _ in range(n)]
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for i in range(1, n):
                ps = [p for p in bl[i]['p']]
                d = set.intersection(*[dom[p] for p in ps]) | {i} if ps else {i}
                if d != dom[i]:
                    dom[i] = d
                    ch = True
        loops = {}
        for i in range(n):
            for s in bl[i]['s']:
                if s in dom[i]:
                    body = loops.setdefault(s, {s})
                    stack = [i]
                    while stack:
                        x = stack.pop()
                        if x in body:
                            continue
                        body.add(x)
                        stack.extend(bl[x]['p'])
        F['_loops'] = loops
        order = sorted(loops, key=lambda h: (self.blockline(bl, loops[h]), h))
        F['_looporder'] = {h: i for i, h in enumerate(order)}
        return loops

    def blockline(self, bl, body):
        ls = [i['line'] for b in body for i in bl[b]['i'] if i.get('line') and i['op'] != 'Phi']
        return min(ls) if ls else 10**9

    def exec_block(self, st, bi, prev):
        """run from the start of block bi, arriving from block prev"""
        while True:
            self.tick()
            fn = st.frame.fn
            F = self.P.funcs[fn]
            loops = self.loops_of(fn)
            blk = F['blocks'][bi]
            if bi in loops:
                if bi in st.frame.cut and prev in loops[bi]:
                    self.loop_back(st, fn, bi, prev)
                    return []
                st = self.loop_enter(st, fn, bi, prev)
                if st is None:
                    return []
                start = sum(1 for i in blk['i'] if i['op'] == 'Phi')
                # skip leading phis (already assigned)
                return self.exec_from(st, bi, 0, prev, skipphi=True)
            return self.exec_from(st, bi, 0, prev)

    def do_phis(self, st, fn, bi, prev):
        blk = self.P.funcs[fn]['blocks'][bi]
        vals = []
        for ins in blk['i']:
            if ins['op'] == 'Phi':
                j = blk['p'].index(prev)
                vals.append((ins, self.val(st, ins['es'][j])))
            elif ins['op'] != 'Dbg':
                break
        return vals

    def setphi(self, st, ins, v):
        st.frame.regs[ins['r']] = v
        if ins.get('cm'):
            st.frame.env[ins['cm']] = (v, ins['t'])
        k = self.countphi(st.frame.fn, ins)
        if k is not None and z3.is_expr(v):
            st.frame.env['ix'] = (simp_int(v + k), ins['t'])     # how many times the body has run

    def countphi(self, fn, ins):
        """0 or 1 (what to add) when the phi counts the iterations of its loop"""
        if ins.get('cm') == 'rangeindex':
            return 1
        if '_cnt' not in ins:
            r = None
            cs = [e.get('c') for e in ins['es'] if 'c' in e]
            rs = [e['r'] for e in ins['es'] if 'r' in e]
            if cs == ['0'] and len(rs) == 1:
                for b in self.P.funcs[fn]['blocks']:
                    for j in b['i']:
                        if j.get('r') == rs[0] and j['op'] == 'BinOp' and j.get('tok', j.get('o')) == '+' and j['x'].get('r') == ins['r'] and j['y'].get('c') == '1':
                            r = 0
            ins['_cnt'] = r
        return ins['_cnt']

    def exec_from(self, st, bi, ii, prev, skipphi=False):
        fn = st.frame.fn
        blk = self.P.funcs[fn]['blocks'][bi]
        code = blk['i']
        if ii == 0 and not skipphi and code and code[0]['op'] == 'Phi':
            for ins, v in self.do_phis(st, fn, bi, prev):
                self.setphi(st, ins, v)
        n = len(code)
        while ii < n:
            ins = code[ii]
            op = ins['op']
            if op == 'Phi':
                ii += 1
                continue
            if op == 'Jump':
                return self.exec_block(st, blk['s'][0], bi)
            if op == 'If':
                c = self.val(st, ins['x'])
                if z3.is_true(c) or z3.is_false(c):
                    pass
                else:
                    c = z3.simplify(c, som=False) if z3.is_not(c) and z3.is_true(c.arg(0)) else c
                outs = []
                if self.feasible(st, c):
                    if self.feasible(st, z3.Not(c)):
                        st2 = st.copy()
                        st2.assume(z3.Not(c))
                        st.assume(c)
                        self.npaths += 1
                        if self.npaths > self.MAXPATH:
                            raise Unsupported('too many paths')
                        outs += self.exec_block(st, blk['s'][0], bi)
                        outs += self.exec_block(st2, blk['s'][1], bi)
                    else:
                        st.assume(c)
                        outs += self.exec_block(st, blk['s'][0], bi)
                else:
                    st.assume(z3.Not(c))
                    outs += self.exec_block(st, blk['s'][1], bi)
                return outs
            if op == 'Return':
                xs = [self.val(st, x) for x in ins['xs']]
                res = xs[0] if len(xs) == 1 else TupleV(xs)
                return [Outcome(st, res)]
            if op == 'Panic':
                if self.C is None or not self.C.may_panic:
                    self.oblige(st, 'explicit panic unreachable', 'safety', FALSE, ins.get('line'), assume=False)
                return []
            if op == 'RunDefers':
                ds = st.frame.defers
                st.frame.defers = []
                sts = [st]
                for d in reversed(ds):
                    nxt = []
                    for s in sts:
                        for o in self.call(s, d[0], d[1], d[2]):
                            nxt.append(o.st)
                    sts = nxt
                if len(sts) == 1:
                    st = sts[0]
                    ii += 1
                    continue
                outs = []
                for s in sts:
                    outs += self.exec_from(s, bi, ii + 1, prev)
                return outs
            if op == 'Call' or op == 'Select':
                if op == 'Call':
                    callee, args = self.callee(st, ins)
                    outs = self.call(st, ins, callee, args)
                else:
                    outs = self.select(st, ins)
                if len(outs) == 1:
                    st = outs[0].st
                    st.frame.regs[ins['r']] = outs[0].res
                    ii += 1
                    continue
                res = []
                for o in outs:
                    self.npaths += 1
                    if self.npaths > self.MAXPATH:
                        raise Unsupported('too many paths')
                    o.st.frame.regs[ins['r']] = o.res
                    res += self.exec_from(o.st, bi, ii + 1, prev)
                return res
            if op == 'BinOp' and ins['o'] in ('<<', '>>') and not self.cheapshift(st, ins):
                forks = self.splitshift(st, ins)
                if forks:
                    res = []
                    for s in forks:
                        self.step(s, ins)
                        res += self.exec_from(s, bi, ii + 1, prev, skipphi=True)
                    return res
            self.step(st, ins)
            ii += 1
        raise Unsupported('block without terminator')

    # ------------------------------------------------------------ bits
    def cheapshift(self, st, ins):
        y = self.val(st, ins['y'])
        return is_const_int(y) or not isinstance(y, z3.ExprRef)

    def splitshift(self, st, ins):
        """one state per possible amount of a shift of a byte (whose masks are
        then literals); other shifts stay symbolic powers of two"""
        y = self.val(st, ins['y'])
        if self.P.intinfo(ins['t'])[0] != 8:
            return None
        out = []
        for n in list(range(8)) + [8]:
            c = y == n if n < 8 else y >= 8
            if self.feasible(st, c):
                s = st.copy()
                s.assume(c)
                o = ins['y']
                if 'r' in o:
                    s.frame.regs[o['r']] = I(n)
                out.append(s)
        self.npaths += len(out)
        return out

    def andconst(self, x, c):
        """x & c for x >= 0 and a literal c >= 0, as arithmetic"""
        r, lo = [], 0
        while c >> lo:
            while not (c >> lo) & 1:
                lo += 1
            hi = lo
            while (c >> hi) & 1:
                hi += 1
            v = x / I(2 ** lo) if lo else x
            r.append((v % I(2 ** (hi - lo))) * I(2 ** lo))
            lo = hi
        return z3.Sum(*r) if len(r) > 1 else r[0] if r else I(0)

    # ------------------------------------------------------------ instructions
    def step(self, st, ins):
        op = ins['op']
        R = st.frame.regs
        line = ins.get('line')
        if op == 'Dbg':
            o = ins['x']
            if 'r' in o and o['r'] not in R:
                return
            home = R.get(('pos', ins.get('pos')))
            if home is not None:
                st.frame.env[ins['name']] = home     # the variable lives in memory: keep its address, not a value read from it
                return
            v = self.val(st, o)
            st.frame.env[ins['name']] = (v, o['t']) if not ins.get('addr') else (('ADDR', v), o['t'])
            return
        if op == 'BinOp':
            R[ins['r']] = self.binop(st, ins)
            return
        if op == 'UnOp':
            o = ins['o']
            if o == '*':
                p = self.val(st, ins['x'])
                if isinstance(p, tuple) and p[0] == 'G':
                    R[ins['r']] = self.gload(st, p[1], ins['t'])
                    return
                self.nilcheck(st, p, line)
                R[ins['r']] = self.deref(st, p, ins['t'])
                return
            x = self.val(st, ins['x'])
            if o == '!':
                R[ins['r']] = z3.Not(x) if not (z3.is_true(x) or z3.is_false(x)) else z3.BoolVal(z3.is_false(x))
                return
            if o == '-':
                R[ins['r']] = self.wrap_int(st, simp_int(-x), ins['t']) if self.P.kind(ins['t']) == 'int' else x
                return
            if o == '^':
                R[ins['r']] = self.wrap_int(st, simp_int(-x - 1), ins['t'])
                return
            if o == '<-' and RECV:
                R[ins['r']] = RECV[-1](self, st, x, ins)
                return
            raise Unsupported('unary ' + o)
        if op == 'Alloc':
            t = self.P.elem(ins['t'])
            R[ins['r']] = self.alloc(st, t, ins.get('cm') or 'obj')
            cm = ins.get('cm') or ''
            if cm.isidentifier() and cm not in ('complit', 'new', 'slicelit', 'varargs', 'makeslice', 'rangeindex'):
                st.frame.env[cm] = R[('pos', ins.get('pos'))] = (('ADDR', R[ins['r']]), ins['t'])     # a variable that lives in the heap
            return
        if op == 'FieldAddr':
            p = self.ptr(st, self.val(st, ins['x']))
            T = self.P.elem(ins['x']['t'])
            if isinstance(p, Loc):
                raise Unsupported('field of Loc')
            if p.get_id() in self.locenc:
                raise Unsupported('field of encoded Loc')
            self.nilcheck(st, p, line)
            f = self.P.fields(T)[ins['i']]
            k = self.P.kind(f['t'])
            if k in ('struct', 'array'):
                R[ins['r']] = self.subref(T, ins['i'], p)
            else:
                key, ft = self.fkey(T, ins['i'])
                R[ins['r']] = Loc('field', p, key, ft)
            return
        if op == 'Field':
            v = self.val(st, ins['x'])
            R[ins['r']] = v.f[ins['i']]
            return
        if op == 'Store':
            p = self.val(st, ins['a'])
            t = self.P.elem(ins['a']['t'])
            v = self.val(st, ins['v'])
            if isinstance(v, tuple) and v[0] == 'G':
                v = self.gref(v[1])
            p = self.ptr(st, p)
            self.nilcheck(st, p, line)
            self.assign(st, p, t, v)
            return
        if op == 'Extract':
            R[ins['r']] = self.val(st, ins['x']).es[ins['i']]
            return
        if op in ('ChangeType', 'ChangeInterface'):
            v = self.val(st, ins['x'])
            if isinstance(v, SliceV):
                v = SliceV(v.base, v.off, v.len, v.cap, self.P.elem(ins['t']))
            elif isinstance(v, StructV):
                v = StructV(ins['t'], v.f)
            R[ins['r']] = v
            return
        if op == 'MakeInterface':
            R[ins['r']] = self.mkiface(st, self.val(st, ins['x']), ins['x']['t'])
            return
        if op == 'TypeAssert':
            R[ins['r']] = self.typeassert(st, ins)
            return
        if op == 'Convert':
            R[ins['r']] = self.convert(st, self.val(st, ins['x']), ins['x']['t'], ins['t'])
            return
        if op == 'Slice':
            R[ins['r']] = self.slice(st, ins)
            return
        if op == 'IndexAddr':
            x = self.val(st, ins['x'])
            i = self.val(st, ins['y'])
            et = self.P.elem(ins['t'])
            if isinstance(x, SliceV):
                self.oblige(st, 'index in range', 'safety', z3.And(i >= 0, i < x.len), line)
                base, j = x.base, (i if is_const_int(x.off) and x.off.as_long() == 0 else simp_int(x.off + i))
            else:
                x = self.ptr(st, x)
                self.nilcheck(st, x, line)
                n = self.P.under(self.P.elem(ins['x']['t']))['len']
                self.oblige(st, 'index in range', 'safety', z3.And(i >= 0, i < n), line)
                base, j = x, i
            if self.P.kind(et) == 'struct':
                raise Unsupported('slice of structs')
            R[ins['r']] = Loc('elem', base, self.ekey(et), et, j)
            return
        if op == 'Index':
            x = self.val(st, ins['x'])
            i = self.val(st, ins['y'])
            if z3.is_expr(x) and x.sort() == BYTES:
                self.oblige(st, 'index in range', 'safety', z3.And(i >= 0, i < z3.Length(x)), line)
                v = x[i]
                st.assume(v >= 0, v < 256)
                R[ins['r']] = v
                return
            raise Unsupported('Index')
        if op == 'Lookup':
            x = self.val(st, ins['x'])
            if z3.is_expr(x) and x.sort() == BYTES:
                i = self.val(st, ins['y'])
                self.oblige(st, 'index in range', 'safety', z3.And(i >= 0, i < z3.Length(x)), line)
                v = x[i]
                st.assume(v >= 0, v < 256)
                R[ins['r']] = v
                return
            raise Unsupported('map lookup')
        if op == 'MakeSlice':
            R[ins['r']] = self.makeslice(st, self.val(st, ins['len']), self.val(st, ins['cap']), self.P.elem(ins['t']), line)
            return
        if op == 'MakeClosure':
            R[ins['r']] = FuncV(ins['fn'], [self.val(st, b) for b in ins['bind']])
            return
        if op == 'Defer':
            callee, args = self.callee(st, ins)
            st.frame.defers.append((ins, callee, args))
            return
        if op == 'MakeChan':
            r = self.new_ref(st, 'chan')
            CHAN['make'](self, st, r)
            R[ins['r']] = r
            return
        if op == 'Send':
            ch = self.val(st, ins['x'])
            self.oblige(st, 'send to a nil channel', 'safety', ch != 0, line)
            CHAN['send'](self, st, ch, self.val(st, ins['v']), self.P.elem(ins['x']['t']), line)
            return
        if op == 'Go':
            callee, args = self.callee(st, ins)
            c = CONTRACTS.get(callee.fn) if isinstance(callee, FuncV) else None
            if c is None:
                raise Unsupported('goroutine without a contract')
            self.used_contracts.add(c.fn)
            env = self.cenv(c, c.fn, args, callee.bind)
            for cl in c.requires:
                self.oblige(st, 'precondition %s of %s' % (cl.label, short(c.fn)), 'pre', self.evalc(cl, env, st), line)
            for k, r in self.eval_mods(c.modifies, env, st):
                if k == '*':
                    self.havoc_everything(st)
                elif not (k.startswith('G:') and r is None):
                    self.havoc_at(st, k, r)
            if c.fn in GOHOOK:
                GOHOOK[c.fn](self, st, env)
            return
        raise Unsupported('instruction %s at line %s' % (op, line))

    def select(self, st, ins):
        """one outcome for every case that may be ready"""
        outs = []
        ts = self.P.under(ins['t'])['es']
        states = ins['states']
        rp = {}
        for i, c in enumerate(states):
            if c['dir'] == 2:
                rp[i] = 2 + len(rp)
        if ins['blocking']:
            self.oblige(st, 'waits on nil channels only', 'safety', z3.Or(*[self.val(st, c['chan']) != 0 for c in states]), ins.get('line'))
        for i, c in enumerate(states):
            s = st.copy()
            ch = self.val(s, c['chan'])
            s.assume(ch != 0)          # a nil channel is never ready
            if not self.feasible(s, TRUE):
                continue
            zs = [I(i), FALSE] + [self.zero(t) for t in ts[2:]]
            if c['dir'] == 1:
                CHAN['send'](self, s, ch, self.val(s, c['send']), self.P.elem(c['chan']['t']), ins.get('line'))
                outs.append(Outcome(s, TupleV(zs)))
            else:
                for s2, v, ok in CHAN['recv'](self, s, ch, ts[rp[i]]):
                    z = list(zs)
                    z[1], z[rp[i]] = ok, v
                    outs.append(Outcome(s2, TupleV(z)))
        if not ins['blocking']:
            outs.append(Outcome(st.copy(), TupleV([I(-1), FALSE] + [self.zero(t) for t in ts[2:]])))
        return outs

    def alloc(self, st, t, hint='obj'):
        r = self.new_ref(st, hint)
        self.zero_at(st, r, t)
        return r

    def zero_at(self, st, r, t):
        if t in ALLOCHOOKS:
            ALLOCHOOKS[t](self, st, r)
            return
        k = self.P.kind(t)
        if k == 'struct':
            for i, f in enumerate(self.P.fields(t)):
                fk = self.P.kind(f['t'])
                if fk in ('struct', 'array'):
                    self.zero_at(st, self.subref(t, i, r), f['t'])
                else:
                    key, ft = self.fkey(t, i)
                    self.store_key(st, key, r, ft, self.zero(ft))
        elif k == 'array':
            for h in APPENDHOOKS:
                h(self, st, r, self.P.under(t)['e'])
            et = self.P.elem(t)
            if self.isbyte(et):
                n = self.P.under(t)['len']
                c = z3.Const(fresh_name('zeros'), BYTES)
                st.assume(c == self.zeros(n))
                self.wr(st, self.ekey(et), r, c)
            elif self.P.kind(et) != 'struct':
                kk = self.ekey(et)
                so = KEYSORT[kk].range()
                self.wr(st, kk, r, z3.K(IntS, {IntS: I(0), BoolS: FALSE, BYTES: EMPTY}[so]))
            else:
                raise Unsupported('array of structs')
        else:
            self.store_key(st, 'C:' + t, r, t, self.zero(t))

    def zeros(self, n):
        n = I(n) if isinstance(n, int) else n
        return zeros_f(n)

    def makeslice(self, st, ln, cp, et, line=None):
        self.oblige(st, 'makeslice bounds', 'safety', z3.And(ln >= 0, ln <= cp), line)
        r = self.new_ref(st, 'mk')
        if self.isbyte(et):
            st.assume(cp <= MAXLEN)
            self.wr(st, self.ekey(et), r, self.zeros(cp), check=False)
        else:
            st.assume(cp <= MAXLEN)
            kk = self.ekey(et)
            so = KEYSORT[kk].range()
            self.wr(st, kk, r, z3.K(IntS, {IntS: I(0), BoolS: FALSE, BYTES: EMPTY}[so]), check=False)
            for h in MAKEHOOKS:
                h(self, st, r, et)
        return SliceV(r, I(0), ln, cp, et)

    def mkiface(self, st, v, t):
        k = self.P.kind(t)
        v = self.ptr(st, v) if isinstance(v, tuple) else v
        if isinstance(v, (FuncV, Loc)):
            v = self.enc(st, v)
        if k == 'ref' and self.P.under(t)['k'] == 'ptr':
            if is_const_int(v) and v.as_long() == 0:
                return I(-self.P.dynid(t) * 64 - 63)
            if not (st.info.get(v.get_id()) or ('',))[0] == 'fresh' and not self.prove(st, v != 0, 60):
                v2 = z3.Int(fresh_name('ifc'))
                st.assume(v2 == z3.If(v == 0, I(-self.P.dynid(t) * 64 - 63), v))
                v = v2
            st.assume(dyn(v) == self.P.dynid(t))
            for h in BOXHOOKS.get(t, ()):
                h(self, st, v)
            return v
        if k in ('ref',) and self.P.under(t)['k'] == 'iface':
            return v
        if k == 'struct':
            r = self.new_ref(st, 'box')
            self.store_struct(st, r, t, v)
            st.assume(dyn(r) == self.P.dynid(t))
            return r
        if k == 'slice':
            r = self.new_ref(st, 'box')
            st.assume(dyn(r) == self.P.dynid(t))
            self.store_key(st, 'C:' + t, r, t, v)
            return r
        so = {'int': IntS, 'bool': BoolS, 'string': BYTES, 'cid': IntS, 'float': IntS, 'ref': IntS}[k]
        f = z3.Function('box:' + t, so, IntS)
        g = z3.Function('unbox:' + t, IntS, so)
        r = f(v)
        st.assume(dyn(r) == self.P.dynid(t), r > 0, g(r) == v, r <= st.alloc)
        return r

    def typeassert(self, st, ins):
        x = self.val(st, ins['x'])
        t = ins['at']
        if self.P.kind(t) == 'ref' and self.P.under(t)['k'] == 'iface':
            f = z3.Function('impl:' + t, IntS, BoolS)
            ok = z3.And(x != 0, f(dyn(x)))
            v = x
            if ins.get('ok'):
                return TupleV([z3.If(ok, x, I(0)), ok])
            self.oblige(st, 'type assertion', 'safety', ok, ins.get('line'))
            return x
        ok = z3.And(x != 0, dyn(x) == self.P.dynid(t))
        k = self.P.kind(t)
        for h in TAHOOKS.get(t, ()):
            h(self, st, x)
        if k == 'ref':
            if ins.get('ok'):
                if self.prove(st, ok, 60):
                    return TupleV([x, TRUE])
                if self.prove(st, z3.Not(ok), 60):
                    return TupleV([I(0), FALSE])
                r = z3.If(ok, x, I(0))
                return TupleV([r, ok])
            self.oblige(st, 'type assertion', 'safety', ok, ins.get('line'))
            return x
        if k == 'struct':
            v = self.load_struct(st, x, t)
        elif k == 'slice':
            v = self.load_key(st, 'C:' + t, x, t)
        else:
            so = {'int': IntS, 'bool': BoolS, 'string': BYTES, 'cid': IntS, 'float': IntS}[k]
            v = z3.Function('unbox:' + t, IntS, so)(x)
        if ins.get('ok'):
            return TupleV([v, ok])
        self.oblige(st, 'type assertion', 'safety', ok, ins.get('line'))
        return v

    def convert(self, st, v, ft, tt):
        fk, tk = self.P.kind(ft), self.P.kind(tt)
        if fk == 'int' and tk == 'int':
            return self.wrap_int(st, v, tt)
        if fk == 'string' and tk == 'slice':
            return self.new_bytes(st, v, 'conv')
        if fk == 'slice' and tk == 'string':
            return self.bytes_of(st, v)
        if fk == 'string' and tk == 'string':
            return v
        if fk == 'int' and tk == 'float':
            return z3.Function('i2f', IntS, IntS)(v)
        if fk == 'float' and tk == 'int':
            r = z3.Function('f2i_' + tt, IntS, IntS)(v)
            self.assume_range(st, r, tt)
            return r
        if fk == 'float' and tk == 'float':
            return v
        if fk == 'int' and tk == 'string':
            return z3.Function('rune2str', IntS, BYTES)(v)
        raise Unsupported('convert %s -> %s' % (ft, tt))

    def slice(self, st, ins):
        x = self.val(st, ins['x'])
        lo = self.val(st, ins['lo']) if ins.get('lo') else I(0)
        line = ins.get('line')
        if z3.is_expr(x) and x.sort() == BYTES:
            hi = self.val(st, ins['hi']) if ins.get('hi') else z3.Length(x)
            self.oblige(st, 'slice bounds', 'safety', z3.And(lo >= 0, lo <= hi, hi <= z3.Length(x)), line)
            return z3.Extract(x, lo, simp_int(hi - lo))
        if isinstance(x, SliceV):
            hi = self.val(st, ins['hi']) if ins.get('hi') else x.len
            mx = self.val(st, ins['max']) if ins.get('max') else x.cap
            self.oblige(st, 'slice bounds', 'safety', z3.And(lo >= 0, lo <= hi, hi <= mx, mx <= x.cap), line)
            z = is_const_int(lo) and lo.as_long() == 0
            # nil slices stay nil
            return SliceV(x.base, x.off if z else simp_int(x.off + lo), hi if z else simp_int(hi - lo), mx if z else simp_int(mx - lo), x.et)
        # pointer to array
        x = self.ptr(st, x)
        at = self.P.elem(ins['x']['t'])
        n = I(self.P.under(at)['len'])
        hi = self.val(st, ins['hi']) if ins.get('hi') else n
        self.oblige(st, 'slice bounds', 'safety', z3.And(lo >= 0, lo <= hi, hi <= n), line)
        return SliceV(x, lo, simp_int(hi - lo), simp_int(n - lo), self.P.elem(at))

    # ------------------------------------------------------------ calls
    def callee(self, st, ins):
        args = [self.val(st, a) for a in ins['args']]
        args = [self.ptr(st, a) if isinstance(a, tuple) and a[0] == 'G' else a for a in args]
        if 'recv' in ins:
            return ('I', self.val(st, ins['recv']), ins['methodfull'], ins['method'], ins['recv']['t']), args
        return self.val(st, ins['fn']), args

    def rettype(self, ins):
        return ins.get('t')

    def call(self, st, ins, callee, args):
        self.tick()
        line = ins.get('line')
        if isinstance(callee, tuple) and callee[0] == 'B':
            return [Outcome(st, self.builtin(st, callee[1], args, ins))]
        if isinstance(callee, tuple) and callee[0] == 'G':
            callee = self.gload(st, callee[1], callee[2])
        if isinstance(callee, tuple) and callee[0] == 'I':
            return self.invoke(st, ins, callee, args)
        if isinstance(callee, FuncV):
            return self.call_fn(st, ins, callee.fn, args, callee.bind)
        # dynamic function value
        if z3.is_expr(callee):
            if callee.get_id() in self.funcenc:
                fv = self.funcenc[callee.get_id()][0]
                return self.call_fn(st, ins, fv.fn, args, fv.bind)
            if ins.get('sig') in FUNCVAR:
                st.assume(callee != 0)     # set by an init function
            else:
                self.oblige(st, 'call of nil function', 'safety', callee != 0, line)
            h = self.dyncall_model(st, ins, callee, args)
            if h is not None:
                return h
            return self.unknown_call(st, ins, 'dynamic call (%s)' % ins.get('sig'), args)
        raise Unsupported('call target')

    def dyncall_model(self, st, ins, callee, args):
        if self.C is not None:
            for pat, f in self.C.cb:
                if pat in ins.get('sig', ''):
                    return [Outcome(*o) for o in f(self, st, ins, callee, args)]
        f = FUNCVAR.get(ins.get('sig')) or FUNCSIG.get(ins.get('sig'))
        if f:
            return [Outcome(*o) for o in f(self, st, ins, callee, args)]
        return None

    def pkg(self, fn):
        return fn.lstrip('(*').rsplit('/', 1)[1].split('.')[0]

    def call_fn(self, st, ins, fn, args, bind=()):
        c = CONTRACTS.get(fn)
        if self.C is not None and fn in self.C.inl:
            return self.inline_call(st, fn, args, bind)
        if c is not None and not c.inline and not (fn in NOTHOME and fn in MODELS and self.pkg(self.fn) != self.pkg(fn)) and not (self.opts.get('nocontract') and fn in self.opts['nocontract']):
            return self.apply(st, ins, c, args, bind)
        if fn in MODELS and not (fn in NOTHOME and self.pkg(self.fn) == self.pkg(fn)):
            self.used_models[fn] = self.used_models.get(fn, 0) + 1
            for h in CALLHOOKS:
                h(self, st, fn)
            return [Outcome(*o) for o in MODELS[fn](self, st, args, ins)]
        if fn in self.P.funcs:
            return self.inline_call(st, fn, args, bind)
        return self.unknown_call(st, ins, fn, args)

    def invoke(self, st, ins, callee, args):
        _, recv, full, name, rt = callee
        self.nilcheck(st, recv, ins.get('line'), 'method call on nil interface')
        if full in MODELS:
            self.used_models[full] = self.used_models.get(full, 0) + 1
            for h in CALLHOOKS:
                h(self, st, full)
            return [Outcome(*o) for o in MODELS[full](self, st, [recv] + args, ins)]
        # dispatch over concrete types of the repository
        cands = []
        for t, ms in self.P.methods.items():
            if name in ms and self.implements(t, rt):
                cands.append((t, ms[name]))
        for t, m in cands:
            if self.prove(st, dyn(recv) == self.P.dynid(t), 60):
                return self.call_method(st, ins, t, m, recv, args)
        if full in IFACE_IMPL:
            self.used_models[full] = self.used_models.get(full, 0) + 1
            return [Outcome(*o) for o in IFACE_IMPL[full](self, st, [recv] + args, ins)]
        if 1 < len(cands) <= 4 and self.prove(st, z3.Or(*[dyn(recv) == self.P.dynid(t) for t, m in cands]), 60):
            out = []
            for t, m in cands:
                s2 = st.copy()
                s2.assume(dyn(recv) == self.P.dynid(t))
                if not self.prove(st, dyn(recv) != self.P.dynid(t), 1000):
                    out += self.call_method(s2, ins, t, m, recv, args)
            return out
        return self.unknown_call(st, ins, 'interface ' + full, args)

    def call_method(self, st, ins, t, m, recv, args):
        if self.P.under(t)['k'] != 'ptr':
            k = self.P.kind(t)
            if k == 'struct':
                recv = self.load_struct(st, recv, t)
        return self.call_fn(st, ins, m, [recv] + args)

    def implements(self, t, it):
        ud = self.P.under(it)
        ms = self.P.methods.get(t, {})
        return all(m in ms for m in ud.get('m', []))

    def unknown_call(self, st, ins, fn, args):
        self.unknown[fn] = self.unknown.get(fn, 0) + 1
        self.bump_alloc(st)
        for h in CALLHOOKS:
            h(self, st, None)
        t = ins.get('t')
        if t is None or (self.P.types.get(t, {}).get('k') == 'tuple' and not self.P.types[t]['es']):
            return [Outcome(st, TupleV([]))]
        return [Outcome(st, self.fresh_val(st, t, 'ext'))]

    def result_of(self, st, ins, hint='ret'):
        t = ins.get('t')
        if t is None:
            return TupleV([])
        return self.fresh_val(st, t, hint)

    # ------------------------------------------------------------ builtins
    def builtin(self, st, b, args, ins):
        if b == 'len':
            x = args[0]
            if isinstance(x, SliceV):
                return x.len
            if x.sort() == BYTES:
                return z3.Length(x)
            raise Unsupported('len of map/chan')
        if b == 'cap':
            return args[0].cap
        if b == 'append':
            return self.append(st, args[0], args[1], ins)
        if b == 'copy':
            return self.copy(st, args[0], args[1], ins)
        if b in ('print', 'println'):
            return TupleV([])
        if b in ('min', 'max'):
            a = args[0]
            for c in args[1:]:
                a = z3.If(a < c, a, c) if b == 'min' else z3.If(a > c, a, c)
            return a
        if b.startswith('ssa:wrapnilchk'):
            self.nilcheck(st, args[0], ins.get('line'))
            return args[0]
        if b == 'close':
            CHAN['close'](self, st, args[0], ins.get('line'))
            return TupleV([])
        if b == 'recover':
            return I(0)
        raise Unsupported('builtin ' + b)

    def append(self, st, s, y, ins):
        if not isinstance(y, SliceV):     # append([]byte, string...)
            yb = y
            ylen = z3.Length(y)
        else:
            ylen = y.len
            yb = None
        if is_const_int(ylen) and ylen.as_long() == 0:
            return s
        et = s.et
        fits = s.len + ylen <= s.cap
        nb = self.new_ref(st, 'app')
        for h in APPENDHOOKS:
            h(self, st, nb, et)
        if is_const_int(s.cap) and s.cap.as_long() == 0:
            base = nb
            isfit = False
        elif self.prove(st, z3.Not(fits), 60):
            base = nb
            isfit = False
        elif self.prove(st, fits, 60):
            base = s.base
            isfit = True
        else:
            base = z3.Int(fresh_name('apb'))
            st.assume(base == z3.If(fits, s.base, nb))
            st.info[base.get_id()] = ('mix', st.serial, base)
            isfit = None
        nl = simp_int(s.len + ylen)
        cap = z3.Int(fresh_name('cap'))
        st.assume(cap >= nl, nl <= MAXLEN, cap <= MAXLEN)
        if isfit is True:
            cap = s.cap
        elif isfit is None:
            st.assume(z3.Implies(fits, cap == s.cap))
        off0 = is_const_int(s.off) and s.off.as_long() == 0 or self.prove(st, s.off == 0, 60)
        if isfit is False:
            off = I(0)
        elif off0:
            off = I(0)
        else:
            off = s.off if isfit else z3.If(fits, s.off, I(0))
        if self.isbyte(et):
            arr = self.rd(st, 'E:byte', s.base)
            pre = self.bytes_of(st, s)
            src = yb if yb is not None else self.bytes_of(st, y)
            tail = z3.Const(fresh_name('tail'), BYTES)
            if off0 or isfit is False:
                new = self.seqcat(pre, src, tail)
            else:
                new = self.seqcat(z3.Extract(arr, I(0), off), pre, src, tail)
            st.assume(z3.Length(new) >= off + cap)
            self.wr(st, 'E:byte', base, new, check=isfit is not False)
            return SliceV(base, off, nl, cap, et)
        if self.P.kind(et) == 'struct':
            raise Unsupported('append of structs')
        key = self.ekey(et)
        arr = self.rd(st, key, s.base)
        if isinstance(y, SliceV) and is_const_int(y.len) and y.len.as_long() <= 4:
            es = [self.load_elem(st, y, I(j)) for j in range(y.len.as_long())]
            es = [self.enc(st, e) for e in es]
            if off0 or isfit is True:
                na = arr
                for j, e in enumerate(es):
                    na = z3.Store(na, simp_int((I(0) if off0 else s.off) + s.len + j), e)
            else:
                sh = self.copyarr(st, arr, I(0), arr, s.off, s.len)   # shifted to offset 0
                if isfit is None:
                    raise Unsupported('append to slice with offset')
                na = sh
                for j, e in enumerate(es):
                    na = z3.Store(na, simp_int(s.len + j), e)
        else:
            ya = self.rd(st, key, y.base)
            if off0:
                na = self.copyarr(st, arr, s.len, ya, y.off, y.len)
            elif isfit is True:
                na = self.copyarr(st, arr, simp_int(s.off + s.len), ya, y.off, y.len)
            else:
                raise Unsupported('append to slice with offset')
        # in-place writes must be allowed by the frame; the fresh case is always allowed
        self.wr(st, key, base, na, check=isfit is not False)
        return SliceV(base, off, nl, cap, et)

    def seqcat(self, *xs):
        xs = [x for x in xs if not x.eq(EMPTY)]
        if not xs:
            return EMPTY
        return xs[0] if len(xs) == 1 else z3.Concat(*xs)

    def copyarr(self, st, dst, di, src, si, n):
        a = z3.Const(fresh_name('cpy'), dst.sort())
        COPIES[a.decl().name()] = (dst, di, src, si, n)
        return a

    def copy(self, st, d, s, ins):
        if not isinstance(s, SliceV):
            sl = z3.Length(s)
        else:
            sl = s.len
        n = z3.Int(fresh_name('ncp'))
        st.assume(n == z3.If(d.len < sl, d.len, sl))
        if self.isbyte(d.et):
            src = s if not isinstance(s, SliceV) else self.bytes_of(st, s)
            arr = self.rd(st, 'E:byte', d.base)
            z0 = is_const_int(d.off) and d.off.as_long() == 0
            pre = EMPTY if z0 else z3.Extract(arr, I(0), d.off)
            st.assume(z3.Implies(n > 0, d.base != 0))
            new = self.seqcat(pre, z3.Extract(src, I(0), n), z3.Extract(arr, simp_int(d.off + n), z3.Length(arr) - simp_int(d.off + n)))
            self.wr(st, 'E:byte', d.base, new)
            return n
        key = self.ekey(d.et)
        na = self.copyarr(st, self.rd(st, key, d.base), d.off, self.rd(st, key, s.base), s.off, n)
        self.wr(st, key, d.base, na)
        return n

    # ------------------------------------------------------------ contracts
    def cenv(self, c, fn, args, bind=()):
        F = self.P.funcs.get(fn)
        env = {}
        if F:
            ps = [(p['n'], p['t']) for p in F['params']]
        else:
            ps = c.sig
        names = c.params or [p[0] for p in ps]
        for i, ((n, t), a) in enumerate(zip(ps, args)):
            w = self.wrap(a, t)
            env[n] = w
            if i < len(names):
                env[names[i]] = w
        if F and bind:
            for p, a in zip(F['freevars'], bind):
                env[p['n']] = self.wrap(a, p['t'])
        return env

    def resenv(self, c, fn, env, res, rts):
        names = c.returns
        if not names:
            F = self.P.funcs.get(fn)
            names = [n for n in (F['resnames'] if F else [])]
        e = dict(env)
        if len(rts) == 1:
            vs = [res]
        else:
            vs = res.es if isinstance(res, TupleV) else []
        for i, (v, t) in enumerate(zip(vs, rts)):
            w = self.wrap(v, t)
            e['r%d' % i] = w
            if i < len(names) and names[i]:
                e[names[i]] = w
        if rts:
            e['result'] = e['r0']
        return e

    def apply(self, st, ins, c, args, bind=()):
        self.used_contracts.add(c.fn)
        F = self.P.funcs.get(c.fn)
        rts = F['results'] if F else c.rts
        env = self.cenv(c, c.fn, args, bind)
        if c.pre is not None:
            c.pre(self, st, env)
        for cl in c.requires:
            if cl.label.startswith('@'):      # an instance of another precondition, for the proof of the body
                continue
            g = self.evalc(cl, env, st)
            self.oblige(st, 'precondition %s of %s' % (cl.label, short(c.fn)), 'pre', g, ins.get('line'))
        if c.rank is not None and self.C is not None and self.C.rank is not None and c.group == self.C.group:
            g = self.evalc(c.rank, env, st)
            self.oblige(st, 'recursion measure of %s decreases' % short(c.fn), 'term', z3.And(self.rank0 >= 0, g < self.rank0), ins.get('line'), assume=False)
        old = st.copy()
        mods = self.eval_mods(c.modifies, env, st)
        self.bump_alloc(st)
        for h in CALLHOOKS:
            h(self, st, None)
        seen = set()
        for k, r in mods:
            if k == '*':
                self.havoc_everything(st)
                continue
            if k.startswith('G:') and r is None:
                continue
            if callable(r):
                self.havoc_region(st, k, r, old.alloc)
                continue
            sk = (k, r.get_id())
            if sk in seen:
                continue
            seen.add(sk)
            self.havoc_at(st, k, r)
            for h in HAVOCHOOKS:
                h(self, st, k, r)
        if len(rts) == 0:
            res = TupleV([])
        elif len(rts) == 1:
            res = self.fresh_val(st, rts[0], 'res')
        else:
            res = TupleV([self.fresh_val(st, t, 'res') for t in rts])
        e2 = self.resenv(c, c.fn, env, res, rts)
        # fork on the error result so that consequents stay small
        self.assuming = True
        try:
            if c.alias:
                v = self.evalc(c.alias_term, env, st, old)
                v = v.v if isinstance(v, W) else v
                if len(rts) == 1:
                    res = v
                else:
                    res = TupleV([v] + res.es[1:])
                e2 = self.resenv(c, c.fn, env, res, rts)
            for cl in c.ensures:
                if cl is c.alias:
                    continue
                g = self.evalc(cl, e2, st, old)
                st.assume(g)
                for x in ARB:      # what holds for an arbitrary name holds for the caller's
                    if any(t.eq(x) for t in subterms([g])):
                        for w in self.argenv.values():
                            if z3.is_expr(w) and w.sort() == BYTES:
                                st.assume(z3.substitute(g, (x, w)))
        finally:
            self.assuming = False
        return [Outcome(st, res)]

    def havoc_region(self, st, k, pred, alloc):
        if self.modset is not None and not self.suppress:
            s2, R = st.copy(), z3.Int(fresh_name('any'))
            s2.assume(R <= alloc, pred(R))
            self.check_frame(s2, k, R)
        if k.startswith('F:'):
            self.regkey(k, self.keytype(k))
        for kk in self.fullkeys(k):
            old = self.harr(st, kk)
            a = z3.Array(fresh_name(kk + '@R'), IntS, self.sortof(kk))
            self.predarr[a.decl().name()] = (old, pred, alloc)
            st.heap[kk] = a
            st.info[('arr', a.get_id())] = st.serial
        st.log.append((k, z3.Int(fresh_name('any'))))

    def havoc_everything(self, st):
        st.epoch = next(core._ctr)
        st.epochA[st.epoch] = st.serial
        st.heap = {}
        st.log.append(('*', None))

    # ------------------------------------------------------------ loops
    def loopspec(self, fn, h):
        c = CONTRACTS.get(fn)
        if self.C is not None and fn in self.C.inl:
            i = self.P.funcs[fn]['_looporder'][h]
            ls = self.C.inl[fn]
            return ls[i] if i < len(ls) else None
        if c is None:
            return None
        i = self.P.funcs[fn]['_looporder'][h]
        if i < len(c.loops):
            return c.loops[i]
        return None

    def loopenv(self, st, fn):
        """names visible to a loop invariant"""
        F = self.P.funcs[fn]
        c = CONTRACTS.get(fn)
        env = {}
        frames = [st.frame]
        while frames[-1].up is not None:
            frames.append(frames[-1].up)
        for n, (v, t) in [x for f in reversed(frames) for x in f.env.items()]:     # names of the callers too
            if isinstance(v, tuple) and v[0] == 'ADDR':
                p = v[1]
                et = t
                try:
                    ud = self.P.under(t)
                    et = ud['e'] if ud['k'] == 'ptr' else t
                    p = self.ptr(st, p)
                    if self.P.kind(et) == 'struct':
                        env[n] = W(self, p, et)
                    else:
                        env[n] = self.wrap(self.deref(st, p, et), et)
                except Unsupported:
                    pass
                continue
            if isinstance(v, (FuncV, Loc, TupleV, tuple)):
                continue
            env[n] = self.wrap(v, t)
        if self.fn != fn:        # the parameters of the function under verification
            for n, w in self.argenv.items():
                env['arg_' + n] = w
        for i, p in enumerate(F['params']):
            a = st.frame.regs.get(p['n'])
            nm = c.params[i] if c and i < len(c.params) else None
            if not isinstance(a, (FuncV, Loc, TupleV, tuple)):
                env['in_' + (nm or p['n'])] = self.wrap(a, p['t'])
            if nm and nm != p['n']:
                cur = env.get(p['n'])
                env[nm] = cur if cur is not None else self.wrap(a, p['t'])
        return env

    def inv_eval(self, cl, st, fn, strict=True):
        env = self.loopenv(st, fn)
        lo = self.P.funcs[fn]['_looporder']
        self.heads = {lo[h]: c['snap'] for h, c in st.frame.cut.items() if c and c.get('snap') is not None}
        return self.evalc(cl, env, st, self.entryst if self.fn == fn else None)

    def loop_enter(self, st, fn, h, prev):
        F = self.P.funcs[fn]
        spec = self.loopspec(fn, h)
        li = F['_looporder'][h]
        phis = self.do_phis(st, fn, h, prev)
        line = self.blockline(F['blocks'], self.loops_of(fn)[h])
        for ins, v in phis:
            self.setphi(st, ins, v)
        nm = 'loop %d of %s' % (li, short(fn))
        if spec:
            for cl in spec.inv:
                g = self.inv_eval(cl, st, fn)
                self.oblige(st, '%s: invariant %s on entry' % (nm, cl.label), 'inv', g, line)
        # candidate invariants (Houdini) for integer phis
        cands = []
        entryvals = {ins['r']: v for ins, v in phis}
        for ins, v in phis:
            if self.P.kind(ins['t']) == 'int':
                cands.append((ins['r'], 'ge', v))
                cands.append((ins['r'], 'le', v))
        hd = F['blocks'][h]['i']
        for x in hd:
            if x['op'] == 'BinOp' and x['o'] in ('<', '<=', '>', '>=', '!=') and 'r' in x['x'] and x['x']['r'] in entryvals:
                y = x['y']
                if ('c' in y and y['c'] is not None) or ('r' in y and y['r'] in st.frame.regs):
                    b = self.val(st, y)
                    if not z3.is_expr(b) or b.sort() != IntS:
                        continue
                    if x['o'] in ('<', '!='):
                        if self.prove(st, entryvals[x['x']['r']] <= b, 60):
                            cands.append((x['x']['r'], 'le', b))
                    elif x['o'] == '<=':
                        if self.prove(st, entryvals[x['x']['r']] <= b + 1, 60):
                            cands.append((x['x']['r'], 'le', b + 1))
                    elif x['o'] in ('>', ):
                        if self.prove(st, entryvals[x['x']['r']] >= b, 60):
                            cands.append((x['x']['r'], 'ge', b))
        # range loops test i+1 < len: i is bounded by len-1
        adds = {x['r']: x for x in hd if x['op'] == 'BinOp' and x['o'] == '+'}
        for x in hd:
            if x['op'] == 'BinOp' and x['o'] == '<' and x['x'].get('r') in adds:
                a = adds[x['x']['r']]
                if a['x'].get('r') in entryvals and 'c' in a['y']:
                    y = x['y']
                    if ('c' in y and y['c'] is not None) or ('r' in y and y['r'] in st.frame.regs):
                        b = self.val(st, y)
                        b2 = simp_int(b - int(a['y']['c']))
                        if self.prove(st, entryvals[a['x']['r']] <= b2, 60):
                            cands.append((a['x']['r'], 'le', b2))
        # write-set inference
        base = st
        n0 = next(core._ctr)
        havoc_pts, havoc_all = {}, set()
        ser0 = st.serial
        for it in range(8):
            s = base.copy()
            self.apply_havoc(s, fn, h, phis, havoc_pts, havoc_all, cands, spec)
            mark = len(s.log)
            self.loopctx.append({'h': h, 'fn': fn, 'dry': True, 'backs': []})
            self.suppress += 1
            try:
                start = self.exec_from(s, h, 0, prev, skipphi=True)
                ctx = self.loopctx[-1]
            finally:
                self.suppress -= 1
                ctx = self.loopctx.pop()
            changed = False
            keep = list(cands)
            for bs, bvals in ctx['backs']:
                for (k, r) in bs.log[mark:]:
                    if k == '*':
                        if '*' not in havoc_all:
                            havoc_all.add('*')
                            changed = True
                        continue
                    k0 = basekey(k)
                    if k0 in havoc_all:
                        continue
                    rb = r
                    inf = bs.info.get(rb.get_id())
                    sb = self.subinfo.get(rb.get_id())
                    if sb:
                        inf = bs.info.get(sb[0].get_id())
                    if inf and ((inf[0] == 'fresh' and inf[1] > ser0) or (inf[0] == 'new' and inf[1] >= ser0)):
                        continue
                    if self.preloop(rb, n0):
                        kk = (k0, r.get_id())
                        if kk not in havoc_pts:
                            havoc_pts[kk] = (k0, r)
                            changed = True
                    else:
                        # provably fresh since the loop was entered?
                        if self.prove(bs, (sb[0] if sb else rb) > base.alloc, 200):
                            continue
                        havoc_all.add(k0)
                        changed = True
                k2 = []
                for (reg, kind, b) in keep:
                    v = bvals.get(reg)
                    if v is None:
                        continue
                    g = (v >= b) if kind == 'ge' else (v <= b)
                    if self.prove(bs, g, 200):
                        k2.append((reg, kind, b))
                keep = k2
            if len(keep) != len(cands):
                cands = keep
                changed = True
            if not changed:
                break
        else:
            raise Unsupported('loop write set did not stabilise')
        s = base
        s.frame.cut[h] = None
        self.apply_havoc(s, fn, h, phis, havoc_pts, havoc_all, cands, spec)
        s.frame.cut[h] = {'snap': s.copy(), 'nm': nm, 'line': line, 'spec': spec}
        if spec and spec.dec:
            s.frame.cut[h]['dec'] = self.inv_eval(spec.dec, s, fn)
        return s

    def visitloop(self, st, spec, body, nm, line):
        """a loop inside a modelled dependency: body(state) executes one arbitrary
        iteration and returns [(state, None)] to go on or [(state, result)] to leave"""
        fn = st.frame.fn
        inv = spec.inv if spec else []
        for cl in inv:
            self.oblige(st, '%s: invariant %s on entry' % (nm, cl.label), 'inv', self.inv_eval(cl, st, fn), line)
        n0 = next(core._ctr)
        ser0, base = st.serial, st
        pts, alls = {}, set()

        def havoc(s):
            self.bump_alloc(s)
            ms, self.modset = self.modset, None
            try:
                if '*' in alls:
                    self.havoc_everything(s)
                for k in alls - {'*'}:
                    for kk in self.fullkeys(k):
                        a = z3.Array(fresh_name(kk + '@V'), IntS, self.sortof(kk))
                        s.heap[kk] = a
                        s.info[('arr', a.get_id())] = s.serial
                for (k, r) in pts.values():
                    if k not in alls:
                        self.havoc_at(s, k, r, 'vs')
                for k in alls - {'*'}:
                    s.log.append((k, z3.Int(fresh_name('any'))))
            finally:
                self.modset = ms
            for cl in inv:
                s.assume(self.inv_eval(cl, s, fn))
        for it in range(8):
            s = base.copy()
            havoc(s)
            mark = len(s.log)
            self.suppress += 1
            try:
                outs = body(s)
            finally:
                self.suppress -= 1
            changed = False
            for bs, res in outs:
                if res is not None:
                    continue
                for (k, r) in bs.log[mark:]:
                    k0 = basekey(k)
                    if k0 in alls or k == '*':
                        if k == '*' and '*' not in alls:
                            alls.add('*')
                            changed = True
                        continue
                    sb = self.subinfo.get(r.get_id())
                    rb = sb[0] if sb else r
                    inf = bs.info.get(rb.get_id())
                    if inf and ((inf[0] == 'fresh' and inf[1] > ser0) or (inf[0] == 'new' and inf[1] >= ser0)):
                        continue
                    if self.preloop(r, n0):
                        if (k0, r.get_id()) not in pts:
                            pts[(k0, r.get_id())] = (k0, r)
                            changed = True
                    elif not self.prove(bs, rb > base.alloc, 200):
                        alls.add(k0)
                        changed = True
            if not changed:
                break
        else:
            raise Unsupported('write set of a visitor did not stabilise')
        s = base
        havoc(s)
        out = []
        for bs, res in body(s):
            if res is not None:
                out.append((bs, res))
                continue
            for cl in inv:
                self.oblige(bs, '%s: invariant %s preserved' % (nm, cl.label), 'inv', self.inv_eval(cl, bs, fn), line, assume=False)
        return out

    def preloop(self, e, n0):
        for x in subterms([e]):
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                if '!' in nm:
                    try:
                        if int(nm.rsplit('!', 1)[1].split('.')[0]) >= n0:
                            return False
                    except ValueError:
                        return False
        return True

    def apply_havoc(self, s, fn, h, phis, pts, alls, cands, spec):
        self.bump_alloc(s)
        s.frame.cut[h] = {'dry': True}
        ms, self.modset = self.modset, None     # havoc writes are not program writes
        try:
            if '*' in alls:
                self.havoc_everything(s)
            for k in alls:
                if k == '*':
                    continue
                for kk in self.fullkeys(k):
                    a = z3.Array(fresh_name(kk + '@L'), IntS, self.sortof(kk))
                    s.heap[kk] = a
                    s.info[('arr', a.get_id())] = s.serial
                    s.log.append((kk, I(0))) if False else None
            for (k, r) in pts.values():
                if k not in alls:
                    self.havoc_at(s, k, r, 'lp')
            for k in alls:
                if k != '*':
                    s.log.append((k, z3.Int(fresh_name('any'))))
        finally:
            self.modset = ms
        s.frame.cut[h]['snap'] = s.copy()
        for ins, v in phis:
            if isinstance(v, (FuncV, Loc)):
                if not all(True for _ in [0]):
                    pass
                s.frame.regs[ins['r']] = v
                continue
            self.setphi(s, ins, self.fresh_val(s, ins['t'], ins.get('cm') or 'phi'))
        for (reg, kind, b) in cands:
            v = s.frame.regs[reg]
            s.assume(v >= b if kind == 'ge' else v <= b)
        if spec:
            for cl in spec.inv:
                s.assume(self.inv_eval(cl, s, fn))

    def fullkeys(self, k):
        if k in KEYSORT:
            return [k]
        return [x for x in KEYSORT if basekey(x) == k]

    def loop_back(self, st, fn, h, prev):
        vals = self.do_phis(st, fn, h, prev)
        for ctx in reversed(self.loopctx):
            if ctx['h'] == h and ctx['fn'] == fn and ctx.get('dry'):
                ctx['backs'].append((st, {ins['r']: v for ins, v in vals if z3.is_expr(v)}))
                return
            break
        for ins, v in vals:
            if isinstance(v, (FuncV, Loc)):
                continue
            self.setphi(st, ins, v)
        info = st.frame.cut[h]
        spec = info.get('spec')
        if spec:
            for cl in spec.inv:
                g = self.inv_eval(cl, st, fn)
                self.oblige(st, '%s: invariant %s preserved' % (info['nm'], cl.label), 'inv', g, info['line'], assume=False)
            if spec.dec:
                d = self.inv_eval(spec.dec, st, fn)
                self.oblige(st, '%s: measure decreases' % info['nm'], 'term', z3.And(info['dec'] >= 0, d < info['dec']) if not isinstance(d, tuple) else lexless(d, info['dec']), info['line'], assume=False)

    # ------------------------------------------------------------ verify one function
    def verify(self):
        fn, c = self.fn, self.C
        F = self.P.funcs[fn]
        st = State()
        self.A0 = z3.Int('A0')
        st.alloc = self.A0
        st.assume(self.A0 >= 100000)
        args = []
        st.frame = None
        for p in F['params']:
            args.append(self.fresh_val(st, p['t'], 'p_' + p['n']))
        bind = []
        for p in F['freevars']:
            bind.append(self.fresh_val(st, p['t'], 'f_' + p['n']))
        fr = Frame(fn)
        st.frame = fr
        if c.setup:
            c.setup(self, st, args, bind)
        for p, a in zip(F['params'], args):
            fr.regs[p['n']] = a
            fr.env[p['n']] = (a, p['t'])
        for p, a in zip(F['freevars'], bind):
            fr.regs[p['n']] = a
            if p.get('pos'):
                fr.env[p['n']] = fr.regs[('pos', p['pos'])] = (('ADDR', a), p['t'])
        env = self.argenv = self.cenv(c, fn, args, bind)
        for cl in c.requires:
            st.assume(self.evalc(cl, env, st, None))
        self.sync(st.pc)
        self.solver.set('timeout', 5000)
        self.pre_cover = str(self.solver.check())
        self.modset = self.eval_mods(c.modifies, env, st)
        if c.rank is not None:
            self.rank0 = self.evalc(c.rank, env, st)
        self.entryst = st.copy()
        self.callstack.append(fn)
        outs = self.exec_block(st, 0, None)
        rts = F['results']
        reach = 0
        for n, o in enumerate(outs):
            e2 = self.resenv(c, fn, env, o.res, rts)
            if self.feasible(o.st, TRUE):
                reach += 1
            if c.exit is not None:
                c.exit(self, o.st, e2)
            for cl in c.ensures:
                s2 = o.st.copy()
                g = self.evalc(cl, e2, s2, self.entryst)
                self.oblige(s2, 'postcondition %s (path %d)' % (cl.label, n), 'post', g, F.get('line'), assume=False)
        self.outcomes = len(outs)
        self.reach = reach
        return outs


def lexless(a, b):
    r = FALSE
    for x, y in reversed(list(zip(a, b))):
        r = z3.Or(z3.And(y >= 0, x < y), z3.And(x == y, r))
    return r


def short(fn):
    return fn.replace('github.com/ipfs/', '')


ALLOCHOOKS = {}   # type -> initialiser of ghost state
TAHOOKS = {}      # type -> hooks run when asserted
BOXHOOKS = {}     # pointer type -> hooks run when boxed into an interface
zeros_f = z3.Function('zeros', IntS, BYTES)
