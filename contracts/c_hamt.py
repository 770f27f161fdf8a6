"""Contracts of hamt/hamt.go: a sharded directory is the map its lookups describe.

Invariant of a shard ("class invariant": every function under contract here
keeps it for the shards it writes; it is assumed of a shard met in the children
of another).  It is stated for an arbitrary name X and an arbitrary position K.
"""
from c_bits import *
from c_dir import X, SMAP, some, unsome, NOMAP, NEX, shard_error, fail_flag
from c_dir import *
import execu, core, re
PCH = '*%s.childer' % HM
TSH, TCH = HM + '.Shard', HM + '.childer'
CH = '(*%s.childer).' % HM
KK = z3.Int('KK_arbitrary')
BSET = z3.ArraySort(IntS, BoolS)
ghost('bset', BSET)      # bit field: the bits set
ghost('pid', IntS)       # shard, its childer, arrays: place in the tree of shards
ghost('dep', IntS)       # shard: bits of the hash used up above it
ghost('smx', IntS)       # shard: what it holds under X
ghost('lkin', BoolS)     # link: an entry of a loaded node (its name is not changed)
brank = z3.Function('brank', BSET, IntS, IntS)       # bits set before a position
slotof = z3.Function('slotof', BSET, IntS, IntS)     # the position of the k'th bit set
kid = z3.Function('kid', IntS, IntS, IntS)           # place of the child at a slot
par = z3.Function('parof', IntS, IntS)
last = z3.Function('last', IntS, IntS)
lev = z3.Function('lev', IntS, IntS)
under = z3.Function('under', IntS, IntS, BoolS)      # under(q, p): place q is p or below
hexlen = z3.Function('hexlen', IntS, IntS)           # digits of a number in hexadecimal
padhex = z3.Function('padhex', IntS, IntS, BYTES)    # a number in hexadecimal, padded to a width
padfmt = z3.Function('padfmt', IntS, BYTES)          # the format that prints it
bitsof = z3.Function('bitsof', BYTES, IntS, BSET)    # the bits a serialized field of that size stands for
bytesof = z3.Function('bytesof', BSET, IntS, BYTES)  # serialized field
smofd = z3.Function('smofd', IntS, IntS, IntS)       # what the shard under an identifier holds under X at a depth
NOBITS = z3.K(IntS, FALSE)


def un_brank(e):
    b, i = e.children()
    fs = [e >= 0, z3.Implies(i <= 0, e == 0), z3.Implies(i >= 0, e <= i)]
    if b.eq(NOBITS):
        fs.append(e == 0)
    if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_STORE:
        b0, j, v = b.children()
        d = z3.If(v, I(1), I(0)) - z3.If(b0[j], I(1), I(0))
        fs.append(e == brank(b0, i) + z3.If(z3.And(j >= 0, j < i), d, I(0)))
    return fs


UNFOLD['brank'] = un_brank
UNFOLD['kid'] = lambda e: [par(e) == e.arg(0), last(e) == e.arg(1), lev(e) == lev(e.arg(0)) + 1]
UNFOLD['lev'] = lambda e: [e >= 0]


def un_under(e):
    q, p = e.children()
    fs = [z3.Implies(q == p, e), z3.Implies(e, z3.Or(q == p, lev(q) > lev(p)))]
    if not (z3.is_app(p) and p.decl().name() == 'parof'):
        fs.append(z3.Implies(lev(q) > 0, under(q, par(q))))
        fs.append(z3.Implies(z3.And(e, lev(p) > 0), under(q, par(p))))
    return fs


UNFOLD['under'] = un_under
UNFOLD['hexlen'] = lambda e: [z3.Implies(e.arg(0) >= 0, e >= 1), e <= 16]
UNFOLD['padhex'] = lambda e: [z3.Implies(z3.And(hexlen(e.arg(0)) <= e.arg(1), e.arg(0) >= 0), z3.Length(e) == e.arg(1))]


def ranks(b, n, i):
    """consequences for one position (proved in lemma_ranks)"""
    return z3.Implies(z3.And(i >= 0, i < n), z3.And(brank(b, i + 1) == brank(b, i) + z3.If(b[i], I(1), I(0)), brank(b, i + 1) <= brank(b, n),
                      z3.Implies(b[i], z3.And(slotof(b, brank(b, i)) == i, brank(b, i) < brank(b, n)))))


def slots(b, n, k):
    return z3.Implies(z3.And(k >= 0, k < brank(b, n)), z3.And(slotof(b, k) >= 0, slotof(b, k) < n, b[slotof(b, k)], brank(b, slotof(b, k)) == k))


def two(b, n, i, j):
    """order of ranks"""
    return z3.Implies(z3.And(0 <= i, i < j, j <= n), z3.And(brank(b, i) <= brank(b, j), z3.Implies(b[i], brank(b, i) < brank(b, j))))


# ---------------------------------------------------------------- go-bitfield (a dependency)
BF = '(github.com/ipfs/go-bitfield.Bitfield).'


def bf_of(E, st, s):
    return nf(E, st, 'bset', s.base), 8 * s.len


def inr(E, st, s, i, ins, what):
    E.oblige(st, 'bit field: %s within the field' % what, 'safety', z3.And(i >= 0, i < 8 * s.len), ins.get('line'))


@model('github.com/ipfs/go-bitfield.NewBitfield')
def m_newbf(E, st, args, ins):
    n = args[0]
    s2 = st.copy()
    st.assume(n >= 0, n % 8 == 0)
    s2.assume(z3.Not(z3.And(n >= 0, n % 8 == 0)))
    q = z3.Int(fresh_name('bfn'))
    st.assume(8 * q == n)
    r = E.makeslice(st, q, q, 'byte', ins.get('line'))
    E.wr(st, 'G:bset', r.base, NOBITS, check=False)
    return [(st, tup(r, I(0))), (s2, tup(SliceV(I(0), I(0), I(0), I(0), 'byte'), new_error(E, s2)))]


@model(BF + 'Bit')
def m_bfbit(E, st, args, ins):
    s, i = args
    inr(E, st, s, i, ins, 'read')
    b, n = bf_of(E, st, s)
    st.assume(ranks(b, n, i))
    return [(st, b[i])]


@model(BF + 'OnesBefore')
def m_bfob(E, st, args, ins):
    s, i = args
    inr(E, st, s, i, ins, 'count')
    b, n = bf_of(E, st, s)
    st.assume(ranks(b, n, i))
    return [(st, brank(b, i))]


@model(BF + 'Ones')
def m_bfones(E, st, args, ins):
    b, n = bf_of(E, st, args[0])
    return [(st, brank(b, n))]


@model(BF + 'SetBit')
def m_bfset(E, st, args, ins, v=True):
    s, i = args
    inr(E, st, s, i, ins, 'write')
    b, n = bf_of(E, st, s)
    b2 = z3.Const(fresh_name('bits'), BSET)
    st.assume(b2 == z3.Store(b, i, z3.BoolVal(v)))
    # the order of the positions set does not change (proved in lemma_ranks)
    r = brank(b, i)
    k = slotof(b2, KK)
    if v:
        st.assume(z3.Implies(z3.And(z3.Not(b[i]), 0 <= KK, KK <= brank(b, n)), k == z3.If(KK < r, slotof(b, KK), z3.If(KK == r, i, slotof(b, KK - 1)))))
    else:
        st.assume(z3.Implies(z3.And(b[i], 0 <= KK, KK < brank(b, n) - 1), k == z3.If(KK < r, slotof(b, KK), slotof(b, KK + 1))))
    d = (1 if v else -1)
    for j in (n, i, xslot_any(E, st)):
        if j is not None:
            st.assume(z3.Implies(z3.And(b[i] != z3.BoolVal(v), i >= 0), brank(b2, j) == brank(b, j) + z3.If(i < j, I(d), I(0))))
            if not j.eq(n) and not j.eq(i):
                st.assume(two(b, n, i, j), two(b, n, j, i), ranks(b, n, j), ranks(b2, n, j))
    st.assume(ranks(b, n, i))
    set_nf(E, st, 'bset', s.base, b2)
    return [(st, tup())]


@model(BF + 'UnsetBit')
def m_bfunset(E, st, args, ins):
    return m_bfset(E, st, args, ins, False)


@model(BF + 'SetBytes')
def m_bfsetb(E, st, args, ins):
    s, y = args
    E.oblige(st, 'bit field: bytes fit', 'safety', y.len <= s.len, ins.get('line'))
    set_nf(E, st, 'bset', s.base, bitsof(E.bytes_of(st, y), 8 * s.len))
    return [(st, tup())]


@model(BF + 'Bytes')
def m_bfbytes(E, st, args, ins):
    b, n = bf_of(E, st, args[0])
    r = E.new_bytes(st, bytesof(b, n))
    st.assume(bitsof(bytesof(b, n), n) == b)
    return [(st, r)]


# ---------------------------------------------------------------- printing an index
padw = z3.Function('padw', BYTES, IntS)
UNFOLD['padfmt'] = lambda e: [padw(e) == e.arg(0)]


@model('fmt.Sprintf')
def m_sprintf_hex(E, st, args, ins):
    r = E.result_of(st, ins)
    f, a = args
    if isinstance(a, SliceV) and is_const_int(a.len) and a.len.as_long() == 1:
        v = E.load_elem(st, a, I(0))
        if z3.is_app(v) and v.decl().name() == 'box:int':
            n = v.arg(0)
            if f.eq(E.strconst('%X')):
                st.assume(z3.Implies(n >= 0, z3.Length(r) == hexlen(n)))
            elif f.eq(E.strconst('%%0%dX')):
                st.assume(r == padfmt(n))
            else:
                st.assume(z3.Implies(z3.And(f == padfmt(padw(f)), n >= 0), r == padhex(n, padw(f))))
    return [(st, r)]


# ---------------------------------------------------------------- the shard
def F_(E, st, n, s):
    return E.load_key(st, *fk(E, TSH, n, s))


def G_(E, st, n, c):
    return E.load_key(st, *fk(E, TCH, n, c))


class Sh:
    """fields of a shard in a state"""

    def __init__(s, E, st, r):
        s.E, s.st, s.r = E, st, r
        s.ch = F_(E, st, 'childer', r)
        s.lg, s.size, s.pad, s.fmt = (F_(E, st, k, r) for k in ('tableSizeLg2', 'tableSize', 'maxpadlen', 'prefixPadStr'))
        s.dserv, s.key, s.v = (F_(E, st, k, r) for k in ('dserv', 'key', 'val'))
        s.kids, s.links, s.bf = (G_(E, st, k, s.ch) for k in ('children', 'links', 'bitfield'))
        s.sd, s.cds = G_(E, st, 'sd', s.ch), G_(E, st, 'dserv', s.ch)
        s.b, s.n = nf(E, st, 'bset', s.bf.base), s.size
        s.pid, s.dep, s.smx = (nf(E, st, k, r) for k in ('pid', 'dep', 'smx'))

    def g(s, k, r):
        return nf(s.E, s.st, k, r)

    def kid(s, k):
        return raw_elem(s.E, s.st, s.kids, k)

    def link(s, k):
        return raw_elem(s.E, s.st, s.links, k)


def expand(st, a, i, depth=0):
    """what copying says about one element"""
    if depth > 6 or not z3.is_app(a):
        return
    k = a.decl().kind()
    if k == z3.Z3_OP_STORE:
        expand(st, a.arg(0), i, depth + 1)
    elif k == z3.Z3_OP_ITE:
        expand(st, a.arg(1), i, depth + 1)
        expand(st, a.arg(2), i, depth + 1)
    elif a.num_args() == 0 and a.decl().name() in core.COPIES:
        dst, di, src, si, n = core.COPIES[a.decl().name()]
        q = simp_int(si + i - di)
        st.assume(z3.Select(a, i) == z3.If(z3.And(i >= di, i < di + n), z3.Select(src, q), z3.Select(dst, i)))
        expand(st, src, q, depth + 1)
        expand(st, dst, i, depth + 1)


def raw_elem(E, st, s, i):
    arr = E.rd(st, E.ekey(s.et), s.base)
    expand(st, arr, simp_int(s.off + i))
    v = z3.Select(arr, simp_int(s.off + i))
    st.assume(v <= st.alloc)
    return v


def entry_val(E, st, s, nm, c):
    """what a link of a loaded node holds under X, the shard being at depth dep"""
    L_ = z3.Length(nm)
    return z3.If(L_ < s.pad, I(0), z3.If(L_ == s.pad, smofd(c, s.dep + s.lg), z3.If(z3.Extract(nm, s.pad, L_ - s.pad) == X, some(c), I(0))))


def xslot(s):
    return wbits(hashof(X), s.dep, s.lg)


def xslot_any(E, st):
    if E.pkg(E.fn) != 'hamt' or not ('ds' in E.argenv or 's' in E.argenv):
        return None
    return xslot(Sh(E, st, owner(E, E.argenv)))


def holds(E, st, s):
    """what lookups find under X"""
    x = xslot(s)
    k = brank(s.b, x)
    c, l = s.kid(k), s.link(k)
    lk = lambda n: E.load_key(st, *fk(E, LINK, n, l))
    cv, ck, cx = F_(E, st, 'val', c), F_(E, st, 'key', c), nf(E, st, 'smx', c)
    cc = E.load_key(st, *fk(E, LINK, 'Cid', cv))
    st.assume(ranks(s.b, s.n, x))
    return z3.If(z3.Not(z3.And(x >= 0, x < s.n, s.b[x])), I(0), z3.If(c != 0, z3.If(cv != 0, z3.If(ck == X, some(cc), I(0)), cx), entry_val(E, st, s, lk('Name'), lk('Cid'))))


def shape_ok(s):
    """what never changes"""
    z = lambda v: z3.And(v.off == 0, z3.Or(v.base == 0, s.g('pid', v.base) == s.pid))
    return z3.And(s.ch != 0, s.sd == s.r, s.dserv != 0, s.cds != 0, s.g('pid', s.ch) == s.pid, s.lg >= 3, s.lg <= 10, s.size == pow2(s.lg), s.pad == hexlen(s.size - 1), s.pad >= 1, s.fmt == padfmt(s.pad),
                  8 * s.bf.len == s.size, s.bf.base != 0, s.bf.off == 0, s.g('pid', s.bf.base) == s.pid, s.kids.off == 0, s.links.off == 0)


def count_ok(s):
    own = lambda v: z3.Or(v.base == 0, z3.And(v.base > 0, s.g('pid', v.base) == s.pid))
    return z3.And(s.kids.len == s.links.len, s.kids.len == brank(s.b, s.n), own(s.kids), own(s.links), s.dep >= 0)


def slot_ok(E, st, s, k):
    """the k'th entry: a loaded child in its place, or a link of the node"""
    c, l = s.kid(k), s.link(k)
    cv, ck = F_(E, st, 'val', c), F_(E, st, 'key', c)
    st.assume(slots(s.b, s.n, k))
    return z3.Implies(z3.And(k >= 0, k < s.kids.len), z3.And(
        z3.Implies(c != 0, z3.And(c > 0, s.g('pid', c) == kid(s.pid, slotof(s.b, k)), (cv == 0) == (ck == EMPTY), z3.Implies(cv == 0, s.g('dep', c) == s.dep + s.lg), z3.Implies(cv != 0, z3.Not(s.g('lkin', cv))))),
        z3.Implies(c == 0, z3.And(l != 0, s.g('lkin', l)))))


def sh(f):
    def g(r, *a):
        E, st = r.E, r.E.cur
        return f(E, st, Sh(E, st, r.v), *[unw(x) for x in a])
    return g


SPECFN.update(shok=sh(lambda E, st, s: z3.And(s.r > 0, s.v == 0, s.key == EMPTY, shape_ok(s), count_ok(s))), holdsx=sh(holds), inplace=sh(lambda E, st, s, k: slot_ok(E, st, s, k)), KK=KK,
              xat=sh(lambda E, st, s: brank(s.b, xslot(s))), kat=sh(lambda E, st, s, key: brank(s.b, wbits(hashof(key), s.dep, s.lg))),
              hashed=sh(lambda E, st, s, hv, key: z3.And(hv != 0, E.bytes_of(st, W(E, hv, '*%s.hashBits' % HM).b.v) == hashof(key), W(E, hv, '*%s.hashBits' % HM).consumed == s.dep)))


HASHLEN = z3.Int('hash_length')
UNFOLD['hashof'] = lambda e: [z3.Length(e) == HASHLEN, HASHLEN >= 0, HASHLEN <= 2 ** 32]     # the hash function yields a fixed length
execu.NOTHOME.update(SH + k for k in ('Find', 'Swap', 'Set', 'SetLink', 'Take', 'Remove', 'ForEachLink', 'SetCidBuilder', 'CidBuilder', 'Node'))
execu.NOTHOME.update(HM + k for k in ('.NewShard', '.NewHamtFromDag'))


def alloc_link2(E, st, r, f=ALLOCHOOKS[LINK]):
    f(E, st, r)
    E.wr(st, 'G:lkin', r, FALSE, check=False)


ALLOCHOOKS[LINK] = alloc_link2


def store_name(E, st, p, v):
    if p.key.startswith('F:%s.' % LINK) and E.pkg(E.fn) == 'hamt':
        E.oblige(st, 'changes no link of a loaded node', 'own', z3.Not(nf(E, st, 'lkin', p.ref)), None)


STOREHOOKS.append(store_name)
SPECFN.update(someof=lambda c: some(unw(c)), nameof=lambda k: unw(k))

# ---------------------------------------------------------------- ghost code: a child finds its place
def owner(E, env):
    """the shard the function works on"""
    d = env.get('ds')
    return d.v if d is not None else G_(E, E.entryst or E.cur, 'sd', env['s'].v)


def attach(E, st, p, c, slot):
    """a shard just built takes its place below p"""
    place = kid(p.pid, slot)
    s = Sh(E, st, c)
    for r in (c, s.ch, s.kids.base, s.links.base, s.bf.base):
        E.wr(st, 'G:pid', r, place, check=False)
    if not E.prove(st, s.v != 0, 300):
        st.assume(nf(E, st, 'dep', c) == p.dep + p.lg)      # the depth a shard is built for is chosen here, once
        E.wr(st, 'G:smx', c, holds(E, st, Sh(E, st, c)), check=False)
    st.info[('attached', c.get_id())] = (c, )


def keyslot(E, s):
    return wbits(hashof(E.argenv['key'].v if isinstance(E.argenv['key'], W) else E.argenv['key']), s.dep, s.lg)


def fresh_unplaced(E, st, c):
    return ('attached', c.get_id()) not in st.info and E.prove(st, c > E.A0, 300)


def pre_place(E, st, env):
    """a recursive call on a shard that was just built"""
    c = env['ds'].v
    if 'ds' in E.argenv and E.pkg(E.fn) == 'hamt' and 'key' in E.argenv and fresh_unplaced(E, st, c) and ('placed', c.get_id()) not in st.info:
        p = Sh(E, st, E.argenv['ds'].v)
        attach(E, st, p, c, keyslot(E, p))


def exit_at(slot):
    """the child at a slot is in its place; the shard holds what lookups find"""
    def f(E, st, env):
        d = owner(E, env)
        s = Sh(E, st, d)
        old = Sh(E, E.entryst, d)
        for r in (s.kids.base, s.links.base):      # an array that took the place of a shorter one
            if not is_const_int(r) and not r.eq(old.kids.base) and not r.eq(old.links.base):
                E.wr(st, 'G:pid', r, s.pid)
        s = Sh(E, st, d)
        sl = slot(E, env, s)
        if sl is not None:
            k = brank(s.b, sl)
            st.assume(ranks(s.b, s.n, sl), slots(s.b, s.n, k))
            if E.prove(st, s.b[sl], 300):
                c = s.kid(k)
                for kk, v in list(st.info.items()):      # is it one that was just built?
                    if isinstance(kk, tuple) and kk[0] == 'built' and not c.eq(v[0]) and E.prove(st, c == v[0], 500):
                        c = v[0]
                        break
                if E.prove(st, c != 0, 300):
                    if fresh_unplaced(E, st, c) and ('placed', c.get_id()) not in st.info:
                        attach(E, st, s, c, sl)
                    elif E.prove(st, F_(E, st, 'val', c) != 0, 300):
                        E.wr(st, 'G:pid', c, kid(s.pid, sl))
        E.wr(st, 'G:smx', d, holds(E, st, Sh(E, st, d)))
    return f


exit_place = exit_at(lambda E, env, s: keyslot(E, s))


def child_inv(E, st, s):
    return z3.And(shape_ok(s), z3.Implies(s.v == 0, z3.And(count_ok(s), s.smx == holds(E, st, s), slot_ok(E, st, s, KK))))


# ---------------------------------------------------------------- what is assumed of a shard met among the children
@(lambda f: (ELEMHOOKS.append(f), f)[1])
def h_child(E, st, base, j, et, v):
    if et != PSH or E.pkg(E.fn) != 'hamt' or ('shk', v.get_id()) in st.info or E.suppress:
        return
    st.info[('shk', v.get_id())] = (v, )
    if is_const_int(v) or not E.feasible(st, v != 0) or E.prove(st, v > E.A0, 100):
        return
    st.assume(z3.Implies(v != 0, child_inv(E, st, Sh(E, st, v))))


def region(E, env):
    """the shard and what is below it"""
    pids = E.harr(E.cur, 'G:pid')
    d = env['ds'].v if 'ds' in env else G_(E, E.cur, 'sd', env['s'].v)
    p = E.rd(E.cur, 'G:pid', d)
    inside = lambda r: under(z3.Select(pids, r), p)
    lk = E.harr(E.cur, 'G:lkin')
    out = [('F:%s.%s' % (TSH, k), inside) for k in ('val', )] + [('F:%s.%s' % (TCH, k), inside) for k in ('children', 'links')]
    out += [(E.ekey(t), inside) for t in (PSH, PLINK)] + [('G:%s' % k, inside) for k in ('bset', 'pid', 'dep', 'smx')]
    out += [('F:%s.Name' % LINK, lambda r: z3.Not(z3.Select(lk, r)))]
    return out


def at(base):
    return lambda r: z3.And(r == base, base != 0)


def own_mods(*what):
    """of the shard itself"""
    def f(E, env):
        c = env['s'].v
        d = G_(E, E.cur, 'sd', c)
        s = Sh(E, E.cur, d)
        out = [('G:smx', d)]
        if 'kids' in what:
            out += [(E.ekey(PSH), at(s.kids.base)), (E.ekey(PLINK), at(s.links.base))]
        if 'slices' in what:
            out += [('F:%s.%s' % (TCH, k), c) for k in ('children', 'links')] + [('G:bset', s.bf.base), ('G:pid', at(s.kids.base)), ('G:pid', at(s.links.base))]
        return out
    return f


INV = [('invariant', 'shok(ds) and ds.smx == holdsx(ds)'), ('places', 'inplace(ds, KK)')]
HV = ['ctx != None', 'hashed(ds, hv, key)', 'ds.dep < 2**40']
AT = [('@k', 'inplace(ds, kat(ds, key))'), ('@x', 'inplace(ds, xat(ds))'), ('@before', 'inplace(ds, KK - 1)'), ('@after', 'inplace(ds, KK + 1)')]
CINV = [(l, re.sub(r'\bds\b', 's.sd', c)) for l, c in INV]
CAT = [(l, re.sub(r'\bds\b', 's.sd', c)) for l, c in AT if l != '@k']
SPECFN.update(kidat=sh(lambda E, st, s, k: W(E, s.kid(k), PSH)), linkat_=sh(lambda E, st, s, k: W(E, s.link(k), PLINK)), bit=sh(lambda E, st, s, i: s.b[i]), rankat=sh(lambda E, st, s, i: brank(s.b, i)), xslot=sh(lambda E, st, s: xslot(s)),
              slotat=sh(lambda E, st, s, k: slotof(s.b, k)), childok=sh(child_inv), padl=sh(lambda E, st, s, i: padhex(i, s.pad)), knm=sh(lambda E, st, s: s.kids.len))
Contract(SH + 'swapValue', 'ds ctx hv key value', 'r err', requires=INV + HV + AT + [('nonempty', 'implies(value != None, len_(key) > 0 and not value.lkin)')],
         modifies=['hv.consumed', region], pre=pre_place, exit=exit_place, rank='8 * len_(hseq(hv)) - hv.consumed',
         ensures=INV + [('place', 'ds.pid == old(ds.pid) and ds.dep == old(ds.dep)'), ('map', 'implies(err == None, ds.smx == ITE(key == X, ITE(value == None, 0, someof(value.Cid)), old(ds.smx)))'),
                        ('others', 'implies(key != X, ds.smx == old(ds.smx))'),
                        ('previous', 'implies(err == None and key == X, (r == None) == (old(ds.smx) == 0) and implies(r != None, someof(r.Cid) == old(ds.smx)))'),
                        ('absent', 'implies(notexist(err), value == None and ds.smx == old(ds.smx) and implies(key == X, ds.smx == 0))'),
                        ('removed', 'implies(value == None and key == X and old(ds.smx) == 0, err != None)')])
Contract(HM + '.makeShard', 'dserv size key val', 'r err', requires=['dserv != None'],
         ensures=[('built', 'implies(err == None, blank(r) and sameref(r.dserv, dserv) and r.tableSize == size and r.key == key and sameref(r.val, val))'), ('accepts', '(err == None) == (ispow2(size) and 8 <= size and size <= 1024)'),
                  ('error', 'not notexist(err)')])


def sp_blank(r):
    st = r.E.cur
    st.info[('built', r.v.get_id())] = (r.v, )
    return blank(r.E, st, r.v)


SPECFN['blank'] = sp_blank


def blank(E, st, r):
    """a shard just built, not yet in any tree"""
    s = Sh(E, st, r)
    fr = lambda x: x > (E.oldst if E.oldst is not None else E.entryst).alloc
    return z3.And(*[fr(x) for x in (r, s.ch, s.bf.base)], z3.Distinct(r, s.ch), s.sd == r, s.cds == s.dserv, s.lg >= 3, s.lg <= 10, s.size == pow2(s.lg), s.pad == hexlen(s.size - 1), s.pad >= 1, s.fmt == padfmt(s.pad),
                  8 * s.bf.len == s.size, s.bf.off == 0, s.kids.off == 0, s.links.off == 0, s.kids.len == 0, s.links.len == 0, s.kids.base == 0, s.links.base == 0, s.kids.cap == 0, s.links.cap == 0, s.b == NOBITS)


lgof = z3.Function('lgof', IntS, IntS)
UNFOLD['lgof'] = lambda e: [z3.Implies(e.arg(0) == 2 ** k, e == k) for k in range(3, 11)]


def node_holds(c, d):
    """what the node under an identifier, read as a shard at depth d, holds under X"""
    size = d_fo(pnd(c))
    lg, pad, b = lgof(size), hexlen(size - 1), bitsof(d_data(pnd(c)), size)
    x = wbits(hashof(X), d, lg)
    k = brank(b, x)
    nm, lc = z3.Select(plnm(c), k), z3.Select(plc(c), k)
    n = z3.Length(nm)
    return z3.If(z3.And(x >= 0, x < size, b[x]), z3.If(n < pad, I(0), z3.If(n == pad, smofd(lc, d + lg), z3.If(z3.Extract(nm, pad, n - pad) == X, some(lc), I(0)))), I(0))


def exit_loaded(E, st, env):
    r, nd = env['r'].v, env['nd'].v
    if not E.prove(st, env['err'].v == 0, 300):
        return
    s = Sh(E, st, r)
    c = node_cid(E, st, nd)
    unfold_cid(E, st, c)
    st.assume(s.dep >= 0)      # the depth is chosen when the shard takes its place
    for k in (KK, brank(s.b, xslot(s))):     # the links it was given
        for kk, v in list(st.info.items()):
            if isinstance(kk, tuple) and kk[0] == 'lkbase':
                E.load_at(st, v[0], S(k), PLINK)
                st.assume(nf(E, st, 'lkin', z3.Select(E.rd(st, E.ekey(PLINK), v[0]), S(k))))   # ghost: entries of this node
    E.wr(st, 'G:smx', r, holds(E, st, Sh(E, st, r)))
    st.assume(smofd(c, s.dep) == node_holds(c, s.dep))                       # definition
    st.assume(ranks(s.b, s.n, xslot(s)), slots(s.b, s.n, KK))


def fresh_parts(E, st, r):
    s = Sh(E, st, r)
    fr = lambda x: x > (E.oldst if E.oldst is not None else E.entryst).alloc
    return z3.And(*[fr(x) for x in (r, s.ch, s.bf.base)], z3.Distinct(r, s.ch), s.sd == r, s.cds == s.dserv, s.dserv != 0, s.v == 0, s.key == EMPTY, s.lg >= 3, s.lg <= 10, s.size == pow2(s.lg), s.pad == hexlen(s.size - 1), s.pad >= 1, s.fmt == padfmt(s.pad),
                  8 * s.bf.len == s.size, s.bf.off == 0, s.kids.off == 0, s.links.off == 0, s.kids.len == s.links.len, s.kids.len == brank(s.b, s.n), z3.Or(s.kids.base == 0, fr(s.kids.base)), z3.Or(s.links.base == 0, fr(s.links.base)))


def loaded_at(E, st, s, k):
    c, l = s.kid(k), s.link(k)
    return z3.Implies(z3.And(k >= 0, k < s.kids.len), z3.And(c == 0, l != 0, s.g('lkin', l)))


def sp_fresh(r):
    r.E.cur.info[('built', r.v.get_id())] = (r.v, )
    return fresh_parts(r.E, r.E.cur, r.v)


SPECFN.update(freshparts=sp_fresh, loadedat=sh(loaded_at), smofd=lambda c, d: smofd(unw(c), unw(d)), bitsof=lambda b, n: bitsof(unw(b), unw(n)))
Contract(HM + '.NewHamtFromDag', 'dserv nd', 'r err', requires=['dserv != None and nd != None', 'implies(isproto(nd), nodeany(nd) and not nd.stale)'], exit=exit_loaded,
         ensures=[('built', 'implies(err == None, isproto(nd) and freshparts(r) and sameref(r.dserv, dserv))'), ('loaded', 'implies(err == None, loadedat(r, KK) and loadedat(r, xat(r)))'),
                  ('count', 'implies(err == None, knm(r) == nd.ln and r.tableSize == d_fo(nd.nd))'),
                  ('holds', 'implies(err == None, r.smx == holdsx(r) and r.smx == smofd(ncid(nd), r.dep))'), ('error', 'not notexist(err)')])
Contract(SH + 'makeShardValue', 'ds lnk', 'r err', requires=['ds != None and lnk != None and ds.dserv != None', 'len_(lnk.Name) >= ds.maxpadlen and ds.maxpadlen >= 0'],
         ensures=[('value', 'implies(err == None, fresh(r) and fresh(r.val) and not r.val.lkin and r.val.Cid == lnk.Cid and r.val.Size == lnk.Size and r.key == after(lnk.Name, ds.maxpadlen))'),
                  ('built', 'implies(err == None, blankv(r) and sameref(r.dserv, ds.dserv))'), ('error', 'not notexist(err)')])
SPECFN.update(after=lambda s, n: z3.Extract(unw(s), unw(n), z3.Length(unw(s)) - unw(n)), blankv=sp_blank)
def setup_childer(E, st, args, bind):
    """the childer and its shard point at each other (a precondition)"""
    s = args[0]
    d = z3.Int('shard_of')
    st.assume(d > 0, d <= E.A0, s > 0)
    E.load_key(st, *fk(E, TCH, 'sd', s))
    E.load_key(st, *fk(E, TSH, 'childer', d))
    E.wr(st, fk(E, TCH, 'sd', s)[0], s, d, check=False)
    E.wr(st, fk(E, TSH, 'childer', d)[0], d, s, check=False)


Contract(CH + 'get', 's ctx sliceIndex', 'r err', setup=setup_childer, requires=CINV + CAT + [('@i', 'inplace(s.sd, sliceIndex)'), 'ctx != None and s != None and s.sd.childer == s'], modifies=[own_mods('kids')],
         exit=exit_at(lambda E, env, s: slotof(s.b, env['sliceIndex'].v if isinstance(env['sliceIndex'], W) else env['sliceIndex'])),
         ensures=CINV + [('same', 's.sd.smx == old(s.sd.smx)'),
                         ('child', 'implies(err == None, 0 <= sliceIndex and sliceIndex < knm(s.sd) and r != None and sameref(r, kidat(s.sd, sliceIndex)) and childok(r) and inplace(s.sd, sliceIndex))'),
                         ('error', 'not notexist(err)')])

Contract(CH + 'insert', 's key lnk idx', 'err', setup=setup_childer, requires=CINV + CAT + ['s != None and s.sd.childer == s', '0 <= idx and idx < s.sd.tableSize and not bit(s.sd, idx)', ('nonempty', 'implies(lnk != None, len_(key) > 0 and not lnk.lkin)')],
         modifies=[own_mods('kids', 'slices'), 'lnk.Name'], exit=exit_at(lambda E, env, s: env['idx'].v if isinstance(env['idx'], W) else env['idx']),
         ensures=CINV + [('map', 'implies(err == None, s.sd.smx == ITE(xslot(s.sd) == idx, ITE(key == X, someof(lnk.Cid), 0), old(s.sd.smx)))'), ('failed', 'implies(err != None, s.sd.smx == old(s.sd.smx))'),
                         ('absent', 'notexist(err) == (lnk == None)')])
Contract(CH + 'rm', 's childIndex', 'err', setup=setup_childer, requires=CINV + CAT + ['s != None and s.sd.childer == s', '0 <= childIndex and childIndex < s.sd.tableSize and bit(s.sd, childIndex)'],
         modifies=[own_mods('kids', 'slices')], exit=exit_at(lambda E, env, s: None),
         ensures=CINV + [('removes', 'err == None'), ('map', 's.sd.smx == ITE(xslot(s.sd) == childIndex, 0, old(s.sd.smx))')])
