"""Contracts of mod/dagmodifier.go."""
from c_append import *
from c_reader import *
MO = U + '/mod'
DM = '(*%s.DagModifier).' % MO


# ---------------------------------------------------------------- dependencies
@model('(%s).EncodeProtobuf' % PPN)
def m_encode(E, st, args, ins):
    """encodes again and caches the result (links of a file node have no names, so sorting them changes nothing)"""
    n = args[0]
    s2 = st.copy()
    set_nf(E, st, 'stale', n, FALSE)
    b = E.new_bytes(st, z3.Const(fresh_name('enc'), BYTES), 'enc')
    e = maybe_error(E, s2)
    s2.assume(e != 0)
    set_nf(E, s2, 'stale', n, TRUE)
    return [(st, tup(b, I(0))), (s2, tup(SliceV(I(0), I(0), I(0), I(0), 'byte'), e))]


def own_node(name):
    def f(E, env):
        n = env[name]
        return [('G:' + k, n.v) for k in ('lc', 'lnm', 'ln', 'nd', 'stale')]
    return f


IOM = lambda E, env: [('G:iofail', IOG)]
FILE = 'nodeok(%s) and typed(%s) and wf(ncid(%s)) and pl(ncid(%s))'
RPT = ('noio', 'implies(err == None, iofail(dm) == old(iofail(dm)))')

Contract(MO + '.fileSize', 'n', 'r err', requires=['n != None'],
         ensures=[('size', 'implies(nodeok(n) and typed(n) and wf(ncid(n)), err == None and r == seqlen(fc(ncid(n))))'),
                  ('others', 'implies(not isproto(n) and not israw(n), err != None)')])
Contract(DM + 'dagTruncate', 'dm ctx n size', 'r err',
         requires=['dm != None and dm.dagserv != None', FILE.replace('%s', 'n'), 'durr(n.lc, 0, n.ln)', 'size < seqlen(fc(ncid(n)))'],
         modifies=[IOM, own_node('n')], rank='rk(ncid(n))',
         ensures=[('node', 'implies(err == None, nodeok(r) and typed(r))'), ('own', 'implies(err == None, sameref(r, n) or fresh(r))'),
                  ('prefix', 'implies(err == None, fc(ncid(r)) == old(sub(fc(ncid(n)), 0, size)))'),
                  ('sizes', 'implies(err == None, wf(ncid(r)))'), ('plain', 'implies(err == None, pl(ncid(r)))'),
                  ('kept', 'implies(err == None, durr(r.lc, 0, r.ln))'), RPT],
         loops=[LoopSpec(inv=[('cut', 'cur == seqlen(catr(n.lc, 0, ix)) and cur <= size and 0 <= ix and ix <= n.ln'),
                              ('none', 'modified == None and end == 0'),
                              ('children', 'fsok(ndata) and nbs(ndata) == ix and wfr(n.lc, bsa(ndata), 0, ix) and fs_data(ndata) == EMPTY and fs_size(ndata) == sumr(bsa(ndata), 0, ix) and fs_size(ndata) == cur and fs_hassize(ndata)'),
                              ('type', 'fs_type(ndata) == d_type(n.nd)'),
                              ('base', 'fs_bslice(ndata).base == 0 or fs_bslice(ndata).base > entry(E.cur.alloc)'),
                              ('read', 'iofail(dm) == entry(iofail(dm))')])])

# ---------------------------------------------------------------- zeros, and writing over a file
zeros = z3.Function('zeros', IntS, BYTES)
spl = z3.Function('spl', BYTES, IntS, BYTES, BYTES)     # file with b written at o, gaps filled with zeros
L = z3.Length
sub_ = lambda s, o, n: z3.Extract(s, o, n)


def un_zeros(e):
    n = e.arg(0)
    return [L(e) == z3.If(n <= 0, I(0), n), z3.Implies(n <= 0, e == EMPTY), z3.Implies(n > 0, e == z3.Concat(zeros(S(n - 1)), z3.Unit(I(0))))]


def spl_def(F, o, b):
    return z3.If(L(F) <= o, z3.Concat(F, zeros(S(o - L(F))), b), z3.Concat(sub_(F, I(0), o), b, sub_(F, o + L(b), L(F) - (o + L(b)))))


def mx(a, b):
    return z3.If(a >= b, a, b)


def iscat(x):
    return z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT


def un_spl(e):
    F, o, b = e.children()
    fs = [z3.Implies(o >= 0, L(e) == mx(L(F), o + L(b))), z3.Implies(z3.And(o >= 0, L(F) <= o), e == z3.Concat(F, zeros(S(o - L(F))), b)),
          z3.Implies(z3.And(o >= 0, L(F) > o), e == spl_def(F, o, b))]
    if z3.is_app(F) and F.decl().name() == 'spl':
        G, p, c = F.children()
        fs += [z3.Implies(z3.And(p >= 0, o == p, L(b) >= L(c)), e == spl(G, o, b)),
               z3.Implies(z3.And(p >= 0, o == p + L(c)), e == spl(G, p, z3.Concat(c, b)))]
        k = S(o - mx(L(G), p + L(c)))
        if not iscat(G):
            fs += [z3.Implies(z3.And(p >= 0, k >= 0), e == spl(spl(z3.Concat(G, zeros(k)), p, c), o, b))]
    k = S(o - L(F))
    if not iscat(F):
        fs += [z3.Implies(z3.And(o >= 0, k >= 0), e == spl(z3.Concat(F, zeros(k)), o, b))]
    return fs


UNFOLD['zeros'] = un_zeros
UNFOLD['spl'] = un_spl
SPECFN.update(zeros=zeros, spl=spl)


# ---------------------------------------------------------------- the laws used of writing over a file
def lemma_spl():
    """each instance un_spl adds follows from the definition of spl, by cases on how the pieces overlap"""
    out = []
    B = lambda n: z3.Const(n, BYTES)
    cc = lambda *a: z3.Concat(*a)
    x, y, z, b, c, d, e_, G = (B(n) for n in 'x y z b c d e G'.split())
    o, p, k = z3.Ints('o p k')
    zs = lambda n: zeros(S(n if z3.is_expr(n) else I(n)))
    zl = lambda *ns: [L(zs(n)) == z3.If(n <= 0, I(0), n) for n in ns] + [z3.Implies(n <= 0, zs(n) == EMPTY) for n in ns]
    # zeros: length and addition, by induction on the second number
    n, m = z3.Ints('n m')
    out.append(('zeros: length', [n >= 1, L(zs(n - 1)) == n - 1, zs(n) == cc(zs(n - 1), z3.Unit(I(0)))], L(zs(n)) == n))
    out.append(('zeros: sum, none', [n >= 0, zs(0) == EMPTY], zs(n) == cc(zs(n), zs(0))))
    out.append(('zeros: sum, one more', [n >= 0, m >= 1, zs(n + m - 1) == cc(zs(n), zs(m - 1)), zs(n + m) == cc(zs(n + m - 1), z3.Unit(I(0))), zs(m) == cc(zs(m - 1), z3.Unit(I(0)))], zs(n + m) == cc(zs(n), zs(m))))
    add = lambda a, b_: [z3.Implies(z3.And(a >= 0, b_ >= 0), zs(a + b_) == cc(zs(a), zs(b_)))] + zl(a, b_, a + b_)
    lens = [o >= 0, p >= 0]

    def ex(F_, o_, b_, case):
        """what spl makes of F_ written at o_; case: its pieces before and after when it is written inside"""
        if case == 'past':
            return cc(F_, zs(o_ - L(F_)), b_)
        return cc(case[0], b_, case[1]) if case[1] is not None else cc(case[0], b_)

    # the definition in its two cases, with the pieces of the file named
    out.append(('definition: inside', [L(x) == o, L(y) == L(b), o >= 0], z3.And(sub_(cc(x, y, z), I(0), o) == x, sub_(cc(x, y, z), o + L(b), L(cc(x, y, z)) - (o + L(b))) == z)))
    out.append(('definition: over the end', [L(x) == o, L(y) <= L(b), o >= 0], z3.And(sub_(cc(x, y), I(0), o) == x, sub_(cc(x, y), o + L(b), L(cc(x, y)) - (o + L(b))) == EMPTY)))
    # length
    out.append(('length: past the end', lens + [L(x) <= o] + zl(o - L(x)), L(spl_def(x, o, b)) == mx(L(x), o + L(b))))
    out.append(('length: inside', lens + [L(x) > o], L(spl_def(x, o, b)) == mx(L(x), o + L(b))))
    # at the same place, over at least as much
    h = lens + [o == p, L(b) >= L(c)]
    f = spl_def
    two = lambda g: f(f(g, p, c), o, b)
    out.append(('again: past the end', h + [L(x) <= p] + zl(p - L(x), I(0)), two(x) == f(x, o, b)))
    for nm, g, extra in (('again: inside', cc(x, y, z), [L(y) == L(b)]), ('again: over the end', cc(x, y, z), [L(y) == L(c), L(z) < L(b) - L(c)]), ('again: both over the end', cc(x, y), [L(y) <= L(c)])):
        out.append((nm, h + [L(x) == p, L(g) > p] + extra + zl(I(0), o - p), two(g) == f(g, o, b)))
    # continuing where the last write ended
    h = lens + [o == p + L(c)]
    go = lambda g: f(g, p, cc(c, b))
    out.append(('next: past the end', h + [L(x) <= p] + zl(p - L(x), I(0)), two(x) == go(x)))
    for nm, g, extra in (('next: inside', cc(x, y, d, z), [L(y) == L(c), L(d) == L(b)]), ('next: over the end', cc(x, y, d), [L(y) == L(c), L(d) < L(b)]), ('next: both over the end', cc(x, y), [L(y) < L(c)])):
        out.append((nm, h + [L(x) == p, L(g) > p] + extra + zl(I(0)), two(g) == go(g)))
    # writing past the end after the gap was filled
    out.append(('filled', lens + [k == o - L(x), k >= 0, L(cc(x, zs(k))) == o] + zl(k, I(0)), z3.And(z3.Implies(L(x) <= o, f(x, o, b) == f(cc(x, zs(k)), o, b)))))
    # the same when a write is pending: c at p, then b at o beyond both
    gap = lambda g, kk: two(g) == f(f(cc(g, zs(kk)), p, c), o, b)
    G, g = x, L(x)
    h = lens + [k >= 0]
    inside = cc(x, y, z)
    out.append(('gap: inside', h + [L(x) == p, L(y) == L(c), L(c) > 0, k == o - L(inside)] + zl(k, I(0)), gap(inside, k)))
    out.append(('gap: nothing inside', h + [L(x) == p, L(c) == 0, L(z) > 0, k == o - L(x) - L(z)] + zl(k, I(0)), gap(cc(x, z), k)))
    u, v = z3.Ints('u v')
    h = h + [k == o - (p + L(c))]
    out.append(('gap: over the end, short', h + [L(x) == p, L(y) > 0, L(y) < L(c), k + L(y) <= L(c)] + zl(k, I(0)), gap(cc(x, y), k)))
    zu, zv = zs(u), zs(v)
    hl = h + [L(x) == p, L(y) > 0, L(y) < L(c), u == L(c) - L(y), v == k - u, v > 0] + zl(u, v)
    out.append(('gap: over the end, long, pending', hl, f(cc(x, y, zu, zv), p, c) == cc(x, c, zv)))
    out.append(('gap: over the end, long, before', hl + zl(I(0)), f(cc(x, y), p, c) == cc(x, c)))
    out.append(('gap: over the end, long, zeros', hl + add(u, v) + add(v, u) + [zs(k) == zs(u + v), zs(v + u) == zs(u + v)], z3.And(zs(k) == cc(zu, zv), zs(k) == cc(zv, zu))))
    out.append(('gap: over the end, long', hl + [zs(k) == cc(zv, zu), zs(o - L(cc(x, c))) == zs(k), zs(o - L(cc(x, c, zv))) == zu], f(cc(x, c), o, b) == f(cc(x, c, zv), o, b)))
    h = h + [L(x) <= p]
    out.append(('gap: past the end, short', h + [g + k <= p, u == p - g - k] + add(k, u) + [zs(p - g) == zs(k + u)] + zl(k, p - g, I(0)), gap(x, k)))
    w = z3.Int('w')
    h = h + [u == p - g, v == k - u, v > 0] + add(u, v) + [zs(k) == zs(u + v)]
    out.append(('gap: past the end, within the write', h + [v <= L(c)] + zl(k, p - g, I(0)), f(f(x, p, c), o, b) == f(f(cc(x, zs(u), zs(v)), p, c), o, b)))
    cl = L(c)
    hl = h + [v > cl, w == v - cl] + zl(u, v, w, cl, p + cl - g)
    zc, zw, zr = zs(cl), zs(w), zs(p + cl - g)
    fl = cc(x, zu, zc, zw)
    pl_ = hl + [L(zu) == p - L(x), L(zc) == L(c), L(zw) == w, L(fl) > p]
    out.append(('gap: past the end, beyond the write, pending, first part', pl_, sub_(fl, I(0), p) == cc(x, zu)))
    out.append(('gap: past the end, beyond the write, pending, lengths', pl_, z3.And(p + cl == L(cc(x, zu, zc)), L(fl) - (p + cl) == L(zw))))
    out.append(('gap: past the end, beyond the write, pending, last part', [], sub_(fl, L(cc(x, zu, zc)), L(zw)) == zw))
    at = [p + cl == L(cc(x, zu, zc)), L(fl) - (p + cl) == L(zw)]
    out.append(('gap: past the end, beyond the write, pending, the rest', at + [sub_(fl, L(cc(x, zu, zc)), L(zw)) == zw], sub_(fl, p + cl, L(fl) - (p + cl)) == zw))
    out.append(('gap: past the end, beyond the write, pending', pl_ + [sub_(fl, I(0), p) == cc(x, zu), sub_(fl, p + cl, L(fl) - (p + cl)) == zw], f(fl, p, c) == cc(x, zu, c, zw)))
    out.append(('gap: past the end, beyond the write, before', hl + [zs(p - L(x)) == zu], f(x, p, c) == cc(x, zu, c)))
    out.append(('gap: past the end, beyond the write, zeros', hl + add(u, v) + add(cl, w) + add(w, p + cl - g) + [zs(v) == zs(cl + w), zs(k) == zs(w + (p + cl - g))], z3.And(zs(k) == cc(zu, zc, zw), zs(k) == cc(zw, zr))))
    out.append(('gap: past the end, beyond the write', hl + [zs(k) == cc(zw, zr), zs(o - L(cc(x, zu, c))) == zs(k), zs(o - L(cc(x, zu, c, zw))) == zr], f(cc(x, zu, c), o, b) == f(cc(x, zu, c, zw), o, b)))
    return out


LEMMAS.append(('writing over a file', lemma_spl))


@specfn
def buf(dm):
    """bytes written and not yet flushed"""
    b = dm.wrBuf
    return z3.If(b.v == 0, EMPTY, b.bbuf)


@specfn
def F(dm):
    """content of the flushed file"""
    return fc(ncid(dm.curNode))


@specfn
def curok(dm):
    """the current node is that of a well-formed plain file whose parts are stored"""
    n = dm.curNode
    return z3.And(dm.v != 0, dm.dagserv.v != 0, dm.ctx.v != 0, dm.splitter.v != 0, nodeok(n), typed(n), wf(ncid(n)), pl(ncid(n)), durr(n.lc, 0, n.ln), z3.Not(iofail(dm)), dlinks(dm))


@specfn
def dlinks(dm):
    v = dm.E.load_key(dm.E.cur, 'C:int', dm.E.gref(H + '.DefaultLinksPerBlock'), 'int')
    return z3.And(1 <= v, v < 2 ** 40)


@specfn
def noread(dm):
    return dm.read.v == 0


@specfn
def wrok(dm):
    """position and pending bytes"""
    ws, co = dm.writeStart, dm.curWrOff
    return z3.And(co == ws + L(buf(dm)), co < 2 ** 48)


@specfn
def readok(dm):
    """an open reader reads the current file at the current position"""
    r = asdr(dm.read)
    return z3.Implies(r.v != 0, z3.And(dm.wrBuf.v == 0, dm.readCancel.v != 0, isdr(dm.read), drs(r), drgood(r), r.dagWalker.wF == F(dm), drfile(r), r.offset == dm.curWrOff))


@specfn
def dmok(dm):
    return z3.And(curok(dm), wrok(dm), readok(dm))


@specfn
def lfile(dm):
    """the file as the modifier's user sees it"""
    return z3.If(dm.wrBuf.v == 0, F(dm), spl(F(dm), unw(dm.writeStart), buf(dm)))


# ---------------------------------------------------------------- bytes.Buffer, io.LimitReader, chunker (trusted)
PBUF = '*bytes.Buffer'
ghost('bbuf', BYTES)     # bytes.Buffer: its unread bytes
NILFREE.update(('bbuf', 'brest'))
ghost('rdat', BYTES)     # io.Reader: what it will deliver
ALLOCHOOKS['bytes.Buffer'] = lambda E, st, r: E.wr(st, 'G:bbuf', r, EMPTY, check=False)


def bb(E, st, r, line):
    E.nilcheck(st, r, line)
    b = E.rd(st, 'G:bbuf', r)
    st.assume(L(b) <= MAXLEN)
    return b


@model('(%s).Len' % PBUF)
def m_buflen(E, st, args, ins):
    return [(st, L(bb(E, st, args[0], ins.get('line'))))]


@model('(%s).Reset' % PBUF)
def m_bufreset(E, st, args, ins):
    bb(E, st, args[0], ins.get('line'))
    E.wr(st, 'G:bbuf', args[0], EMPTY)
    return [(st, tup())]


@model('(%s).Write' % PBUF)
def m_bufwrite(E, st, args, ins):
    r, p = args
    b = bb(E, st, r, ins.get('line'))
    E.wr(st, 'G:bbuf', r, z3.Concat(b, S(z3.If(p.len == 0, EMPTY, E.bytes_of(st, p)))))
    return [(st, tup(p.len, I(0)))]


@model('(%s).Read' % PBUF)
def m_bufread(E, st, args, ins):
    r, out = args
    b = bb(E, st, r, ins.get('line'))
    n = E.copy(st, out, b, ins)
    E.wr(st, 'G:bbuf', r, z3.Extract(b, n, L(b) - n))
    e = z3.Int(fresh_name('rerr'))
    st.assume(e == z3.If(z3.And(L(b) == 0, out.len > 0), E.gref('io.EOF'), I(0)))
    return [(st, tup(n, e))]


def reader_content(E, st, r):
    """what reading r to its end delivers; r is given away"""
    if E.prove(st, dyn(r) == E.P.dynid(PBUF), 60):
        b = E.rd(st, 'G:bbuf', r)
        E.wr(st, 'G:bbuf', r, z3.Const(fresh_name('left'), BYTES))
        return b
    return E.rd(st, 'G:rdat', r)


@model('io.LimitReader')
def m_limitreader(E, st, args, ins):
    r, n = args
    E.nilcheck(st, r, ins.get('line'))
    x = E.new_ref(st, 'lim')
    d = zeros(n) if E.prove(st, dyn(r) == E.P.dynid(MO + '.zeroReader'), 60) else z3.Const(fresh_name('lim'), BYTES)
    E.wr(st, 'G:rdat', x, d, check=False)
    return [(st, x)]


CH = 'github.com/ipfs/go-ipfs-chunker'


@model(CH + '.NewSizeSplitter')
def m_sizesplitter(E, st, args, ins):
    r, n = args
    E.nilcheck(st, r, ins.get('line'))
    E.oblige(st, 'positive chunk size', 'safety', n > 0, ins.get('line'))
    x = E.new_ref(st, 'spl')
    E.wr(st, 'G:srest', x, reader_content(E, st, r), check=False)
    return [(st, x)]


def fv_splitter(E, st, ins, callee, args):
    """a splitter generator: the splitter delivers the reader's content"""
    x = E.new_ref(st, 'spl')
    E.wr(st, 'G:srest', x, reader_content(E, st, args[0]), check=False)
    return [(st, x)]


FUNCSIG['func(r io.Reader) %s.Splitter' % CH] = fv_splitter
FUNCSIG['func()'] = lambda E, st, ins, callee, args: [(st, tup())]


# ---------------------------------------------------------------- contracts
def cur_mods(E, env):
    n = env['dm'].curNode
    return [('G:' + k, n.v) for k in ('lc', 'lnm', 'ln', 'nd', 'stale')] + [('G:iofail', IOG)]


def buf_mods(E, env):
    return [('G:bbuf', env['dm'].wrBuf.v)]


DM_SYNC = ['dm.curNode', 'dm.read', 'dm.writeStart', 'dm.wrBuf', cur_mods, buf_mods]
CANCEL = ('cancel', 'implies(dm.read != None, dm.readCancel != None)')

Contract('(%s.zeroReader).Read' % MO, 'zr b', 'n err',
         modifies=[lambda E, env: [('E:byte', env['b'].v.base)]],
         ensures=[('all', 'err == None and n == seqlen(b)'), ('zeros', 'bytes_(b) == zeros(seqlen(b))')],
         loops=[LoopSpec(inv=[('zeros', '0 <= ix and ix <= seqlen(b) and sub(bytes_(b), 0, ix) == zeros(ix)')])])
Contract(DM + 'appendData', 'dm nd spl', 'r err',
         requires=['dm != None and dm.dagserv != None and spl != None and dlinks(dm) and not iofail(dm)', FILE.replace('%s', 'nd'), 'durr(nd.lc, 0, nd.ln)', 'seqlen(spl.srest) < 2**48'],
         modifies=[IOM, own_node('nd'), 'spl.srest'],
         ensures=[('node', 'implies(err == None, nodeok(r) and typed(r))'), ('sizes', 'implies(err == None, wf(ncid(r)))'),
                  ('content', 'implies(err == None, fc(ncid(r)) == old(cat(fc(ncid(nd)), spl.srest)))'),
                  ('noio', 'implies(err == None, not iofail(dm))'), ('kept', 'implies(err == None, durr(r.lc, 0, r.ln))'), ('plain', 'implies(err == None, pl(ncid(r)))'), ('own', 'implies(err == None, sameref(r, nd) or fresh(r))')])
Contract(DM + 'setNode', 'dm nd', '', requires=['dm != None', CANCEL], modifies=['dm.curNode', 'dm.read'],
         ensures=[('node', 'sameref(dm.curNode, nd)'), ('closed', 'dm.read == None')])
Contract(DM + 'expandSparse', 'dm size', 'err', requires=['curok(dm)', CANCEL, '0 <= size and size < 2**48'],
         modifies=['dm.curNode', 'dm.read', cur_mods],
         ensures=[('node', 'implies(err == None, curok(dm))'), ('zeros', 'implies(err == None, F(dm) == old(cat(F(dm), zeros(size))))'), ('closed', 'implies(err == None, dm.read == None)'),
                  ('cancel', 'implies(dm.read != None, old(dm.read) != None)'), ('own', 'implies(err == None, sameref(dm.curNode, old(dm.curNode)) or fresh(dm.curNode))')])

M48 = 'seqlen(b) < 2**48 and dm.curWrOff + seqlen(b) < 2**47'
Contract(DM + 'modifyDag', 'dm n offset', 'r err',
         requires=['dm != None and dm.dagserv != None and dm.ctx != None and dm.wrBuf != None and not iofail(dm)', FILE.replace('nodeok', 'nodeany').replace('%s', 'n'), 'durr(n.lc, 0, n.ln)', 'offset <= seqlen(fc(ncid(n)))', 'seqlen(dm.wrBuf.bbuf) < 2**48'],
         modifies=[IOM, buf_mods], rank='rk(ncid(n))',
         ensures=[('written', 'implies(err == None, fc(r) == old(over(fc(ncid(n)), offset, dm.wrBuf.bbuf)))'),
                  ('remains', 'implies(err == None, dm.wrBuf.bbuf == old(left(fc(ncid(n)), offset, dm.wrBuf.bbuf)))'),
                  ('sizes', 'implies(err == None, wf(r))'), ('plain', 'implies(err == None, pl(r))'), ('kind', 'implies(err == None, ckind(r) <= 1)'),
                  ('kept', 'implies(err == None, dur(r))'), RPT],
         loops=[LoopSpec(inv=[('copied', '0 <= ix and ix <= node.ln and eqr(linkcids(links), node.lc, 0, ix)'), ('held', 'linksown(links)'), ('read', 'iofail(dm) == entry(iofail(dm))')]),
                LoopSpec(inv=[('at', '0 <= ix and ix <= node.ln and cur == sumr(bsa(fsn), 0, ix) and offset == mxx(in_offset, cur)'),
                              ('node', 'isproto(node) and not node.stale and node.lown and node.ln == n.ln and node.nd == n.nd'),
                              ('sizes', 'wfr(node.lc, bsa(fsn), 0, node.ln)'), ('plain', 'plr(node.lc, 0, node.ln)'), ('kept', 'durr(node.lc, 0, node.ln)'), ('rank', 'rkr(node.lc, rk(ncid(n)), ix, node.ln)'),
                              ('done', 'catr(node.lc, 0, ix) == overpre(fc(ncid(n)), in_offset, entry(dm.wrBuf.bbuf), cur)'),
                              ('todo', 'catr(node.lc, ix, node.ln) == sub(fc(ncid(n)), cur, seqlen(fc(ncid(n))) - cur)'),
                              ('room', 'implies(cur > in_offset, cur - in_offset <= seqlen(entry(dm.wrBuf.bbuf)))'), ('remains', 'dm.wrBuf.bbuf == leftpre(in_offset, entry(dm.wrBuf.bbuf), cur)'),
                              ('read', 'iofail(dm) == entry(iofail(dm))')])])

Contract(DM + 'Sync', 'dm', 'err', requires=['dmok(dm)'], modifies=DM_SYNC,
         ensures=[('usable', 'implies(err == None, dmok(dm))'), ('own', 'implies(err == None, sameref(dm.curNode, old(dm.curNode)) or fresh(dm.curNode))'), ('flushed', 'implies(err == None, dm.wrBuf == None)'), ('reader', 'sameref(dm.read, old(dm.read)) or dm.read == None'), ('failed', 'implies(err != None, dm.wrBuf != None)'),
                  ('logical', 'implies(err == None, F(dm) == old(lfile(dm)))'), ('stands', 'dm.curWrOff == old(dm.curWrOff)'),
                  ('unchanged', 'implies(err == None and old(dm.wrBuf == None), sameref(dm.curNode, old(dm.curNode)) and sameref(dm.read, old(dm.read)))')])


def over_(F, o, b):
    """F with the part of b that fits written over it at o"""
    m = S(z3.If(L(b) <= L(F) - o, L(b), L(F) - o))
    return z3.Concat(sub_(F, I(0), o), sub_(b, I(0), m), sub_(F, o + m, L(F) - o - m))


def left_(F, o, b):
    m = z3.If(L(b) <= L(F) - o, L(b), L(F) - o)
    return sub_(b, m, L(b) - m)


SPECFN['over'] = lambda F, o, b: over_(unw(F), unw(o), unw(b))
SPECFN['left'] = lambda F, o, b: left_(unw(F), unw(o), unw(b))


SPECFN['mxx'] = lambda a, b: mx(unw(a), unw(b))


def used(o, cur):
    """bytes of the pending data that went before cur"""
    return S(z3.If(cur > o, cur - o, I(0)))


SPECFN['overpre'] = lambda F, o, b, cur: z3.Concat(sub_(unw(F), I(0), S(z3.If(unw(cur) <= unw(o), unw(cur), unw(o)))), sub_(unw(b), I(0), used(unw(o), unw(cur))))
SPECFN['leftpre'] = lambda o, b, cur: sub_(unw(b), used(unw(o), unw(cur)), L(unw(b)) - used(unw(o), unw(cur)))


@specfn
def linksown(s):
    """the links of a slice are its own"""
    E, b = s.E, s.v.base
    return z3.And(E.rd(E.cur, 'G:lko', b), z3.Not(E.rd(E.cur, 'G:lkg', b)))


@specfn
def wlen(dm):
    """the position stays where sizes cannot overflow"""
    return z3.And(unw(dm) < 2 ** 47)


def wrote(off):
    """what writing b at off makes of the file"""
    return [('logical', 'implies(err == None and old(dm.wrBuf == None), lfile(dm) == spl(old(F(dm)), old(%s), old(bytes_(b))))' % off),
            ('over', 'implies(err == None and old(dm.wrBuf != None), lfile(dm) == spl(spl(old(F(dm)), old(dm.writeStart), old(buf(dm))), old(%s), old(bytes_(b))))' % off),
            ('stands', 'implies(err == None, dm.curWrOff == old(%s) + seqlen(b))' % off), ('taken', 'implies(err == None, n == seqlen(b))')]


Contract(DM + 'Write', 'dm b', 'n err', requires=['curok(dm) and wrok(dm) and (dm.wrBuf == None or dm.read == None)', 'seqlen(b) < 2**46 and dm.curWrOff < 2**46'], modifies=DM_SYNC + ['dm.curWrOff'],
         ensures=[('usable', 'implies(err == None, dmok(dm))'), ('own', 'implies(err == None, sameref(dm.curNode, old(dm.curNode)) or fresh(dm.curNode))')] + wrote('dm.curWrOff'))
Contract(DM + 'Size', 'dm', 'r err', requires=['curok(dm) and wrok(dm)'], ensures=[('size', 'err == None and r == seqlen(lfile(dm))')])
Contract(DM + 'WriteAt', 'dm b offset', 'n err', requires=['dmok(dm)', 'seqlen(b) < 2**46 and dm.curWrOff < 2**46 and offset < 2**46'], modifies=DM_SYNC + ['dm.curWrOff'],
         ensures=[('usable', 'implies(err == None, dmok(dm))'), ('own', 'implies(err == None, sameref(dm.curNode, old(dm.curNode)) or fresh(dm.curNode))'), ('refused', 'implies(offset < 0, err != None)')] + wrote('offset'))


def dmr_mods(E, env):
    """the open reader, if any"""
    r = asdr(env['dm'].read)
    w = r.dagWalker
    out = [('G:' + k, w.v) for k in ('wrest', 'wtop', 'wc', 'wi', 'wn', 'waft', 'wpause')] + [('G:iofail', IOG)] + [('G:brest', r.currentNodeData.v)]
    return out + E.modkeys(r, 'currentNodeData') + E.modkeys(r, 'offset') + E.modkeys(r, 'dagWalker')


def b_mods(E, env):
    return [('E:byte', env['b'].v.base)]


DM_READ = DM_SYNC + ['dm.readCancel', 'dm.curWrOff', dmr_mods]
OWN = ('own', 'implies(err == None, sameref(dm.curNode, old(dm.curNode)) or fresh(dm.curNode))')
Contract(DM + 'readPrep', 'dm', 'err', requires=['dmok(dm)'], modifies=DM_SYNC + ['dm.readCancel'],
         ensures=[('usable', 'implies(err == None, dmok(dm) and dm.wrBuf == None and dm.read != None)'), OWN, ('logical', 'implies(err == None, F(dm) == old(lfile(dm)))'), ('stands', 'dm.curWrOff == old(dm.curWrOff)'), ('failed', 'implies(err != None, dm.read == None or dm.wrBuf != None)'),
                  ('reader', 'implies(err == None, sameref(dm.read, old(dm.read)) or (fresh(asdr(dm.read)) and fresh(asdr(dm.read).dagWalker) and (asdr(dm.read).currentNodeData == None or fresh(asdr(dm.read).currentNodeData))))')])

RD_ENS = [('usable', 'implies(not iofail(dm) and (err == None or (isglob(err, "io.EOF") and dm.read != None and dm.wrBuf == None)), dmok(dm) and dm.wrBuf == None)'), ('amount', 'implies(not iofail(dm), 0 <= n and n <= seqlen(b))'),
          ('same', 'implies(not iofail(dm) and (err == None or (isglob(err, "io.EOF") and dm.read != None and dm.wrBuf == None)), F(dm) == old(lfile(dm)))'),
          ('bytes', 'implies(not iofail(dm) and (err == None or (isglob(err, "io.EOF") and dm.read != None and dm.wrBuf == None)), sub(bytes_(b), 0, n) == sub(old(lfile(dm)), old(dm.curWrOff), n) and (n == 0 or old(dm.curWrOff) + n <= seqlen(old(lfile(dm)))))'),
          ('ahead', 'implies(not iofail(dm) and (err == None or (isglob(err, "io.EOF") and dm.read != None and dm.wrBuf == None)), dm.curWrOff == old(dm.curWrOff) + n)'),
          ('ateof', 'implies(not iofail(dm) and isglob(err, "io.EOF") and dm.read != None and dm.wrBuf == None, dm.curWrOff >= seqlen(F(dm)))'), ('partial', 'implies(n < seqlen(b), err != None)')]
Contract(DM + 'Read', 'dm b', 'n err', requires=['dmok(dm)', 'seqlen(b) < 2**46 and dm.curWrOff < 2**46'], modifies=DM_READ + [b_mods], ensures=RD_ENS)
Contract(DM + 'CtxReadFull', 'dm ctx b', 'n err', requires=['dmok(dm)', 'ctx != None', 'seqlen(b) < 2**46 and dm.curWrOff < 2**46'], modifies=DM_READ + [b_mods], ensures=RD_ENS)


@specfn
def target(dm, off, wh):
    """where a seek goes"""
    b = z3.If(unw(wh) == 1, unw(dm.curWrOff), z3.If(unw(wh) == 2, L(lfile(dm)), I(0)))
    return b + unw(off)


@specfn
def grown(f, n):
    """f, extended with zeros to n bytes when it is shorter"""
    f, n = unw(f), unw(n)
    return z3.If(L(f) >= n, f, z3.Concat(f, zeros(S(n - L(f)))))


@specfn
def resized(f, n):
    f, n = unw(f), unw(n)
    return z3.If(L(f) >= n, sub_(f, I(0), n), z3.Concat(f, zeros(S(n - L(f)))))


Contract(DM + 'Seek', 'dm offset whence', 'r err', requires=['dmok(dm)', 'dm.curWrOff < 2**46 and target(dm, offset, whence) < 2**46 and offset > -2**62 and offset < 2**62'], modifies=DM_READ,
         ensures=[('usable', 'implies(err == None, dmok(dm) and dm.wrBuf == None)'), OWN, ('moved', 'implies(err == None, r == old(target(dm, offset, whence)) and dm.curWrOff == r and r >= 0)'),
                  ('same', 'implies(err == None, F(dm) == grown(old(lfile(dm)), dm.curWrOff))'), ('whence', 'implies(whence < 0 or whence > 2, err != None)')])
Contract(DM + 'Truncate', 'dm size', 'err', requires=['dmok(dm)', 'size < 2**46 and dm.curWrOff < 2**46'], modifies=DM_SYNC,
         ensures=[('usable', 'implies(err == None, dmok(dm) and dm.wrBuf == None)'), OWN, ('resized', 'implies(err == None, F(dm) == resized(old(lfile(dm)), size))'), ('refused', 'implies(size < 0, err != None)'),
                  ('nochange', 'implies(err == None and size == seqlen(old(lfile(dm))) and old(dm.wrBuf == None), sameref(dm.curNode, old(dm.curNode)))'), ('stands', 'dm.curWrOff == old(dm.curWrOff)')])
Contract(DM + 'GetNode', 'dm', 'r err', requires=['dmok(dm)'], modifies=DM_SYNC,
         ensures=[('usable', 'implies(err == None, dmok(dm) and dm.wrBuf == None)'), OWN, ('node', 'implies(err == None, nodeok(r) and typed(r) and fresh(r))'), ('handed', 'implies(err == None, fc(ncid(r)) == old(lfile(dm)))'), ('sizes', 'implies(err == None, wf(ncid(r)))'),
                  ('kept', 'implies(err == None, durr(r.lc, 0, r.ln))')])
Contract(DM + 'HasChanges', 'dm', 'r', requires=['dm != None'], ensures=[('pending', 'r == (dm.wrBuf != None)')])
Contract(MO + '.NewDagModifier', 'ctx n serv spl', 'r err', requires=['n != None'],
         ensures=[('usable', 'implies(err == None and ctx != None and serv != None and spl != None and dlinks(n) and not iofail(n) and %s and durr(n.lc, 0, n.ln), dmok(r) and r.wrBuf == None and r.curWrOff == 0 and F(r) == fc(ncid(n)))' % FILE.replace('%%s', 'n').replace('%s', 'n')),
                  ('copy', 'implies(err == None, fresh(r) and fresh(r.curNode))'), ('accepts', '(err == None) == (isproto(n) or israw(n))')])
