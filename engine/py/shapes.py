"""Rigid predicates over the DAG below an identifier: balanced shape, height,
filestore tiling.  Each is defined by a one-level unfolding; the inductive
lemmas used about them are proved (LEMMAS) on every run."""
from spec import *

full = z3.Function('full', IntS, IntS, IntS, BoolS)     # cid, depth, max links: complete tree of that depth
bal = z3.Function('bal', IntS, IntS, IntS, BoolS)       # complete except on the rightmost path
hgt = z3.Function('hgt', IntS, IntS)                    # height along first links
sref = z3.Function('sref', IntS, BYTES, IntS, BoolS)    # a reference (path, offset) for this leaf was stored
tile = z3.Function('tile', IntS, BYTES, IntS, BoolS)    # raw leaves below reference consecutive pieces from the offset on

fullr = Fold('fullr', [ARR], [IntS, IntS], 'and', lambda e, p: full(e[0], p[0], p[1]))
tiler = Fold('tiler', [ARR], [BYTES, IntS], 'and', lambda e, p, arrs, i: tile(e[0], p[0], p[1] + z3.Length(catr(arrs[0], 0, i))), prefix=True)

S = z3.simplify


def full_def(c, d, M):
    return z3.If(d <= 0, pln(c) == 0, z3.And(pln(c) == M, fullr(plc(c), S(d - 1), M, 0, pln(c))))


def bal_def(c, d, M):
    n = pln(c)
    return z3.If(d <= 0, n == 0, z3.And(1 <= n, n <= M, fullr(plc(c), S(d - 1), M, 0, S(n - 1)), bal(z3.Select(plc(c), n - 1), S(d - 1), M)))


def hgt_def(c):
    return z3.If(pln(c) == 0, I(0), 1 + hgt(z3.Select(plc(c), 0)))


def un_full(e):
    c, d, M = e.children()
    return [e == full_def(c, d, M), z3.Implies(z3.And(e, d >= 0, M >= 1), z3.And(bal(c, d, M), hgt(c) == d))]


def un_bal(e):
    c, d, M = e.children()
    return [e == bal_def(c, d, M), z3.Implies(z3.And(e, d >= 0, M >= 1), hgt(c) == d)]


UNFOLD['full'] = un_full
UNFOLD['bal'] = un_bal
UNFOLD['hgt'] = lambda e: [e == hgt_def(e.arg(0)), pln(e.arg(0)) >= 0, e >= 0]
UNFOLD['tile'] = lambda e: [e == z3.If(craw(e.arg(0)), sref(e.arg(0), e.arg(1), e.arg(2)), tiler(plc(e.arg(0)), e.arg(1), e.arg(2), 0, pln(e.arg(0))))]


def lemma_shape():
    """full => bal and bal => height, by induction on the depth"""
    c, d, M = z3.Ints('c d M')
    c0, cl = z3.Select(plc(c), 0), z3.Select(plc(c), pln(c) - 1)
    n = pln(c)

    def ih(x):     # induction hypothesis at depth d-1
        return [z3.Implies(full(x, d - 1, M), z3.And(bal(x, d - 1, M), hgt(x) == d - 1)), z3.Implies(bal(x, d - 1, M), hgt(x) == d - 1)]
    base = [M >= 1, pln(c) >= 0]
    folds = lambda lo, hi: fullr(plc(c), d - 1, M, lo, hi)
    split = [z3.Implies(n >= 1, folds(0, n) == z3.And(folds(0, n - 1), full(cl, d - 1, M))),
             z3.Implies(n >= 2, folds(0, n - 1) == z3.And(full(c0, d - 1, M), folds(1, n - 1))), z3.Implies(n == 1, c0 == cl)]
    out = []
    for nm, P in (('full', full), ('bal', bal)):
        df = full_def(c, d, M) if nm == 'full' else bal_def(c, d, M)
        goal = hgt_def(c) == d if nm == 'bal' else z3.And(bal_def(c, d, M), hgt_def(c) == d)
        out.append((nm + ': depth 0', base + [d == 0, df], goal))
        out.append((nm + ': step', base + [d > 0, df] + ih(c0) + ih(cl) + split, goal))
    return out


LEMMAS.append(('shape of balanced trees', lemma_shape))
for _n, _f in dict(full=full, bal=bal, hgt=hgt, sref=sref, tile=tile, fullr=fullr, tiler=tiler).items():
    SPECFN[_n] = _f


def m_add2(E, st, args, ins):
    outs = m_add(E, st, args, ins)
    n = args[2]
    for s, err in outs:
        c = cid_of(E, s, n)
        s.assume(z3.Implies(z3.And(err == 0, nf(E, s, 'fspath', n) != EMPTY), sref(c, nf(E, s, 'fspath', n), nf(E, s, 'fsoff', n))))
    return outs


for _n in ('(%s.DAGService).Add' % IF, '(%s.NodeAdder).Add' % IF):
    MODELS[_n] = m_add2


@specfn
def room(db):
    """the remaining input is of a size whose arithmetic cannot overflow"""
    r = rest(db)
    return z3.Or(db.recvdErr.v != 0, z3.And(z3.Length(r) < 2 ** 48, db.offset + z3.Length(r) < 2 ** 62))


@specfn
def fcont0(n):
    return z3.If(n.v == 0, EMPTY, fcont(n))


@specfn
def nodata(n):
    return fs_data(n.file) == EMPTY


@specfn
def refmode(db):
    """no-copy import with raw leaves"""
    return z3.And(db.rawLeaves, db.fullPath != EMPTY)


@specfn
def ownbase(n, m):
    """n's size list lives in m's original storage or in new storage"""
    E = n.E
    b = fs_bslice(n.file).base
    def th():
        return fs_bslice(m.file).base
    return z3.Or(b == 0, b > E.A0, z3.And(m.v != 0, b == E._entry(th)))


def fn_mods0(name):
    """fn_mods of a possibly nil node"""
    f = fn_mods(name)

    def g(E, env):
        n = env[name]
        if is_const_int(n.v) and n.v.as_long() == 0:
            return [('G:iofail', IOG)]
        return f(E, env)
    return g


@specfn
def tiledobj(n, path, off):
    """what storing node n makes tile(its cid, path, off) true"""
    return z3.If(n.nkind == 1, z3.And(n.fspath == path, n.fsoff == off), tiler(n.lc, path, unw(off), 0, n.ln))


# ---------------------------------------------------------------- trickle shape
vtd = z3.Function('vtd', IntS, IntS, IntS, IntS, BoolS, BoolS)   # cid, depth, direct links, group size, raw leaves: accepted by the structure rules
tfull = z3.Function('tfull', IntS, IntS, IntS, BoolS, BoolS)     # cid, depth, direct links, raw leaves: completely full
trk = z3.Function('trk', IntS, IntS, IntS, BoolS, BoolS)         # every slot before the last used one is full


def tleaf(c, R):
    return z3.And(pln(c) == 0, craw(c) == R, ckind(c) <= 1, ckind(c) >= 0, z3.Or(R, z3.And(pbok(pnd(c)), d_type(pnd(c)) == 0)))


def tinner(c):
    return z3.And(ckind(c) == 0, pbok(pnd(c)), d_type(pnd(c)) == 2, d_data(pnd(c)) == EMPTY)


def grp(i, M, LR):
    return (i - M) / LR + 1


tlr = Fold('tlr', [ARR], [BoolS], 'and', lambda e, p: tleaf(e[0], p[0]))
tfr = Fold('tfr', [ARR], [IntS, BoolS], 'and', lambda e, p, arrs, i: tfull(e[0], grp(i, p[0], 4), p[0], p[1]), prefix=True)
vtr = Fold('vtr', [ARR], [IntS, IntS, IntS, BoolS], 'and', lambda e, p, arrs, i: z3.And(z3.Or(p[0] <= 0, grp(i, p[1], p[2]) < p[0]), vtd(e[0], grp(i, p[1], p[2]), p[1], p[2], p[3])), prefix=True)


def mn(a, b):
    return z3.If(unw(a) < unw(b), unw(a), unw(b))


def lf(lc, n, M, R):
    lc, n, M, R = unw(lc), unw(n), unw(M), unw(R)
    return z3.And(tlr(lc, R, 0, mn(n, M)), z3.Or(n <= M, z3.And(tfr(lc, M, R, M, S(n - 1)), trk(z3.Select(lc, S(n - 1)), grp(S(n - 1), M, 4), M, R))))


def vt_def(c, d, M, LR, R):
    n = pln(c)
    return z3.If(d == 0, tleaf(c, R), z3.And(tinner(c), tlr(plc(c), R, 0, mn(n, M)), vtr(plc(c), d, M, LR, R, M, n)))


UNFOLD['vtd'] = lambda e: [e == vt_def(*e.children())]
UNFOLD['tfull'] = lambda e: [e == (lambda c, d, M, R: z3.And(tinner(c), pln(c) == M + 4 * (d - 1), tlr(plc(c), R, 0, M), tfr(plc(c), M, R, M, pln(c))))(*e.children())]
UNFOLD['trk'] = lambda e: [e == (lambda c, d, M, R: z3.And(tinner(c), z3.Or(d == -1, pln(c) <= M + 4 * (d - 1)), lf(plc(c), pln(c), M, R)))(*e.children())]
for _n, _f in dict(vtd=vtd, tfull=tfull, trk=trk, tleaf=tleaf, tinner=tinner, grp=grp, tlr=tlr, tfr=tfr, vtr=vtr, mn=mn, lf=lf).items():
    SPECFN[_n] = _f


@specfn
def typed(n):
    """the dynamic type of the node tells its kind"""
    P = n.E.P
    return z3.And((dyn(n.v) == P.dynid(PPN)) == (n.nkind == 0), (dyn(n.v) == P.dynid(PRN)) == (n.nkind == 1))


@specfn
def vtlr(lc, p, depth, i):
    """the first i links satisfy the structure rules"""
    M, LR, R = p.Direct, p.LayerRepeat, p.RawLeaves
    return z3.And(tlr(lc, R, 0, mn(i, M)), vtr(lc, unw(depth), M, LR, R, M, unw(i)))


@specfn
def tileable(db, n):
    """the children so far reference the file right up to the current offset"""
    return z3.And(nodata(n), db.offset >= z3.Length(fcont(n)), tiler(n.dag.lc, db.fullPath, db.offset - z3.Length(fcont(n)), 0, n.dag.ln))


# ---------------------------------------------------------------- height along last links (a measure: DAGs are finite)
hlc = z3.Function('hlc', IntS, IntS)


@specfn
def hl(lc, n):
    lc, n = unw(lc), unw(n)
    return z3.If(n <= 0, I(0), 1 + hlc(z3.Select(lc, n - 1)))


UNFOLD['hlc'] = lambda e: [e == hl(plc(e.arg(0)), pln(e.arg(0))), e >= 0]

# ---------------------------------------------------------------- any measure of the DAG below an identifier (DAGs are finite)
rk = z3.Function('rk', IntS, IntS)
SPECFN['rk'] = rk
UNFOLD['rk'] = lambda e: [e >= 0]


@(lambda f: (ELEMHOOKS.append(f), f)[1])
def h_rank(E, st, base, j, et, v):
    rec = st.info.get(('lkel', v.get_id())) if z3.is_expr(v) else None
    if rec is None or ('lkrk', v.get_id()) in st.info or CONTRACTS.get(E.fn) is None or CONTRACTS[E.fn].rank is None or 'rk(' not in CONTRACTS[E.fn].rank.src:
        return
    st.info[('lkrk', v.get_id())] = (v, )
    n, j, v, lc, c = rec
    st.assume(z3.Implies(z3.And(j >= 0, j < pln(c)), rk(z3.Select(lc, j)) < rk(c)))

rkr = Fold('rkr', [ARR], [IntS], 'and', lambda e, p: rk(e[0]) < p[0])
SPECFN['rkr'] = rkr


def h_rankall(E, st, c):
    k = CONTRACTS.get(E.fn)
    if k is not None and k.rank is not None and 'rk(' in k.rank.src and any('rkr(' in cl.src for l in k.loops for cl in l.inv):
        st.assume(rkr(plc(c), rk(c), 0, pln(c)))


CIDHOOKS.append(h_rankall)

# ---------------------------------------------------------------- plain file DAGs: inner nodes hold no data of their own
pl = z3.Function('pl', IntS, BoolS)
plr = Fold('plr', [ARR], [], 'and', lambda e, p: pl(e[0]))


def pl_def(data, n, links):
    return z3.And(z3.Or(n == 0, d_data(data) == EMPTY), plr(links, 0, n))


CIDHOOKS.append(lambda E, st, c: st.assume(pl(c) == z3.Or(craw(c), pl_def(pnd(c), pln(c), plc(c)))))
SPECFN.update(pl=pl, plr=plr)


@specfn
def plx(n):
    """an FSNodeOverDag of a plain file"""
    d, f = n.dag, n.file
    return z3.And(plr(d.lc, 0, d.ln), z3.Or(d.ln == 0, fs_data(f) == EMPTY))


@specfn
def plain0(n):
    """... ready to get children: no data of its own"""
    d, f = n.dag, n.file
    return z3.And(plr(d.lc, 0, d.ln), fs_data(f) == EMPTY)
