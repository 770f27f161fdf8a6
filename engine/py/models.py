"""Trusted contracts of external dependencies (and the ghost vocabulary they use).

Everything in this file is assumed, not proved.  Each model is counted in the
evidence when a function under contract relies on it.
"""
from machine import *
import machine

PBD = U + '/pb.Data'
PBM = U + '/pb.Metadata'
MD = 'github.com/ipfs/go-merkledag'
IF = 'github.com/ipfs/go-ipld-format'
PN = MD + '.ProtoNode'
RN = MD + '.RawNode'
PPN, PRN = '*' + PN, '*' + RN
LINK = IF + '.Link'
PLINK = '*' + LINK
FSN = '*github.com/ipfs/go-ipfs-posinfo.FilestoreNode'
POSN = 'github.com/ipfs/go-ipfs-posinfo.FilestoreNode'
POSI = 'github.com/ipfs/go-ipfs-posinfo.PosInfo'
NARR = z3.ArraySort(IntS, BYTES)

# ---------------------------------------------------------------- ghost state
ghost('lc', ARR)        # node: child cids by index
ghost('lnm', NARR)      # node: link names by index
ghost('ln', IntS)       # node: number of links
ghost('nd', BYTES)      # node: data (ProtoNode.Data / RawNode bytes)
ghost('nb', IntS)       # node: cid builder
ghost('stale', BoolS)   # ProtoNode: a cached encoding may not match the content
ghost('nkind', IntS)    # node: 0 ProtoNode, 1 RawNode, 2 other
ghost('fspath', BYTES)  # node: filestore path ('' when the node is not a reference)
ghost('fsoff', IntS)    # node: filestore offset
ghost('srest', BYTES)     # splitter: bytes not yet delivered
ghost('iofail', BoolS)  # global at 1: some storage or input operation has failed
IOG = I(1)
MAXLN = 2 ** 46     # links of one node

# ---------------------------------------------------------------- rigid functions
d_type = z3.Function('d_type', BYTES, IntS)
d_hasdata = z3.Function('d_hasdata', BYTES, BoolS)
d_data = z3.Function('d_data', BYTES, BYTES)
d_hasfs = z3.Function('d_hasfs', BYTES, BoolS)
d_fs = z3.Function('d_fs', BYTES, IntS)
d_nbs = z3.Function('d_nbs', BYTES, IntS)
d_bs = z3.Function('d_bs', BYTES, ARR)
d_hasht = z3.Function('d_hasht', BYTES, BoolS)
d_ht = z3.Function('d_ht', BYTES, IntS)
d_hasfo = z3.Function('d_hasfo', BYTES, BoolS)
d_fo = z3.Function('d_fo', BYTES, IntS)
d_mime = z3.Function('d_mime', BYTES, BYTES)
d_hasmime = z3.Function('d_hasmime', BYTES, BoolS)
pbok = z3.Function('pbok', BYTES, BoolS)
pbmok = z3.Function('pbmok', BYTES, BoolS)
pbenc = z3.Function('pbenc', IntS, BoolS, BYTES, BoolS, IntS, IntS, ARR, BoolS, IntS, BoolS, IntS, BYTES)
pbmenc = z3.Function('pbmenc', BoolS, BYTES, BYTES)

cidP = z3.Function('cidP', BYTES, ARR, NARR, IntS, IntS, IntS)   # data, links, names, n, builder
cidR = z3.Function('cidR', BYTES, IntS, IntS)
craw = z3.Function('craw', IntS, BoolS)
cidO = z3.Function('cidO', BYTES, ARR, NARR, IntS, IntS, IntS)   # nodes of other kinds
ckind = z3.Function('ckind', IntS, IntS)
plc = z3.Function('plc', IntS, ARR)
plnm = z3.Function('plnm', IntS, NARR)
pln = z3.Function('pln', IntS, IntS)
pnd = z3.Function('pnd', IntS, BYTES)
fc = z3.Function('fc', IntS, BYTES)       # file content under a cid
wf = z3.Function('wf', IntS, BoolS)       # well-formed file DAG with exact sizes
stored = z3.Function('stored', IntS, BoolS)   # handed to the storage service (prophecy: at some point of the run)
dur = z3.Function('dur', IntS, BoolS)     # stored, with everything below it
cidsum = z3.Function('fscid', IntS, IntS)

catr = Fold('catr', [ARR], [], 'cat', lambda e, p: fc(e[0]))
sumr = Fold('sumr', [ARR], [], 'sum', lambda e, p: e[0])
wfr = Fold('wfr', [ARR, ARR], [], 'and', lambda e, p: z3.And(wf(e[0]), e[1] == z3.Length(fc(e[0]))),
           lemma=lambda F, e, a, p, lo, hi: [z3.Implies(e, sumr(a[1], lo, hi) == z3.Length(catr(a[0], lo, hi)))])
durr = Fold('durr', [ARR], [], 'and', lambda e, p: dur(e[0]))

TYPES = dict(Raw=0, Directory=1, File=2, Metadata=3, Symlink=4, HAMTShard=5)


def unfold_cid(E, st, c):
    """definition of the semantic functions at one cid"""
    if ('cid', c.get_id()) in st.info:
        return
    st.info[('cid', c.get_id())] = (c, )
    nd, lc, n = pnd(c), plc(c), pln(c)
    raw = craw(c)
    st.assume(raw == (ckind(c) == 1))
    st.assume(n >= 0, n <= MAXLN, z3.Length(nd) <= MAXLEN)
    st.assume(z3.Implies(raw, z3.And(fc(c) == nd, wf(c))))
    st.assume(z3.Implies(z3.Not(raw), fc(c) == z3.Concat(d_data(nd), catr(lc, 0, n))))
    st.assume(z3.Implies(z3.Not(raw), wf(c) == z3.And(pbok(nd), z3.Or(d_type(nd) == 0, d_type(nd) == 2), d_nbs(nd) == n,
                                                      wfr(lc, d_bs(nd), 0, n), d_fs(nd) == z3.Length(d_data(nd)) + sumr(d_bs(nd), 0, n))))
    st.assume(dur(c) == z3.And(stored(c), durr(lc, 0, n)))
    st.assume(z3.Length(fc(c)) <= MAXLEN)
    for h in CIDHOOKS:
        h(E, st, c)


CIDHOOKS = []


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def tup(*xs):
    return TupleV(list(xs))


def noop(E, st, args, ins):
    return [(st, E.result_of(st, ins))]


def fail_flag(E, st, err):
    """record that an input or storage operation failed"""
    E.wr(st, 'G:iofail', IOG, z3.Or(E.rd(st, 'G:iofail', IOG), err != 0), check=False)


def new_error(E, st, hint='err'):
    e = z3.Int(fresh_name(hint))
    E.bump_alloc(st)
    st.assume(e >= 100000, e <= st.alloc)     # no error a package declares
    E.note_old(st, e, st.serial)
    return e


def maybe_error(E, st, hint='err', eof=False):
    e = z3.Int(fresh_name(hint))
    E.bump_alloc(st)
    st.assume(e >= 0, e <= st.alloc)
    E.note_old(st, e, st.serial)
    if not eof:
        st.assume(e != E.gref('io.EOF'))
    if E.pkg(E.fn) == 'hamt':
        st.assume(e != E.gref('os.ErrNotExist'))
    return e


# ---------------------------------------------------------------- errors, fmt
@model('errors.New', 'fmt.Errorf')
def m_errnew(E, st, args, ins):
    return [(st, new_error(E, st))]


@model('fmt.Sprintf', 'github.com/gogo/protobuf/proto.EnumName')
def m_sprintf(E, st, args, ins):
    return [(st, E.result_of(st, ins))]


# ---------------------------------------------------------------- protobuf
def pbfields(E, st, m):
    g = lambda n: E.load_key(st, *fk(E, PBD, n, m))
    return g


def fk(E, T, n, ref):
    for f in E.P.fields(T):
        if f['n'] == n:
            return ('F:%s.%s' % (T, n), ref, f['t'])
    raise SpecError(n)


def cell(E, st, p, t):
    if p.get_id() in E.locenc:
        return E.deref(st, p, t)
    return E.load_key(st, 'C:' + t, p, t)


def opt_u64(E, st, p):
    return z3.If(p == 0, I(0), cell(E, st, p, 'uint64'))


def norm_arr(E, st, s):
    """element array of a slice, re-based at 0"""
    a = E.rd(st, E.ekey(s.et), s.base)
    if is_const_int(s.off) and s.off.as_long() == 0 or E.prove(st, s.off == 0, 60):
        return a
    return E.copyarr(st, a, I(0), a, s.off, s.len)


def pb_view(E, st, m):
    tp = E.load_key(st, *fk(E, PBD, 'Type', m))
    data = E.load_key(st, *fk(E, PBD, 'Data', m))
    fs = E.load_key(st, *fk(E, PBD, 'Filesize', m))
    bs = E.load_key(st, *fk(E, PBD, 'Blocksizes', m))
    ht = E.load_key(st, *fk(E, PBD, 'HashType', m))
    fo = E.load_key(st, *fk(E, PBD, 'Fanout', m))
    return tp, data, fs, bs, ht, fo


PBT = U + '/pb.Data_DataType'


@model('github.com/gogo/protobuf/proto.Marshal')
def m_marshal(E, st, args, ins):
    m = args[0]
    if E.prove(st, dyn(m) == E.P.dynid('*' + PBD), 100):
        tp, data, fs, bs, ht, fo = pb_view(E, st, m)
        hasdata = data.base != 0
        dat = z3.If(hasdata, E.bytes_of(st, data), EMPTY)
        n = bs.len
        b = pbenc(cell(E, st, tp, PBT), hasdata, dat, fs != 0, opt_u64(E, st, fs), n, norm_arr(E, st, bs),
                  ht != 0, opt_u64(E, st, ht), fo != 0, opt_u64(E, st, fo))
        st.assume(*pbenc_facts(b))
        # Marshal fails only when the required field is missing
        err = z3.Int(fresh_name('merr'))
        st.assume(err >= 0, (err == 0) == (tp != 0), err <= st.alloc)
        s = E.new_bytes(st, b, 'pb')
        return [(st, tup(s, err))]
    if E.prove(st, dyn(m) == E.P.dynid('*' + PBM), 100):
        mt = E.load_key(st, *fk(E, PBM, 'MimeType', m))
        v = cell(E, st, mt, 'string')
        b = pbmenc(mt != 0, z3.If(mt == 0, EMPTY, v))
        st.assume(*pbmenc_facts(b))
        err = z3.Int(fresh_name('merr'))
        st.assume(err >= 0, err <= st.alloc, err == 0)
        return [(st, tup(E.new_bytes(st, b, 'pbm'), err))]
    raise Unsupported('Marshal of unknown message')


def pbenc_facts(b):
    a = b.children()
    return [pbok(b), d_type(b) == a[0], d_hasdata(b) == a[1], d_data(b) == a[2], d_hasfs(b) == a[3], d_fs(b) == a[4], d_nbs(b) == a[5], d_bs(b) == a[6],
            d_hasht(b) == a[7], d_ht(b) == a[8], d_hasfo(b) == a[9], d_fo(b) == a[10], z3.Length(b) >= 2, z3.Length(b) <= MAXLEN]


def pbmenc_facts(b):
    a = b.children()
    return [pbmok(b), d_hasmime(b) == a[0], d_mime(b) == a[1], z3.Length(b) <= MAXLEN]


def dec_facts(b):
    return [d_nbs(b) >= 0, d_nbs(b) <= MAXLEN, z3.Length(d_data(b)) <= MAXLEN, d_fs(b) >= 0, d_fs(b) < 2 ** 64,
            d_ht(b) >= 0, d_ht(b) < 2 ** 64, d_fo(b) >= 0, d_fo(b) < 2 ** 64, z3.Implies(z3.Not(d_hasdata(b)), d_data(b) == EMPTY),
            d_type(b) >= -2 ** 31, d_type(b) < 2 ** 31, z3.Implies(z3.Not(d_hasfs(b)), d_fs(b) == 0),
            z3.Implies(z3.Not(d_hasht(b)), d_ht(b) == 0), z3.Implies(z3.Not(d_hasfo(b)), d_fo(b) == 0)]


def optptr(E, st, has, t, v):
    c = E.new_ref(st, 'pp')
    E.store_key(st, 'C:' + t, c, t, v)
    p = z3.Int(fresh_name('op'))
    st.assume(p == z3.If(has, c, I(0)))
    st.info[p.get_id()] = st.info.get(p.get_id(), ('mix', st.serial, p))
    return p


@model('github.com/gogo/protobuf/proto.Unmarshal')
def m_unmarshal(E, st, args, ins):
    buf, m = args
    b = E.bytes_of(st, buf)
    if E.prove(st, dyn(m) == E.P.dynid('*' + PBD), 100):
        st.assume(*dec_facts(b))
        err = z3.Int(fresh_name('uerr'))
        E.bump_alloc(st)
        st.assume(err >= 0, (err == 0) == pbok(b), err <= st.alloc, z3.Or(err == 0, err >= 100000))
        E.note_old(st, err, st.serial)
        tc = E.new_ref(st, 'pp')
        E.store_key(st, 'C:' + PBT, tc, PBT, d_type(b))
        tp = z3.Int(fresh_name('tp'))
        st.assume(z3.Or(tp == tc, z3.And(err != 0, tp == 0)))
        S = lambda n, v: E.store_key(st, *(fk(E, PBD, n, m) + (v, )))
        # on failure the fields hold whatever had been decoded before the error
        ok = err == 0
        S('Type', z3.If(ok, tc, tp))
        dat = E.new_bytes(st, d_data(b), 'pd')
        pbase = z3.Int(fresh_name('pdb'))
        st.assume(pbase == z3.If(d_hasdata(b), dat.base, I(0)))
        S('Data', SliceV(pbase, I(0), dat.len, z3.If(d_hasdata(b), dat.len, I(0)), data_et(E)))
        S('Filesize', optptr(E, st, d_hasfs(b), 'uint64', d_fs(b)))
        nb = E.new_ref(st, 'pbs')
        k = E.ekey('uint64')
        E.wr(st, k, nb, d_bs(b), check=False)
        bb, bc = z3.Int(fresh_name('bsb')), z3.Int(fresh_name('bsc'))
        st.assume(bb == z3.If(d_nbs(b) > 0, nb, I(0)), bc >= d_nbs(b), bc <= MAXLEN, z3.Implies(bb == 0, bc == 0))
        S('Blocksizes', SliceV(bb, I(0), d_nbs(b), bc, 'uint64'))
        S('HashType', optptr(E, st, d_hasht(b), 'uint64', d_ht(b)))
        S('Fanout', optptr(E, st, d_hasfo(b), 'uint64', d_fo(b)))
        return [(st, err)]
    if E.prove(st, dyn(m) == E.P.dynid('*' + PBM), 100):
        err = z3.Int(fresh_name('uerr'))
        E.bump_alloc(st)
        st.assume(err >= 0, (err == 0) == pbmok(b), err <= st.alloc, z3.Length(d_mime(b)) <= MAXLEN)
        E.note_old(st, err, st.serial)
        E.store_key(st, *(fk(E, PBM, 'MimeType', m) + (optptr(E, st, d_hasmime(b), 'string', d_mime(b)), )))
        return [(st, err)]
    raise Unsupported('Unmarshal of unknown message')


def data_et(E):
    return E.P.elem([f['t'] for f in E.P.fields(PBD) if f['n'] == 'Data'][0])


@model('github.com/gogo/protobuf/proto.Uint64')
def m_u64(E, st, args, ins):
    c = E.new_ref(st, 'u64')
    E.store_key(st, 'C:uint64', c, 'uint64', args[0])
    return [(st, c)]


# ---------------------------------------------------------------- nodes
def nf(E, st, key, n):
    return E.rd(st, 'G:' + key, n)


def set_nf(E, st, key, n, v, check=True):
    E.wr(st, 'G:' + key, n, v, check=check)


def node_cid(E, st, n):
    """cid of the node's current content"""
    if ('raw', n.get_id()) in st.info:
        return cidR(nf(E, st, 'nd', n), nf(E, st, 'nb', n))
    p = cidP(nf(E, st, 'nd', n), nf(E, st, 'lc', n), nf(E, st, 'lnm', n), nf(E, st, 'ln', n), nf(E, st, 'nb', n))
    if ('proto', n.get_id()) in st.info:
        return p
    k = nf(E, st, 'nkind', n)
    kp = E.kind_here(st, k) if E.C is not None and E.C.distinct else None
    if kp == 0:
        return p
    if kp == 1:
        return cidR(nf(E, st, 'nd', n), nf(E, st, 'nb', n))
    if is_const_int(k):
        return {0: p, 1: cidR(nf(E, st, 'nd', n), nf(E, st, 'nb', n))}[k.as_long()]
    o = cidO(nf(E, st, 'nd', n), nf(E, st, 'lc', n), nf(E, st, 'lnm', n), nf(E, st, 'ln', n), nf(E, st, 'nb', n))
    return z3.If(k == 1, cidR(nf(E, st, 'nd', n), nf(E, st, 'nb', n)), z3.If(k == 0, p, o))


def cid_facts(E, st, n, c):
    k = nf(E, st, 'nkind', n)
    st.assume(c > 0, z3.Implies(k == 0, z3.And(z3.Not(craw(c)), pnd(c) == nf(E, st, 'nd', n), plc(c) == nf(E, st, 'lc', n), plnm(c) == nf(E, st, 'lnm', n), pln(c) == nf(E, st, 'ln', n))))
    st.assume(z3.Implies(k == 0, d_bs(pnd(c)) == d_bs(nf(E, st, 'nd', n))))
    st.assume(z3.Implies(k == 1, z3.And(craw(c), pnd(c) == nf(E, st, 'nd', n), pln(c) == 0)))
    st.assume(z3.Implies(k == 2, ckind(c) == 2), z3.Implies(k == 0, ckind(c) == 0))
    node_type_facts(E, st, n)
    unfold_cid(E, st, c)


def node_type_facts(E, st, n):
    st.assume(nf(E, st, 'ln', n) >= 0, nf(E, st, 'ln', n) <= MAXLN, z3.Length(nf(E, st, 'nd', n)) <= MAXLEN, z3.Implies(nf(E, st, 'nkind', n) == 1, nf(E, st, 'ln', n) == 0),
              nf(E, st, 'nkind', n) >= 0, nf(E, st, 'nkind', n) <= 2)


def ta_kind(kind):
    def h(E, st, x):
        if ('tk', kind, x.get_id()) not in st.info:
            st.info[('tk', kind, x.get_id())] = (x, )
            st.assume(z3.Implies(dyn(x) == E.P.dynid(PPN if kind == 0 else PRN), nf(E, st, 'nkind', x) == kind))
    return h


TAHOOKS[PPN] = [ta_kind(0)]
TAHOOKS[PRN] = [ta_kind(1)]


def alloc_pn(E, st, r):
    st.info[('proto', r.get_id())] = (r, )
    st.assume(dyn(r) == E.P.dynid(PPN))
    for k, v in (('ln', I(0)), ('nd', EMPTY), ('nb', I(0)), ('stale', FALSE), ('nkind', I(0)), ('fspath', EMPTY), ('fsoff', I(0)),
                 ('lc', z3.K(IntS, I(0))), ('lnm', z3.K(IntS, EMPTY)), ('lown', FALSE), ('enc', FALSE)):
        E.wr(st, 'G:' + k, r, v, check=False)


ALLOCHOOKS[PN] = alloc_pn


def new_proto(E, st, hint='pn'):
    r = E.new_ref(st, hint)
    alloc_pn(E, st, r)
    return r


def new_raw(E, st, data, nb, hint='rn'):
    r = E.new_ref(st, hint)
    st.info[('raw', r.get_id())] = (r, )
    st.assume(dyn(r) == E.P.dynid(PRN))
    for k, v in (('ln', I(0)), ('nd', data), ('nb', nb), ('stale', FALSE), ('nkind', I(1)), ('fspath', EMPTY), ('fsoff', I(0)),
                 ('lc', z3.K(IntS, I(0))), ('lnm', z3.K(IntS, EMPTY))):
        E.wr(st, 'G:' + k, r, v, check=False)
    return r


@model('(%s).SetCidBuilder' % PPN)
def m_setbuilder(E, st, args, ins):
    n, b = args
    v = z3.If(b == 0, v0builder, pbbuilder(b))
    set_nf(E, st, 'nb', n, v)
    return [(st, tup())]


v0builder = z3.Int('v0builder')
pbbuilder = z3.Function('pbbuilder', IntS, IntS)


@model('(%s).CidBuilder' % PPN)
def m_getbuilder(E, st, args, ins):
    n = args[0]
    b = nf(E, st, 'nb', n)
    st.assume(b != 0, b <= st.alloc)
    return [(st, b)]


@model('(%s).SetData' % PPN)
def m_setdata(E, st, args, ins):
    n, d = args
    set_nf(E, st, 'nd', n, z3.simplify(z3.If(d.len == 0, EMPTY, E.bytes_of(st, d))))
    set_nf(E, st, 'stale', n, FALSE)
    return [(st, tup())]


@model('(%s).Data' % PPN)
def m_data(E, st, args, ins):
    n = args[0]
    E.nilcheck(st, n, ins.get('line'))
    return [(st, snapshot_bytes(E, st, nf(E, st, 'nd', n)))]


def snapshot_bytes(E, st, b):
    s = E.new_bytes(st, b, 'snap')
    st.info[('ro', s.base.get_id())] = (s.base, b)      # it is the node's own storage
    base = z3.Int(fresh_name('snb'))
    st.assume(base == z3.If(z3.Length(b) == 0, I(0), s.base))
    # content is the same whether or not the slice is nil (length 0)
    return SliceV(s.base, I(0), s.len, s.len, 'byte')


@model('(%s).RawData' % PRN, '(github.com/ipfs/go-block-format.Block).RawData')
def m_rawdata(E, st, args, ins):
    n = args[0]
    return [(st, snapshot_bytes(E, st, nf(E, st, 'nd', n)))]


@model(MD + '.NodeWithData')
def m_nodewithdata(E, st, args, ins):
    r = new_proto(E, st)
    E.wr(st, 'G:nd', r, E.bytes_of(st, args[0]), check=False)
    return [(st, r)]


@model(MD + '.NewRawNode')
def m_newraw(E, st, args, ins):
    return [(st, new_raw(E, st, E.bytes_of(st, args[0]), rawv1))]


rawv1 = z3.Int('rawbuilderv1')
rawbuilder = z3.Function('rawbuilder', IntS, IntS)


@model(MD + '.NewRawNodeWPrefix')
def m_newrawp(E, st, args, ins):
    E.oblige(st, 'nil cid builder', 'safety', args[1] != 0, ins.get('line'))
    r = new_raw(E, st, E.bytes_of(st, args[0]), rawbuilder(args[1]))
    err = maybe_error(E, st)
    p = z3.Int(fresh_name('rawp'))
    st2 = st.copy()
    st.assume(err == 0)
    st2.assume(err != 0)
    return [(st, tup(r, I(0))), (st2, tup(I(0), err))]


def cid_of(E, st, n):
    """result of Cid() on a node: the identifier of its content, unless a stale encoding is cached"""
    c = node_cid(E, st, n)
    fsd = nf(E, st, 'stale', n)
    r = z3.Int(fresh_name('cid'))
    st.assume(r > 0, z3.Implies(z3.Not(fsd), r == c))
    st.info[('cidof', r.get_id())] = (n, )
    k = nf(E, st, 'nkind', n)
    st.assume(z3.Implies(z3.Not(fsd), z3.Implies(k == 0, z3.And(z3.Not(craw(r)), pnd(r) == nf(E, st, 'nd', n), plc(r) == nf(E, st, 'lc', n), plnm(r) == nf(E, st, 'lnm', n), pln(r) == nf(E, st, 'ln', n)))))
    st.assume(z3.Implies(k == 1, z3.And(craw(r), pnd(r) == nf(E, st, 'nd', n), pln(r) == 0)))
    st.assume(z3.Implies(k == 0, ckind(r) == 0), z3.Implies(k == 2, ckind(r) == 2))
    node_type_facts(E, st, n)
    unfold_cid(E, st, r)
    return r


CID = 'github.com/ipfs/go-cid.Cid'


@model('(%s).Prefix' % CID)
def m_prefix(E, st, args, ins):
    return [(st, E.result_of(st, ins, 'prefix'))]


@model('(%s).AddNodeLink' % PPN)
def m_addnodelink(E, st, args, ins):
    n, name, child = args
    E.nilcheck(st, child, ins.get('line'), 'method call on nil interface')
    err = maybe_error(E, st)
    fail_flag(E, st, err)
    st2 = st.copy()
    st2.assume(err != 0)
    st.assume(err == 0)
    c = cid_of(E, st, child)
    push_link(E, st, n, name, c)
    return [(st, I(0)), (st2, err)]


def push_link(E, st, n, name, c):
    ln = nf(E, st, 'ln', n)
    set_nf(E, st, 'lc', n, z3.Store(nf(E, st, 'lc', n), ln, c))
    set_nf(E, st, 'lnm', n, z3.Store(nf(E, st, 'lnm', n), ln, name))
    set_nf(E, st, 'ln', n, simp_int(ln + 1))
    set_nf(E, st, 'stale', n, FALSE)
    st.assume(ln >= 0, ln + 1 <= MAXLEN)


@model('(%s).AddRawLink' % PPN)
def m_addrawlink(E, st, args, ins):
    n, name, l = args
    push_link(E, st, n, name, E.load_key(st, *fk(E, LINK, 'Cid', l)))
    return [(st, I(0))]


@model('(%s).Links' % PPN, '(%s.Node).Links' % IF)
def m_links(E, st, args, ins):
    n = args[0]
    E.nilcheck(st, n, ins.get('line'))
    node_type_facts(E, st, n)
    ln = nf(E, st, 'ln', n)
    key = ('links', n.get_id(), nf(E, st, 'lc', n).get_id(), nf(E, st, 'lnm', n).get_id())
    b = E.new_ref(st, 'lks')
    k = E.ekey(PLINK)
    a = z3.Array(fresh_name('lk'), IntS, IntS)
    E.wr(st, k, b, a, check=False)
    st.info[('lkbase', b.get_id())] = (b, n)
    st.info[('lksnap', a.decl().name())] = (nf(E, st, 'lc', n), nf(E, st, 'lnm', n), ln, n, node_cid(E, st, n))
    base = z3.Int(fresh_name('lkb'))
    return [(st, SliceV(b, I(0), ln, ln, PLINK))]


@(lambda f: (ELEMHOOKS.append(f), f)[1])
def h_linkelem(E, st, base, j, et, v):
    if et != PLINK or not (z3.is_app(v) and v.decl().kind() == z3.Z3_OP_SELECT):
        return
    a = v.arg(0)
    if not z3.is_const(a):
        return
    rec = st.info.get(('lksnap', a.decl().name()))
    if rec is None or ('lkel', v.get_id()) in st.info:
        return
    lc, lnm, ln, n, c = rec
    lc0 = lc
    if attached(E, st, n, lc):
        lc = nf(E, st, 'lc', n)       # the links changed in place since
    st.info[('lkel', v.get_id())] = (n, j, v, lc0, c)
    E.wr(st, 'G:lput', v, TRUE, check=False)
    cidv = E.load_key(st, *fk(E, LINK, 'Cid', v))
    nm = E.load_key(st, *fk(E, LINK, 'Name', v))
    c = z3.Select(lc, j)
    inr = z3.And(j >= 0, j < ln)
    st.assume(z3.Implies(inr, z3.And(v > 0, cidv == c, nm == z3.Select(lnm, j))))
    unfold_cid(E, st, c)


def mapfield(E, st, a, fld, idx):
    """array of the Cid (idx 0) / Name (idx 1) fields of the links in an array of *Link"""
    if z3.is_const(a):
        nm = a.decl().name()
        rec = st.info.get(('lksnap', nm))
        if rec:
            return rec[idx]
        if nm in COPIES:
            dst, di, src, si, n = COPIES[nm]
            return E.copyarr(st, mapfield(E, st, dst, fld, idx), di, mapfield(E, st, src, fld, idx), si, n)
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
        return z3.Store(mapfield(E, st, a.arg(0), fld, idx), a.arg(1), E.load_key(st, *fk(E, LINK, fld, a.arg(2))))
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_CONST_ARRAY:
        return z3.K(IntS, I(0) if idx == 0 else EMPTY)
    so = ARR if idx == 0 else NARR
    r = z3.Const(fresh_name('mapf'), so)
    return r


@model('(%s).SetLinks' % PPN)
def m_setlinks(E, st, args, ins):
    n, s = args
    a = E.rd(st, E.ekey(PLINK), s.base)
    lc, lnm = mapfield(E, st, a, 'Cid', 0), mapfield(E, st, a, 'Name', 1)
    if z3.is_const(lc) and lc.decl().name().startswith('mapf'):
        lc, lnm = nf(E, st, 'lkc', s.base), nf(E, st, 'lkn', s.base)
        x = nf(E, st, 'lc', n)
        # beyond its length the array means nothing
        if E.prove(st, eqr(lc, x, s.off, s.off + s.len), 300) and is_const_int(s.off) and s.off.as_long() == 0:
            lc = x
    set_nf(E, st, 'lown', n, nf(E, st, 'lko', s.base))
    set_nf(E, st, 'lkg', s.base, TRUE)
    set_nf(E, st, 'lko', s.base, FALSE)
    if not (is_const_int(s.off) and s.off.as_long() == 0):
        lc = E.copyarr(st, lc, I(0), lc, s.off, s.len)
        lnm = E.copyarr(st, lnm, I(0), lnm, s.off, s.len)
    set_nf(E, st, 'lc', n, lc)
    set_nf(E, st, 'lnm', n, lnm)
    set_nf(E, st, 'ln', n, s.len)
    set_nf(E, st, 'stale', n, z3.simplify(z3.Or(nf(E, st, 'stale', n), nf(E, st, 'enc', n))))
    return [(st, tup())]


@model('(%s).Copy' % PPN)
def m_copy(E, st, args, ins):
    n = args[0]
    r = new_proto(E, st, 'cpn')
    for k in ('lc', 'lnm', 'ln', 'nd', 'nb'):
        E.wr(st, 'G:' + k, r, nf(E, st, k, n), check=False)
    return [(st, r)]


@model('(%s.Node).Copy' % IF)
def m_icopy(E, st, args, ins):
    n = args[0]
    r = E.new_ref(st, 'cpy')
    for k in ('lc', 'lnm', 'ln', 'nd', 'nb', 'nkind'):
        E.wr(st, 'G:' + k, r, nf(E, st, k, n), check=False)
    for k, v in (('stale', FALSE), ('fspath', EMPTY), ('fsoff', I(0)), ('lown', FALSE), ('enc', FALSE)):
        E.wr(st, 'G:' + k, r, v, check=False)
    st.assume(dyn(r) == dyn(n))
    return [(st, r)]


@model('(%s).Cid' % PPN, '(%s).Cid' % PRN, '(%s.Node).Cid' % IF, '(github.com/ipfs/go-block-format.Block).Cid')
def m_cid(E, st, args, ins):
    return [(st, cid_of(E, st, args[0]))]


# wrapping a node in a filestore reference keeps its content
def box_fsn(E, st, r):
    inner = E.load_key(st, *fk(E, POSN, 'Node', r))
    pi = E.load_key(st, *fk(E, POSN, 'PosInfo', r))
    for k in ('lc', 'lnm', 'ln', 'nd', 'nb', 'nkind', 'stale'):
        E.wr(st, 'G:' + k, r, nf(E, st, k, inner), check=False)
    E.wr(st, 'G:fspath', r, E.load_key(st, *fk(E, POSI, 'FullPath', pi)), check=False)
    E.wr(st, 'G:fsoff', r, E.load_key(st, *fk(E, POSI, 'Offset', pi)), check=False)


BOXHOOKS[FSN] = [box_fsn]


def box_pn(E, st, r):
    # dynamic type decides the ghost kind
    st.assume(nf(E, st, 'nkind', r) == 0)


BOXHOOKS[PPN] = [box_pn]
BOXHOOKS[PRN] = [lambda E, st, r: st.assume(nf(E, st, 'nkind', r) == 1)]


# ---------------------------------------------------------------- links are held by pointer
# Nodes hold pointers to links, and copies of a node share them.  lput: a link belongs to a slice
# or node; of a slice of links: lkc, lkn what its elements hold, lko whether its elements were fresh
# links put once, lkg whether a node took the slice; of a node: lown whether it shares no link with
# another node, enc whether an encoding may be cached.
for _k in ('lko', 'lkg', 'lown', 'enc', 'lput'):
    ghost(_k, BoolS)
ghost('lkc', ARR)
ghost('lkn', NARR)
UNFRAMED.update(('lko', 'lkg', 'lown', 'enc', 'lput', 'lkc', 'lkn'))
eqr = Fold('eqr', [ARR, ARR], [], 'and', lambda e, p: e[0] == e[1])
SPECFN['eqr'] = eqr


@specfn
def linkcids(s):
    """identifiers held by a slice of links"""
    return s.E.rd(s.E.cur, 'G:lkc', s.v.base)


def attached(E, st, n, lc):
    """the links lc describes are still those of n, changed in place at most"""
    x = nf(E, st, 'lc', n)
    while not x.eq(lc):
        if not (is_store(x) and ('lkst', x.get_id()) in st.info):
            return False
        x = x.arg(0)
    return True


def alloc_link(E, st, r):
    for i, f in enumerate(E.P.fields(LINK)):
        key, ft = E.fkey(LINK, i)
        E.store_key(st, key, r, ft, E.zero(ft))
    E.wr(st, 'G:lput', r, FALSE, check=False)


ALLOCHOOKS[LINK] = alloc_link


def make_links(E, st, r, et):
    if et == PLINK:
        for k, v in (('lkc', z3.K(IntS, I(0))), ('lkn', z3.K(IntS, EMPTY)), ('lko', TRUE), ('lkg', FALSE)):
            E.wr(st, 'G:' + k, r, v, check=False)


MAKEHOOKS.append(make_links)


def append_links(E, st, r, et):
    if et == PLINK:
        E.wr(st, 'G:lkg', r, FALSE, check=False)


APPENDHOOKS.append(append_links)


def put_link(E, st, base, j, et, v):
    if et != PLINK:
        return
    if E.pkg(E.fn) == "hamt":
        return
    E.oblige(st, 'links given to a node are not replaced behind it', 'own', z3.Not(nf(E, st, 'lkg', base)), None)
    set_nf(E, st, 'lkc', base, z3.Store(nf(E, st, 'lkc', base), j, E.load_key(st, *fk(E, LINK, 'Cid', v))))
    set_nf(E, st, 'lkn', base, z3.Store(nf(E, st, 'lkn', base), j, E.load_key(st, *fk(E, LINK, 'Name', v))))
    set_nf(E, st, 'lko', base, z3.simplify(z3.And(nf(E, st, 'lko', base), z3.Not(nf(E, st, 'lput', v)))))
    set_nf(E, st, 'lput', v, TRUE)


ELEMSTORES.append(put_link)
LCID, LNAME = 'F:%s.Cid' % LINK, 'F:%s.Name' % LINK


def store_link(E, st, p, v):
    """a store to a field of a link"""
    if not p.key.startswith('F:%s.' % LINK) or E.pkg(E.fn) == 'hamt':
        return
    rec = st.info.get(('lkel', p.ref.get_id()))
    if rec is None:
        E.oblige(st, 'changes a link that no node holds', 'own', z3.Not(nf(E, st, 'lput', p.ref)), None)
        return
    n, j, _, lc, c = rec
    if not attached(E, st, n, lc):
        raise Unsupported('store to a link of a node whose links were replaced')
    E.oblige(st, 'changes a link that no other node shares', 'own', nf(E, st, 'lown', n), None)
    if p.key == LCID:
        x = z3.Store(nf(E, st, 'lc', n), j, v)
        set_nf(E, st, 'lc', n, x)
        st.info[('lkst', x.get_id())] = (x, )
    elif p.key == LNAME:
        set_nf(E, st, 'lnm', n, z3.Store(nf(E, st, 'lnm', n), j, v))
    set_nf(E, st, 'stale', n, z3.simplify(z3.Or(nf(E, st, 'stale', n), nf(E, st, 'enc', n))))
    ms, E.modset = E.modset, None        # the link is a part of the node
    try:
        E.store_key(st, p.key, p.ref, p.t, v)
    finally:
        E.modset = ms
    return True


STOREHOOKS.append(store_link)


def struct_link(E, st, r, t):
    if t == LINK and E.pkg(E.fn) != 'hamt':
        E.oblige(st, 'changes a link that no node holds', 'own', z3.Not(nf(E, st, 'lput', r)), None)


STRUCTHOOKS.append(struct_link)
NOENC = {'(%s).%s' % (PPN, m) for m in ('Links', 'SetLinks', 'Copy', 'Data', 'SetData', 'SetCidBuilder', 'CidBuilder')} | {'(%s.Node).Links' % IF, '(%s.Node).Copy' % IF}


def any_enc(E, st, fn):
    """calls may encode any node"""
    if fn in NOENC or 'G:enc' not in st.heap:
        return
    a = z3.Array(fresh_name('enc'), IntS, BoolS)
    st.heap['G:enc'] = a
    st.info[('arr', a.get_id())] = st.serial
    st.log.append(('G:enc', z3.Int(fresh_name('any'))))


def write_links(E, st, key, ref):
    """the slice Links() returns is the node's own: writing to it changes the node"""
    rec = st.info.get(('lkbase', ref.get_id())) if key == 'E:' + PLINK else None
    if rec:
        for k in ('lc', 'lnm', 'lown', 'stale'):
            E.havoc_at(st, 'G:' + k, rec[1])


WRITEHOOKS.append(write_links)
CALLHOOKS.append(any_enc)
HAVOCHOOKS.append(lambda E, st, k, r: E.havoc_at(st, 'G:lown', r) if k == 'G:lc' else None)


# ---------------------------------------------------------------- storage
@model('(%s.DAGService).Add' % IF, '(%s.NodeAdder).Add' % IF)
def m_add(E, st, args, ins):
    n = args[2]
    E.nilcheck(st, n, ins.get('line'), 'method call on nil interface')
    err = maybe_error(E, st)
    fail_flag(E, st, err)
    c = cid_of(E, st, n)
    st.assume(z3.Implies(err == 0, stored(c)))
    return [(st, err)]


@model('(%s.NodeGetter).Get' % IF, '(%s.DAGService).Get' % IF)
def m_get(E, st, args, ins):
    return get_node(E, st, args[2])


@model('(%s).GetNode' % PLINK)
def m_linkgetnode(E, st, args, ins):
    l = args[0]
    E.nilcheck(st, l, ins.get('line'))
    return get_node(E, st, E.load_key(st, *fk(E, LINK, 'Cid', l)))


def get_node(E, st, c):
    err = maybe_error(E, st)
    fail_flag(E, st, err)
    st2 = st.copy()
    st2.assume(err != 0)
    st.assume(err == 0)
    r = E.new_ref(st, 'got')
    st.assume(c > 0)
    unfold_cid(E, st, c)
    for k, v in (('lc', plc(c)), ('lnm', plnm(c)), ('ln', pln(c)), ('nd', pnd(c)), ('stale', FALSE), ('fspath', EMPTY), ('fsoff', I(0))):
        E.wr(st, 'G:' + k, r, v, check=False)
    kd = z3.Int(fresh_name('nk'))
    E.wr(st, 'G:nkind', r, kd, check=False)
    nb = z3.Int(fresh_name('nb'))
    E.wr(st, 'G:nb', r, nb, check=False)
    st.assume(kd >= 0, kd <= 2, kd == ckind(c), nb > 0, (dyn(r) == E.P.dynid(PPN)) == (kd == 0), (dyn(r) == E.P.dynid(PRN)) == (kd == 1))
    st.assume(z3.Implies(kd == 1, pln(c) == 0))
    # the fetched node's identifier is the one asked for
    st.assume(z3.Implies(kd == 0, cidP(pnd(c), plc(c), plnm(c), pln(c), nb) == c), z3.Implies(kd == 1, cidR(pnd(c), nb) == c), z3.Implies(kd == 2, cidO(pnd(c), plc(c), plnm(c), pln(c), nb) == c))
    return [(st, tup(r, I(0))), (st2, tup(I(0), err))]


# ---------------------------------------------------------------- splitter
SPL = 'github.com/ipfs/go-ipfs-chunker.Splitter'


@model('(%s).NextBytes' % SPL)
def m_nextbytes(E, st, args, ins):
    s = args[0]
    rest = nf(E, st, 'srest', s)
    st.assume(z3.Length(rest) <= MAXLEN)
    st2, st3 = st.copy(), st.copy()
    # a chunk
    chunk, rest2 = z3.Const(fresh_name('chunk'), BYTES), z3.Const(fresh_name('rest'), BYTES)
    st.assume(rest == z3.Concat(chunk, rest2), z3.Length(chunk) > 0)
    E.wr(st, 'G:srest', s, rest2)
    sl = E.new_bytes(st, chunk, 'chunk')
    # end of input
    st2.assume(rest == EMPTY)
    nil = SliceV(I(0), I(0), I(0), I(0), 'byte')
    # failure
    e = maybe_error(E, st3)
    st3.assume(e != 0)
    fail_flag(E, st3, e)
    E.wr(st3, 'G:srest', s, z3.Const(fresh_name('rest'), BYTES))
    return [(st, tup(sl, I(0))), (st2, tup(nil, E.gref('io.EOF'))), (st3, tup(nil, e))]


@model('(%s).Reader' % SPL)
def m_splreader(E, st, args, ins):
    return [(st, E.result_of(st, ins))]


@model('context.TODO', 'context.Background')
def m_ctx(E, st, args, ins):
    r = z3.Int('ctx_background')
    st.assume(r > 0, r <= E.A0)
    return [(st, r)]


# ---------------------------------------------------------------- specification functions
@specfn
def fs_type(f):
    E, st = f.E, f.E.cur
    m = pbref(f)
    p = E.load_key(st, *fk(E, PBD, 'Type', m))
    return z3.If(p == 0, I(0), cell(E, st, p, PBT))


def pbref(f):
    """reference of the pb.Data inside an FSNode (or the message itself)"""
    E = f.E
    t = f.t
    ud = E.P.under(t)
    if ud['k'] == 'ptr':
        t = ud['e']
    if t == U + '.FSNode':
        return E.subref(t, 0, f.v)
    return f.v


@specfn
def fs_typeset(f):
    return f.E.load_key(f.E.cur, *fk(f.E, PBD, 'Type', pbref(f))) != 0


@specfn
def fs_size(f):
    E, st = f.E, f.E.cur
    p = E.load_key(st, *fk(E, PBD, 'Filesize', pbref(f)))
    return opt_u64(E, st, p)


@specfn
def fs_hassize(f):
    return f.E.load_key(f.E.cur, *fk(f.E, PBD, 'Filesize', pbref(f))) != 0


@specfn
def fs_opt(f, name):
    E, st = f.E, f.E.cur
    return opt_u64(E, st, E.load_key(st, *fk(E, PBD, name, pbref(f))))


@specfn
def fs_has(f, name):
    E, st = f.E, f.E.cur
    x = E.load_key(st, *fk(E, PBD, name, pbref(f)))
    return (x.base if isinstance(x, SliceV) else x) != 0


@specfn
def fs_data(f):
    E, st = f.E, f.E.cur
    s = E.load_key(st, *fk(E, PBD, 'Data', pbref(f)))
    return z3.If(s.len == 0, EMPTY, E.bytes_of(st, s))


@specfn
def fs_bslice(f):
    return f.E.load_key(f.E.cur, *fk(f.E, PBD, 'Blocksizes', pbref(f)))


@specfn
def fs_dslice(f):
    return f.E.load_key(f.E.cur, *fk(f.E, PBD, 'Data', pbref(f)))


@specfn
def nbs(f):
    return fs_bslice(f).len


@specfn
def bsa(f):
    """child sizes as an array (requires offset 0, part of fsok)"""
    E = f.E
    return E.rd(E.cur, E.ekey('uint64'), fs_bslice(f).base)


@specfn
def fsok(f):
    """representation invariant of an FSNode"""
    s = fs_bslice(f)
    d = f.E.load_key(f.E.cur, *fk(f.E, PBD, 'Data', pbref(f)))
    return z3.And(f.v != 0, fs_typeset(f), s.off == 0)


@specfn
def content(s):
    s = unw(s)
    return s


@specfn
def bytes_(s):
    if isinstance(s, W):
        return z3.If(s.v.len == 0, EMPTY, s.E.bytes_of(s.E.cur, s.v))
    return s


@specfn
def nonnil(x):
    return unw(x).base != 0 if isinstance(unw(x), SliceV) else unw(x) != 0


for _n, _f in dict(catr=catr, sumr=sumr, wfr=wfr, durr=durr, fc=fc, wf=wf, dur=dur, stored=stored, craw=craw, ckind=ckind, plc=plc, pln=pln, pnd=pnd, plnm=plnm,
                   d_type=d_type, d_data=d_data, d_fs=d_fs, d_nbs=d_nbs, d_bs=d_bs, d_hasdata=d_hasdata, d_hasfs=d_hasfs, d_ht=d_ht, d_hasht=d_hasht,
                   d_fo=d_fo, d_hasfo=d_hasfo, d_mime=d_mime, d_hasmime=d_hasmime, pbok=pbok, pbmok=pbmok, EMPTY=EMPTY).items():
    SPECFN[_n] = _f


@specfn
def cat(*xs):
    xs = [unw(x) for x in xs]
    xs = [x for x in xs if not x.eq(EMPTY)]
    return EMPTY if not xs else xs[0] if len(xs) == 1 else z3.Concat(*xs)


@specfn
def store(a, i, v):
    return z3.Store(unw(a), unw(i), unw(v))


@specfn
def sel(a, i):
    return z3.Select(unw(a), unw(i))


@specfn
def fresh(x):
    """allocated during the call"""
    E = x.E
    v = x.v.base if isinstance(x.v, SliceV) else x.v
    if E.assuming:
        E.cur.info[('fc', v.get_id())] = (v, E.oldst.alloc, E.oldst.serial, E.cur.serial)
    return v > E.oldst.alloc


@specfn
def sub(s, lo, n):
    return z3.Extract(unw(s), unw(lo), unw(n))


@specfn
def seqlen(x):
    x = unw(x)
    return x.len if isinstance(x, SliceV) else z3.Length(x)
