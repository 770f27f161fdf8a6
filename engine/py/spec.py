from models import *


def blocksize_elems(name):
    """the element storage behind name's child sizes"""
    def f(E, env):
        return [('E:uint64', fs_bslice(env[name]).base)]
    return f


K = z3.Int('K_arbitrary')   # stands for an arbitrary index (universally quantified by generality)
SPECFN['K'] = K
SPECFN['M64'] = 2 ** 64
KEYSORT['E:uint64'] = ARR
KEYSORT['E:byte'] = BYTES


@specfn
def encodes(b, n):
    """b decodes to exactly the fields of FSNode n"""
    return z3.And(pbok(b), d_type(b) == fs_type(n), d_hasdata(b) == fs_has(n, 'Data'), d_data(b) == z3.If(fs_has(n, 'Data'), fs_data(n), EMPTY),
                  d_hasfs(b) == fs_hassize(n), d_fs(b) == fs_size(n), d_nbs(b) == nbs(n), d_bs(b) == bsa(n),
                  d_hasht(b) == fs_has(n, 'HashType'), d_ht(b) == fs_opt(n, 'HashType'), d_hasfo(b) == fs_has(n, 'Fanout'), d_fo(b) == fs_opt(n, 'Fanout'))


@specfn
def encodes_opt(b, n):
    return z3.And(pbok(b), d_type(b) == fs_type(n), d_hasdata(b) == fs_has(n, 'Data'), d_data(b) == fs_data(n),
                  d_hasfs(b) == fs_hassize(n), d_fs(b) == fs_size(n), d_nbs(b) == nbs(n), z3.Implies(nbs(n) > 0, d_bs(b) == bsa(n)),
                  d_hasht(b) == fs_has(n, 'HashType'), d_ht(b) == fs_opt(n, 'HashType'), d_hasfo(b) == fs_has(n, 'Fanout'), d_fo(b) == fs_opt(n, 'Fanout'))


@specfn
def isproto(n):
    return z3.And(n.v != 0, dyn(n.v) == n.E.P.dynid(PPN), n.nkind == 0)


@specfn
def israw(n):
    return z3.And(n.v != 0, dyn(n.v) == n.E.P.dynid(PRN), n.nkind == 1)


def IOF(E):
    return E.rd(E.cur, 'G:iofail', IOG)


@specfn
def iofail(x):
    return IOF(x.E)


@specfn
def ncid(n):
    """identifier of a node's current content"""
    E, st = n.E, E_cur(n)
    c = node_cid(E, st, n.v)
    cid_facts(E, st, n.v, c)
    return c


def E_cur(n):
    return n.E.cur


@specfn
def nodeok(n):
    """usable node: not nil, no stale cached encoding, ProtoNode or raw content"""
    node_type_facts(n.E, n.E.cur, n.v)
    return z3.And(n.v != 0, z3.Not(n.stale), n.nkind >= 0, n.nkind <= 1)


@specfn
def nodeany(n):
    """any node whose identifier matches its content"""
    node_type_facts(n.E, n.E.cur, n.v)
    return z3.And(n.v != 0, z3.Not(n.stale))


@specfn
def ncont(n):
    """file content of a node"""
    return z3.If(n.nkind == 1, n.nd, z3.Concat(d_data(n.nd), catr(n.lc, 0, n.ln)))


@specfn
def rest(db):
    """input not yet taken by the caller: the pending chunk and what the splitter still holds"""
    nd = db.nextData.v
    return z3.Concat(z3.If(nd.len == 0, EMPTY, db.E.bytes_of(db.E.cur, nd)), db.E.rd(db.E.cur, 'G:srest', db.spl.v))


@specfn
def dbok(db):
    nd = db.nextData.v
    return z3.And(db.v != 0, db.spl.v != 0, db.dserv.v != 0, (nd.base != 0) == (nd.len > 0), z3.Implies(db.recvdErr.v != 0, nd.base == 0))


@specfn
def errok(db):
    """every failure so far is latched"""
    return z3.Implies(IOF(db.E), db.recvdErr.v != 0)


@specfn
def fok(n):
    """an FSNodeOverDag whose two halves agree and whose children are well-formed and stored"""
    f, d = n.file, n.dag
    node_type_facts(n.E, n.E.cur, d.v)
    return z3.And(n.v != 0, d.v != 0, f.v != 0, fsok(f), d.nkind == 0, dyn(d.v) == n.E.P.dynid(PPN), nbs(f) == d.ln, d.ln <= 2 ** 47,
                  z3.Or(fs_type(f) == 0, fs_type(f) == 2),
                  wfr(d.lc, bsa(f), 0, d.ln), fs_size(f) == z3.Length(fs_data(f)) + sumr(bsa(f), 0, d.ln))


@specfn
def fdur(n):
    return durr(n.dag.lc, 0, n.dag.ln)


@specfn
def fcont(n):
    return z3.Concat(fs_data(n.file), catr(n.dag.lc, 0, n.dag.ln))


@specfn
def sameref(a, b):
    return a.v == b.v


@specfn
def samebytes(a, b):
    """the very same stretch of storage"""
    a, b = unw(a), unw(b)
    return z3.And(a.base == b.base, a.off == b.off, a.len == b.len)


def db_mods(name):
    return ['%s.nextData' % name, '%s.recvdErr' % name, lambda E, env: [('G:srest', env[name].spl.v), ('G:iofail', IOG)]]


def fn_mods(name):
    """everything AddChild and Commit may change of an FSNodeOverDag"""
    def f(E, env):
        n = env[name]
        d, fl = n.dag, n.file
        out = [('G:' + k, d.v) for k in ('lc', 'lnm', 'ln', 'nd', 'stale')]
        out += E.modkeys(fl, 'format') if False else []
        m = E.subref(U + '.FSNode', 0, fl.v)
        out += [('F:%s.Filesize' % PBD, m), ('F:%s.Blocksizes' % PBD, m), ('E:uint64', fs_bslice(fl).base), ('G:iofail', IOG)]
        return out
    return f


@specfn
def builder(b):
    return z3.If(b.v == 0, v0builder, pbbuilder(b.v))


@specfn
def limit(x):
    """helpers.BlockSizeLimit"""
    E = x.E
    return E.load_key(E.cur, 'C:int', E.gref(U + '/importer/helpers.BlockSizeLimit'), 'int')


@specfn
def small(n):
    """assumed of every node: its content is below 2^48 bytes"""
    d, f = n.dag, n.file
    n.E.cur.assume(z3.Length(catr(d.lc, 0, d.ln)) <= MAXLEN, z3.Length(fs_data(f)) <= MAXLEN)
    return TRUE
