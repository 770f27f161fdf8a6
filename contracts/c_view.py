"""Contracts of io/resolve.go and file/unixfile.go."""
from c_list import *
FI = U + '/file'
FILES = 'github.com/ipfs/go-ipfs-files'


@model('(%s.Node).ResolveLink' % IF)
def m_resolvelink(E, st, args, ins):
    """a protobuf node: the link named by the first segment, and the others; another node: unknown"""
    n, path = args
    E.nilcheck(st, n, ins.get('line'), 'method call on nil interface')
    pn_ = z3.And(n != 0, dyn(n) == E.P.dynid(PPN), nf(E, st, 'nkind', n) == 0)
    out = []
    a = st.copy()
    a.assume(z3.Not(pn_))
    out.append((a, E.result_of(a, ins)))
    e = st.copy()
    e.assume(pn_, path.len == 0)
    err = maybe_error(E, e)
    e.assume(err != 0)
    out.append((e, tup(I(0), SliceV(I(0), I(0), I(0), I(0), path.et), err)))
    st.assume(pn_, path.len > 0)
    name = E.load_elem(st, path, I(0))
    for s2, r in m_getnodelink(E, st, [n, name], ins):
        found = z3.simplify(r.es[1]).eq(I(0))
        out.append((s2, tup(r.es[0], SliceV(path.base, path.off + 1, path.len - 1, path.cap - 1, path.et) if found else SliceV(I(0), I(0), I(0), I(0), path.et), r.es[1])))
    return out


@model(MD + '.NewReadOnlyDagService')
def m_rods(E, st, args, ins):
    return [(st, E.new_ref(st, 'rods'))]


@specfn
def first(names):
    return names.E.load_elem(names.E.cur, names.v, I(0))


@specfn
def remaining(r, names, k):
    """r is names without its first: compared at an arbitrary index"""
    E, st, j = r.E, r.E.cur, unw(k)
    return z3.And(r.v.len == names.v.len - 1, z3.Implies(z3.And(0 <= j, j < r.v.len), E.load_elem(st, r.v, j) == E.load_elem(st, names.v, j + 1)))


SHARDN = 'isproto(nd) and pbok(nd.nd) and d_type(nd.nd) == 5'
Contract(IO + '.ResolveUnixfsOnce', 'ctx ds nd names', 'l rest err', requires=['nd != None and names.len > 0', 'implies(isproto(nd), not nd.stale)'], modifies=[IO_],
         ensures=[('found', 'implies(%s and err == None, sel(smof(ncid(nd)), first(names)) == some(l.Cid) and l.Name == first(names))' % SHARDN),
                  ('absent', 'implies(%s and sel(smof(ncid(nd)), first(names)) == 0, err != None and l == None)' % SHARDN),
                  ('entry', 'implies(isproto(nd) and not (%s) and err == None, nlook(nd, first(names)) == some(l.Cid) and l.Name == first(names))' % SHARDN),
                  ('exists', 'implies(isproto(nd) and not (%s), (err == None) == (nlook(nd, first(names)) != 0))' % SHARDN),
                  ('notfound', 'implies(isproto(nd) and not (%s), isglob(err, "%s") == (nlook(nd, first(names)) == 0))' % (SHARDN, LNF)),
                  ('reports', 'implies(%s and sel(smof(ncid(nd)), first(names)) == 0, notexist(err) or hbad(ncid(nd)) or iofail(nd))' % SHARDN), ('nosuch', 'implies(%s and notexist(err), sel(smof(ncid(nd)), first(names)) == 0) and implies(err != None and isproto(nd), l == None)' % SHARDN),
                  ('rest', 'implies(isproto(nd) and err == None, remaining(rest, names, K))')])

# ---------------------------------------------------------------- the file view
TUD, TUF, TSY = '*%s.ufsDirectory' % FI, '*%s.ufsFile' % FI, '*%s.Symlink' % FILES
ghost('target', BYTES)     # symlink: where it points


@model(FILES + '.NewLinkFile')
def m_newlink(E, st, args, ins):
    r = E.new_ref(st, 'symlink')
    st.assume(dyn(r) == E.P.dynid(TSY))
    E.wr(st, 'G:target', r, args[0], check=False)
    return [(st, r)]


psfail = z3.Function('psfail', IntS, BoolS)    # a node that cannot be encoded
SPECFN['psfail'] = lambda c: psfail(unw(c))


@model('(%s).Size' % PPN)
def m_protosize(E, st, args, ins):
    E.nilcheck(st, args[0], ins.get('line'))
    v, e = z3.Int(fresh_name('psize')), maybe_error(E, st)
    st.assume(v >= 0, v < 2 ** 64, (e != 0) == psfail(cid_of(E, st, args[0])))
    return [(st, tup(v, e))]


def is_(t):
    return lambda r: z3.And(r.v != 0, dyn(r.v) == r.E.P.dynid(t))


def as_(t):
    return lambda r: W(r.E, r.v, t)


SPECFN.update(isudir=is_(TUD), isufile=is_(TUF), issym=is_(TSY), asudir=as_(TUD), asufile=as_(TUF), pointsto=lambda r: r.E.rd(r.E.cur, 'G:target', r.v))
DIRN = 'isproto(nd) and pbok(nd.nd) and (d_type(nd.nd) == 1 or d_type(nd.nd) == 5)'
VIEWD = [('usable', 'implies(err == None and isudir(r), fresh(r) and dirnewb(asudir(r).dir) and fresh(asudir(r).dir) and sameref(asudir(r).dserv, dserv) and sameref(asudir(r).ctx, ctx))'),
         ('unique', 'implies(err == None and isudir(r) and cnt(nd.lnm, X, 0, nd.ln) <= 1, dirnew(asudir(r).dir))'),
         ('form', 'implies(err == None and isudir(r), flat(asdir(asudir(r).dir)) == (d_type(nd.nd) == 1))'),
         ('same', 'implies(err == None and isudir(r) and d_type(nd.nd) == 1, dlook(asdir(asudir(r).dir), X) == nlook(nd, X))'),
         ('loaded', 'implies(err == None and isudir(r) and d_type(nd.nd) == 5, shardmap(asdir(asudir(r).dir)) == smof(ncid(nd)))')]
VREQ = ['dserv != None and ctx != None', 'implies(isproto(nd) or israw(nd), nodeany(nd))', 'implies(isproto(nd), not nd.stale)', 'implies(isproto(nd), ntot(nd) >= 0)']
Contract(FI + '.newUnixfsDir', 'ctx dserv nd', 'r err', requires=VREQ + [DIRN],
         ensures=[('accepts', '(err == None) == (not psfail(ncid(nd)) and (d_type(nd.nd) == 1 or not hbad(ncid(nd))))'), ('directory', 'implies(err == None, isudir(r))')] + VIEWD)
Contract(FI + '.NewUnixfsFile', 'ctx dserv nd', 'r err', requires=VREQ, modifies=[seek_mods],
         ensures=[('directory', 'implies(%s and err == None, isudir(r))' % DIRN), ('accepts', 'implies(%s, (err == None) == (not psfail(ncid(nd)) and (d_type(nd.nd) == 1 or not hbad(ncid(nd)))))' % DIRN)] + VIEWD +
                 [('symlink', 'implies(isproto(nd) and pbok(nd.nd) and d_type(nd.nd) == 4, err == None and issym(r) and pointsto(r) == d_data(nd.nd))'),
                  ('only', 'implies(err == None and isudir(r), %s) and implies(err == None and issym(r), d_type(nd.nd) == 4)' % DIRN),
                  ('kind', 'implies(err == None, isudir(r) or issym(r) or isufile(r))'),
                  ('file', 'implies(nodeok(nd) and typed(nd) and wf(ncid(nd)), err == None and isufile(r))'),
                  ('reader', 'implies(err == None and isufile(r), isdr(asufile(r).DagReader) and drs(asdr(asufile(r).DagReader)) and asdr(asufile(r).DagReader).offset == 0)'),
                  ('good', 'implies(err == None and isufile(r) and wf(ncid(nd)) and pl(ncid(nd)) and sameref(asdr(asufile(r).DagReader).rootNode, nd), drgood(asdr(asufile(r).DagReader)) and drfile(asdr(asufile(r).DagReader)) and asdr(asufile(r).DagReader).size == seqlen(fc(ncid(nd))))'),
                  ('foreign', 'implies(not isproto(nd) and not israw(nd), err != None)')])

# ---------------------------------------------------------------- iteration
ND = '(*%s.ufsDirectory).' % FI
NI = '(*%s.ufsIterator).' % FI
TUI = '*%s.ufsIterator' % FI
FCH, ECH = z3.Ints('FCH_arbitrary ECH_arbitrary')      # the iterator's channels, whether or not it still holds them
SPECFN.update(FCH=FCH, ECH=ECH, asit=as_(TUI), isit=is_(TUI))


@specfn
def listed(d):
    """the view of a directory that can be listed"""
    return z3.And(d.v != 0, d.ctx.v != 0, d.dserv.v != 0, SPECFN['dirnew'](d.dir))


SENTF = 'times(at(fileCh), X) == dtimes(asdir(at(d).dir), X) and handed(at(fileCh), X) == dlook(asdir(at(d).dir), X)'
EFRESH = 'at(%s) != None and not at(%s).ccl and at(%s).cen == 0 and emptych(at(%s))'
FLATN = 'd.node'
ITER = LoopSpec(inv=[('sofar', '0 <= ix and ix <= NN.ln and not at(fileCh).ccl and at(fileCh).cen == 0 and not at(errCh).ccl and at(errCh).cen == 0 and times(at(fileCh), X) == cnt(NN.lnm, X, 0, ix) and handed(at(fileCh), X) == look(NN.lnm, NN.lc, X, 0, ix)'.replace('NN', FLATN))])
VIS = LoopSpec(inv=[('sofar', 'not at(fileCh).ccl and at(fileCh).cen == 0 and not at(errCh).ccl and at(errCh).cen == 0 and times(at(fileCh), X) == ITE(sel(visited(d.shard), X) == 0, 0, 1) and handed(at(fileCh), X) == sel(visited(d.shard), X)')])
SPECFN.update(asbd=lambda r: B_(asdir(r)), ashd=lambda r: H_(asdir(r)))
Contract(ND + 'Entries$1', '', '', requires=['errCh != None and d != None and fileCh != None and listed(at(d))', 'at(errCh) != at(fileCh)', EFRESH.replace('%s', 'errCh'), EFRESH.replace('%s', 'fileCh')],
         modifies=[CHM('errCh'), CHM('fileCh')],
         ensures=[('reported', 'at(errCh).ccl and at(errCh).cen == 1 and at(fileCh).ccl and at(fileCh).cen == 0'),
                  ('all', 'implies(at(errCh).cev == 0, %s)' % SENTF),
                  ('atmost', 'times(at(fileCh), X) <= 1')],
         inl={DD + 'ForEachLink': [], BD + 'ForEachLink': [ITER], HD + 'ForEachLink': []}, visits=[VIS])


def go_entries(E, st, env):
    """what the iterator relies on: see the contract of the sender"""
    val = lambda n: E.deref(st, env[n].v, E.P.elem(env[n].t))
    f, e, d = val('fileCh'), val('errCh'), val('d')
    cur, E.cur = E.cur, st
    try:
        x = asdir(W(E, d, TUD).dir)
        m = z3.Const(fresh_name('listed'), SMAP)
        st.assume(z3.Select(m, X) == SPECFN['dlook'](x, X), pair(f) == e, cfin(e) >= 0)
    finally:
        E.cur = cur
    for k, v in (('svis', NOMAP), ('chm', m)):
        E.wr(st, 'G:' + k, f, v, check=False)
    E.wr(st, 'G:cgot', e, FALSE, check=False)


execu.GOHOOK[ND + 'Entries$1'] = go_entries


@specfn
def itok(it, f, e):
    """an iterator over what f delivers, whose verdict comes by e"""
    E = it.E
    f, e = unw(f), unw(e)
    r = lambda k, c: E.rd(E.cur, 'G:' + k, c)
    files, errs, err = it.files.v, it.errCh.v, it.err.v
    return z3.And(it.v != 0, it.ctx.v != 0, it.dserv.v != 0, f != 0, e != 0, pair(f) == e, z3.Or(files == 0, files == f), z3.Or(errs == 0, errs == e), r('cgot', e) == (errs == 0), cfin(e) >= 0,
                  z3.Implies(err == 0, z3.And(z3.Implies(z3.And(files == 0, cfin(e) == 0), r('svis', f) == r('chm', f)), z3.Implies(errs == 0, cfin(e) == 0))))


def seen_(E, f):
    return E.rd(E.cur, 'G:svis', unw(f))


def entries_(E, f):
    return E.rd(E.cur, 'G:chm', unw(f))


SPECFN.update(seen=lambda it, f: seen_(it.E, f), entries=lambda it, f: entries_(it.E, f), upd=lambda m, k, v: z3.Store(m, unw(k), unw(v)), unsome=lambda o: unsome(unw(o)))
Contract(ND + 'Entries', 'd', 'r', requires=['listed(d)'], modifies=[IO_],
         ensures=[('iterator', 'fresh(r) and isit(r) and fresh(asit(r).files) and fresh(asit(r).errCh) and itok(asit(r), ref(asit(r).files), ref(asit(r).errCh)) and asit(r).err == None'),
                  ('none', 'sel(seen(r, ref(asit(r).files)), X) == 0'), ('entries', 'sel(entries(r, ref(asit(r).files)), X) == dlook(asdir(d.dir), X)'),
                  ('service', 'sameref(asit(r).dserv, d.dserv)')])
SPECFN['recvd'] = lambda it, f, l: z3.And(z3.Select(entries_(it.E, f), unw(l.Name)) != 0)
ENTRY = 'sel(old(entries(it, FCH)), it.curName)'
Contract(NI + 'Next', 'it', 'r', requires=['it != None', 'implies(it.err == None, itok(it, FCH, ECH))'],
         modifies=['it.files', 'it.errCh', 'it.err', 'it.curName', 'it.curFile', lambda E, env: [('G:svis', FCH), ('G:cgot', ECH)], seek_mods],
         ensures=[('usable', 'implies(r, itok(it, FCH, ECH) and it.err == None)'),
                  ('latched', 'implies(old(it.err) != None, not r and sameref(it.err, old(it.err)))'),
                  ('next', 'implies(r, %s != 0 and sel(old(seen(it, FCH)), it.curName) == 0 and seen(it, FCH) == upd(old(seen(it, FCH)), it.curName, %s))' % (ENTRY, ENTRY)),
                  ('view', 'implies(r, isudir(it.curFile) or issym(it.curFile) or isufile(it.curFile))'),
                  ('mirrors', 'implies(r and ckind(GOT) == 0 and pbok(pnd(GOT)), implies(d_type(pnd(GOT)) == 4, issym(it.curFile) and pointsto(it.curFile) == d_data(pnd(GOT))) and isudir(it.curFile) == (d_type(pnd(GOT)) == 1 or d_type(pnd(GOT)) == 5))'.replace('GOT', 'unsome(%s)' % ENTRY)),
                  ('raw', 'implies(r and ckind(unsome(%s)) == 1, isufile(it.curFile))' % ENTRY),
                  ('complete', 'implies(not r and it.err == None, cfin(ECH) == 0 and seen(it, FCH) == old(entries(it, FCH)))')],
         loops=[LoopSpec(inv=[('usable', 'itok(it, FCH, ECH) and it.err == None'), ('same', 'entries(it, FCH) == entry(entries(it, FCH)) and implies(not ok, seen(it, FCH) == entry(seen(it, FCH)))'),
                              ('received', 'implies(ok, l != None and recvd(it, FCH, l) and sel(entry(seen(it, FCH)), l.Name) == 0 and seen(it, FCH) == upd(entry(seen(it, FCH)), l.Name, sel(entries(it, FCH), l.Name)))')],
                         dec='ITE(ok, 0, 1 + ITE(it.files == None, 0, 1) + ITE(it.errCh == None, 0, 1))')])
Contract('(*%s.ufsFile).Size' % FI, 'f', 'n err', requires=['f != None', 'isdr(f.DagReader)', 'drs(asdr(f.DagReader))'],
         ensures=[('length', 'err == None and n == ITE(asdr(f.DagReader).size < 2 ** 63, asdr(f.DagReader).size, asdr(f.DagReader).size - 2 ** 64)')])
