"""Contracts of io/directory.go."""
from c_reader import *
IO = U + '/io'
BD, HD, DD = ('(*%s.%sDirectory).' % (IO, k) for k in ('Basic', 'HAMT', 'Dynamic'))
TBD, THD, TDD = ('*%s.%sDirectory' % (IO, k) for k in ('Basic', 'HAMT', 'Dynamic'))
HM = U + '/hamt'
SH = '(*%s.Shard).' % HM
X = z3.Const('X_arbitrary', BYTES)    # stands for an arbitrary name (universally quantified by generality)
SPECFN['X'] = X
ARB.append(X)
SMAP = z3.ArraySort(BYTES, IntS)

# ---------------------------------------------------------------- entries
some = z3.Function('some', IntS, IntS)        # an identifier present: never 0
unsome = z3.Function('unsome', IntS, IntS)
cidlen = z3.Function('cidlen', IntS, IntS)    # length of an identifier
UNFOLD['some'] = lambda e: [e > 0, unsome(e) == e.arg(0)]
UNFOLD['cidlen'] = lambda e: [e >= 0, e <= 2 ** 20]
L = z3.Length


def lsz(name, c):
    return L(name) + cidlen(c)


def osz(name, o):
    return z3.If(o == 0, I(0), lsz(name, unsome(o)))


def look_lemma(F, e, a, p, lo, hi):
    """proved in lemma_entries"""
    c, s = cnt(a[0], p[0], lo, hi), szn(a[0], a[1], p[0], lo, hi)
    t = lszr(a[0], a[1], lo, hi)
    return [c >= 0, e >= 0, (c == 0) == (e == 0), z3.Implies(c == 0, s == 0), z3.Implies(c == 1, s == lsz(p[0], unsome(e))), s >= 0, s <= t,
            z3.Implies(e != 0, some(unsome(e)) == e)]


look = Fold('look', [NARR, ARR], [BYTES], 'first', lambda e, p: z3.If(e[0] == p[0], some(e[1]), 0), lemma=look_lemma)
cnt = Fold('cnt', [NARR], [BYTES], 'sum', lambda e, p: z3.If(e[0] == p[0], I(1), I(0)), lemma=lambda F, e, a, p, lo, hi: [e >= 0])
szn = Fold('szn', [NARR, ARR], [BYTES], 'sum', lambda e, p: z3.If(e[0] == p[0], lsz(e[0], e[1]), I(0)))
lszr = Fold('lszr', [NARR, ARR], [], 'sum', lambda e, p: lsz(e[0], e[1]), lemma=lambda F, e, a, p, lo, hi: [e >= 0])


def lemma_entries():
    """look_lemma, by induction on the number of entries"""
    nm, lc = z3.Const('nm', NARR), z3.Const('lcs', ARR)
    x = z3.Const('x', BYTES)
    lo, hi = z3.Ints('lo hi')
    out = []
    for lab, h in (('none', lo), ('one more', hi)):
        fs = [F(*(a + p + [lo, h])) for F, a, p in ((look, [nm, lc], [x]), (cnt, [nm], [x]), (szn, [nm, lc], [x]), (lszr, [nm, lc], []))]
        e, c, s, t = (look.f(nm, lc, x, lo, h), cnt.f(nm, x, lo, h), szn.f(nm, lc, x, lo, h), lszr.f(nm, lc, lo, h))
        goal = [c >= 0, e >= 0, (c == 0) == (e == 0), z3.Implies(c == 0, s == 0), z3.Implies(c == 1, s == lsz(x, unsome(e))), s >= 0, s <= t, t >= 0, z3.Implies(e != 0, some(unsome(e)) == e)]
        if lab == 'none':
            hyp = [e == 0, c == 0, s == 0, t == 0]
        else:
            q = S(hi - 1)
            ih = [z3.substitute(g, (hi, q)) for g in goal]
            el = [z3.Select(nm, q), z3.Select(lc, q)]
            hyp = [lo < hi] + ih + UNFOLD['some'](some(el[1])) + UNFOLD['cidlen'](cidlen(el[1]))
            for F, v, a, p in ((look, e, [nm, lc], [x]), (cnt, c, [nm], [x]), (szn, s, [nm, lc], [x]), (lszr, t, [nm, lc], [])):
                hyp.append(v == F.comb(z3.substitute(v, (hi, q)), F.step(el[:F.na], p)))
        out.append(('entries, ' + lab, hyp, z3.And(*goal)))
    return out


LEMMAS.append(('entries of a directory', lemma_entries))

# ---------------------------------------------------------------- dependencies
LNF = MD + '.ErrLinkNotFound'
NEX = 'os.ErrNotExist'


@specfn
def notexist(e):
    return e.v == e.E.gref(NEX)


def new_link(E, st, name, c):
    r = E.new_ref(st, 'lnk')
    for i, f in enumerate(E.P.fields(LINK)):
        key, ft = E.fkey(LINK, i)
        v = {'Name': name, 'Cid': c}.get(f['n'])
        if v is None:
            v = z3.Int(fresh_name('lsize'))
            st.assume(v >= 0, v < 2 ** 64)
        E.store_key(st, key, r, ft, v)
    E.wr(st, 'G:lput', r, FALSE, check=False)
    return r


@model(IF + '.MakeLink')
def m_makelink(E, st, args, ins):
    n = args[0]
    E.nilcheck(st, n, ins.get('line'), 'method call on nil interface')
    s2 = st.copy()
    e = maybe_error(E, s2)
    s2.assume(e != 0)
    c = cid_of(E, st, n)
    return [(st, tup(new_link(E, st, EMPTY, c), I(0))), (s2, tup(I(0), e))]


def entry_of(E, st, n, name):
    return look(nf(E, st, 'lnm', n), nf(E, st, 'lc', n), name, I(0), nf(E, st, 'ln', n))


@model('(%s).GetNodeLink' % PPN)
def m_getnodelink(E, st, args, ins):
    n, name = args
    E.nilcheck(st, n, ins.get('line'))
    node_type_facts(E, st, n)
    o = entry_of(E, st, n, name)
    s2 = st.copy()
    s2.assume(o == 0)
    st.assume(o != 0)
    return [(st, tup(new_link(E, st, name, unsome(o)), I(0))), (s2, tup(I(0), E.gref(LNF)))]


@model('(%s).RemoveNodeLink' % PPN)
def m_removenodelink(E, st, args, ins):
    """removes every link of that name; the others keep their order"""
    n, name = args
    E.nilcheck(st, n, ins.get('line'))
    node_type_facts(E, st, n)
    lnm, lc, ln = nf(E, st, 'lnm', n), nf(E, st, 'lc', n), nf(E, st, 'ln', n)
    c = cnt(lnm, name, I(0), ln)
    s2 = st.copy()
    s2.assume(c == 0)
    set_nf(E, s2, 'stale', n, FALSE)
    st.assume(c > 0)
    m2, c2, n2 = z3.Const(fresh_name('rmn'), NARR), z3.Const(fresh_name('rmc'), ARR), z3.Int(fresh_name('rml'))
    st.assume(n2 == ln - c, n2 >= 0)
    st.assume(lszr(m2, c2, I(0), n2) == lszr(lnm, lc, I(0), ln) - szn(lnm, lc, name, I(0), ln))
    for y in (X, name):
        st.assume(look(m2, c2, y, I(0), n2) == z3.If(y == name, I(0), look(lnm, lc, y, I(0), ln)),
                  cnt(m2, y, I(0), n2) == z3.If(y == name, I(0), cnt(lnm, y, I(0), ln)))
    for k, v in (('lnm', m2), ('lc', c2), ('ln', n2), ('stale', FALSE)):
        set_nf(E, st, k, n, v)
    return [(st, I(0)), (s2, E.gref(LNF))]


@model('(%s).ByteLen' % CID)
def m_bytelen(E, st, args, ins):
    return [(st, cidlen(args[0]))]


@model('(*go.uber.org/zap.SugaredLogger).Error', '(*go.uber.org/zap.SugaredLogger).Errorf', '(*go.uber.org/zap.SugaredLogger).Debugf', '(*go.uber.org/zap.SugaredLogger).Warn')
def m_log(E, st, args, ins):
    return [(st, tup())]


def fv_linksize(E, st, ins, callee, args):
    """linksize.LinkSizeFunction: productionLinkSize (set by init; tests may replace it)"""
    return [(st, lsz(args[0], args[1]))]


FUNCVAR['func(linkName string, linkCid %s) int' % CID] = fv_linksize


@model('context.TODO', 'context.Background')
def m_ctx0(E, st, args, ins):
    r = E.new_ref(st, 'ctx')
    return [(st, r)]


# ---------------------------------------------------------------- vocabulary
def ent(d, x):
    n = d.node
    return look(n.lnm, n.lc, unw(x), I(0), n.ln)


@specfn
def blook(d, x):
    """the entry under a name: 0 when there is none"""
    node_type_facts(d.E, d.E.cur, d.node.v)
    return ent(d, x)


@specfn
def uniq(d, x):
    """no two entries share the name"""
    n = d.node
    return cnt(n.lnm, unw(x), I(0), n.ln) <= 1


@specfn
def btot(d):
    n = d.node
    t = lszr(n.lnm, n.lc, I(0), n.ln)
    d.E.cur.assume(t >= 0, t <= 2 ** 60)       # assumed: the entries fit in memory
    return t


@specfn
def dirok(d):
    return z3.And(SPECFN['dirokb'](d), uniq(d, X))


@specfn
def dirokb(d):
    n = d.node
    node_type_facts(d.E, d.E.cur, n.v)
    return z3.And(d.v != 0, n.v != 0, d.dserv.v != 0, n.nkind == 0, z3.Not(n.stale), unw(d.estimatedSize) == btot(d))


@specfn
def nlook(n, x):
    return look(n.lnm, n.lc, unw(x), I(0), n.ln)


@specfn
def oszs(name, o):
    return osz(unw(name), unw(o))


@specfn
def limitT(x):
    """HAMTShardingSize"""
    E = x.E
    return E.load_key(E.cur, 'C:int', E.gref(IO + '.HAMTShardingSize'), 'int')


SPECFN.update(some=lambda c: some(unw(c)), lsz=lambda a, b: lsz(unw(a), unw(b)), cnt=cnt, look=look, lszr=lszr)


def dmods(E, env):
    n = env['d'].node
    return [('G:' + k, n.v) for k in ('lc', 'lnm', 'ln', 'stale')]


NODE = 'd != None and d.node != None and d.node.nkind == 0'
SUM = ('sum', '0 <= ix and ix <= d.node.ln and d.estimatedSize == lszr(d.node.lnm, d.node.lc, 0, ix)')
Contract(IO + '.productionLinkSize', 'linkName linkCid', 'r', ensures=[('linksize', 'r == lsz(linkName, linkCid)')])
Contract(BD + 'computeEstimatedSize', 'd', '', requires=[NODE, 'btot(d) >= 0'], modifies=['d.estimatedSize'],
         ensures=[('estimate', 'd.estimatedSize == btot(d)')], loops=[LoopSpec(inv=[SUM])],
         inl={BD + 'ForEachLink': [LoopSpec(inv=[SUM])]})
Contract(BD + 'RemoveChild', 'd ctx name', 'err', requires=['dirok(d)', 'uniq(d, name)'], modifies=['d.estimatedSize', dmods],
         ensures=[('absent', 'notexist(err) == (old(blook(d, name)) == 0)'), ('noother', 'err == None or notexist(err)'),
                  ('removed', 'blook(d, name) == 0 and cnt(d.node.lnm, name, 0, d.node.ln) == 0'), ('others', 'implies(name != X, blook(d, X) == old(blook(d, X)))'),
                  ('estimate', 'd.estimatedSize == btot(d)'), ('total', 'btot(d) == old(btot(d) - oszs(name, blook(d, name)))'), ('usable', 'dirok(d)')])
Contract(BD + 'addLinkChild', 'd ctx name link', 'err', requires=['dirok(d)', 'uniq(d, name)', 'link != None'], modifies=['d.estimatedSize', dmods],
         ensures=[('noerror', 'err == None'), ('added', 'blook(d, name) == some(old(link.Cid))'), ('others', 'implies(name != X, blook(d, X) == old(blook(d, X)))'),
                  ('estimate', 'd.estimatedSize == btot(d)'), ('total', 'btot(d) == old(btot(d) - oszs(name, blook(d, name)) + lsz(name, link.Cid))'), ('usable', 'dirok(d)')])
Contract(BD + 'AddChild', 'd ctx name node', 'err', requires=['dirok(d)', 'uniq(d, name)', 'nodeany(node)'], modifies=['d.estimatedSize', dmods],
         ensures=[('added', 'implies(err == None, blook(d, name) == some(old(ncid(node))))'), ('failed', 'implies(err != None, blook(d, X) == old(blook(d, X)))'),
                  ('others', 'implies(name != X, blook(d, X) == old(blook(d, X)))'),
                  ('estimate', 'd.estimatedSize == btot(d)'), ('total', 'implies(err == None, btot(d) == old(btot(d) - oszs(name, blook(d, name)) + lsz(name, ncid(node))))'), ('usable', 'dirok(d)')])
Contract(BD + 'Find', 'd ctx name', 'r err', requires=['dirok(d)'], modifies=[lambda E, env: [('G:iofail', IOG)]],
         ensures=[('absent', 'implies(blook(d, name) == 0, notexist(err) and r == None)'), ('found', 'implies(err == None, blook(d, name) == some(ncid(r)))')])
Contract(BD + 'Links', 'd ctx', 'r err', requires=['dirok(d)'],
         ensures=[('all', 'err == None and r.len == d.node.ln'), ('each', 'implies(0 <= K and K < d.node.ln, linkat(r, K, d.node))')])
Contract(BD + 'needsToSwitchToHAMTDir', 'd name nodeToAdd', 'r err', requires=['dirok(d)', 'uniq(d, name)', 'implies(nodeToAdd != None, nodeany(nodeToAdd))'],
         ensures=[('noerror', 'err == None'), ('off', 'implies(limitT(d) == 0, not r)'),
                  ('threshold', 'implies(limitT(d) != 0, r == (btot(d) - oszs(name, blook(d, name)) + ITE(nodeToAdd == None, 0, lsz(name, ncid(nodeToAdd))) >= limitT(d)))')])
Contract(IO + '.newBasicDirectoryFromNode', 'dserv node', 'd', requires=['dserv != None and node != None and node.nkind == 0 and not node.stale', 'ntot(node) >= 0'],
         ensures=[('usable', 'fresh(d) and dirokb(d)'), ('node', 'sameref(d.node, node)')])
Contract(IO + '.newEmptyBasicDirectory', 'dserv', 'd', requires=['dserv != None'],
         ensures=[('usable', 'fresh(d) and fresh(d.node) and dirok(d)'), ('none', 'd.node.ln == 0')])


@specfn
def ntot(n):
    node_type_facts(n.E, n.E.cur, n.v)
    t = lszr(n.lnm, n.lc, I(0), n.ln)
    n.E.cur.assume(t >= 0, t <= 2 ** 60)
    return t


@specfn
def linkat(r, k, n):
    E, st = r.E, r.E.cur
    l = E.load_elem(st, r.v, unw(k))
    return z3.And(E.load_key(st, *fk(E, LINK, 'Cid', l)) == z3.Select(n.lc, unw(k)), E.load_key(st, *fk(E, LINK, 'Name', l)) == z3.Select(n.lnm, unw(k)))

# ---------------------------------------------------------------- sharded directories: a map from names to identifiers
# The operations of hamt.Shard are assumed to be those of a map (C16 explores that, bounded).
ghost('sm', SMAP)        # shard: its entries
ghost('svis', SMAP)      # enumeration (by the shard, or by the channel): the entries delivered
ghost('chsh', IntS)      # channel: the shard enumerated
ghost('cherr', BoolS)    # channel: a failure was delivered
stot = z3.Function('stot', SMAP, IntS)      # total size of a map's entries
smof = z3.Function('smof', IntS, SMAP)      # entries of the sharded directory under an identifier
hbad = z3.Function('hbad', IntS, BoolS)    # the sharded directory under an identifier cannot be loaded
PSH = '*%s.Shard' % HM
NOMAP = z3.K(BYTES, I(0))


def un_stot(e):
    m = e.arg(0)
    fs = [e >= 0]
    if z3.is_app(m) and m.decl().kind() == z3.Z3_OP_STORE:
        b, k, v = m.children()
        fs += [e == stot(b) - osz(k, z3.Select(b, k)) + osz(k, v), osz(k, z3.Select(b, k)) <= stot(b)]
    if m.eq(NOMAP):
        fs.append(e == 0)
    return fs


UNFOLD['stot'] = un_stot


def entry(E, st, m, name):
    o = z3.Select(m, name)
    st.assume(o >= 0, z3.Implies(o != 0, some(unsome(o)) == o), z3.Implies(o != 0, osz(name, o) <= stot(m)))
    return o


def at_name(E, st, name):
    """what is known for an arbitrary name holds for this one"""
    for f in list(st.pc):
        if any(z3.is_app(t) and t.eq(X) for t in subterms([f])):
            st.assume(z3.substitute(f, (X, name)))


def shard_error(E, st):
    e = maybe_error(E, st)
    st.assume(e != 0, e != E.gref(NEX))
    fail_flag(E, st, e)
    return e


def any_map(E, st, s):
    """an operation failed half way: nothing is known of the entries"""
    set_nf(E, st, 'sm', s, z3.Const(fresh_name('sm'), SMAP))


@model(SH + 'Find')
def m_sfind(E, st, args, ins):
    s, _, name = args
    E.nilcheck(st, s, ins.get('line'))
    o = entry(E, st, nf(E, st, 'sm', s), name)
    s2, s3 = st.copy(), st.copy()
    st.assume(o != 0)
    s2.assume(o == 0)
    return [(st, tup(new_link(E, st, name, unsome(o)), I(0))), (s2, tup(I(0), E.gref(NEX))), (s3, tup(I(0), shard_error(E, s3)))]


def put_entry(E, st, s, name, c):
    m = nf(E, st, 'sm', s)
    at_name(E, st, name)
    o = entry(E, st, m, name)
    set_nf(E, st, 'sm', s, z3.Store(m, name, some(c) if c is not None else I(0)))
    return o


@model(SH + 'Swap')
def m_sswap(E, st, args, ins):
    s, _, name, n = args
    E.nilcheck(st, s, ins.get('line'))
    E.nilcheck(st, n, ins.get('line'), 'method call on nil interface')
    s3 = st.copy()
    e = shard_error(E, s3)
    any_map(E, s3, s)
    c = cid_of(E, st, n)
    o = put_entry(E, st, s, name, c)
    s2 = st.copy()
    st.assume(o != 0)
    s2.assume(o == 0)
    return [(st, tup(new_link(E, st, name, unsome(o)), I(0))), (s2, tup(I(0), I(0))), (s3, tup(I(0), e))]


@model(SH + 'Set')
def m_sset(E, st, args, ins):
    return [(a, v.es[1]) for a, v in m_sswap(E, st, args, ins)]


@model(SH + 'SetLink')
def m_ssetlink(E, st, args, ins):
    s, _, name, l = args
    E.nilcheck(st, s, ins.get('line'))
    E.nilcheck(st, l, ins.get('line'))
    s3 = st.copy()
    e = shard_error(E, s3)
    any_map(E, s3, s)
    put_entry(E, st, s, name, E.load_key(st, *fk(E, LINK, 'Cid', l)))
    return [(st, I(0)), (s3, e)]


@model(SH + 'Take')
def m_stake(E, st, args, ins):
    s, _, name = args
    E.nilcheck(st, s, ins.get('line'))
    s3 = st.copy()
    e = shard_error(E, s3)
    any_map(E, s3, s)
    o = entry(E, st, nf(E, st, 'sm', s), name)
    s2 = st.copy()
    st.assume(o != 0)
    put_entry(E, st, s, name, None)
    s2.assume(o == 0)
    return [(st, tup(new_link(E, st, name, unsome(o)), I(0))), (s2, tup(I(0), E.gref(NEX))), (s3, tup(I(0), e))]


@model(SH + 'Remove')
def m_sremove(E, st, args, ins):
    return [(a, v.es[1]) for a, v in m_stake(E, st, args, ins)]


@model(HM + '.NewShard')
def m_newshard(E, st, args, ins):
    s2 = st.copy()
    e = maybe_error(E, s2)
    s2.assume(e != 0)
    r = E.new_ref(st, 'shard')
    E.wr(st, 'G:sm', r, NOMAP, check=False)
    return [(st, tup(r, I(0))), (s2, tup(I(0), e))]


@model(HM + '.NewHamtFromDag')
def m_newhamt(E, st, args, ins):
    E.nilcheck(st, args[1], ins.get('line'), 'method call on nil interface')
    c = cid_of(E, st, args[1])
    s2 = st.copy()
    e = maybe_error(E, s2)
    s2.assume(e != 0, e != E.gref(NEX), hbad(c))
    st.assume(z3.Not(hbad(c)))
    r = E.new_ref(st, 'shard')
    E.wr(st, 'G:sm', r, smof(c), check=False)
    return [(st, tup(r, I(0))), (s2, tup(I(0), e))]


@model(SH + 'SetCidBuilder')
def m_ssetb(E, st, args, ins):
    E.nilcheck(st, args[0], ins.get('line'))
    return [(st, tup())]


@model(SH + 'CidBuilder')
def m_sgetb(E, st, args, ins):
    E.nilcheck(st, args[0], ins.get('line'))
    return [(st, E.result_of(st, ins))]


def next_entry(E, st, s, key):
    """an entry not delivered before; key is where the enumeration keeps what it delivered"""
    m, v = nf(E, st, 'sm', s), nf(E, st, 'svis', key)
    q = z3.Const(fresh_name('ent'), BYTES)
    o = z3.Select(m, q)
    return q, o, m, v


@model(SH + 'ForEachLink')
def m_sforeach(E, st, args, ins):
    """calls the function once for every entry, ends on its error, or fails"""
    s, _, f = args
    E.nilcheck(st, s, ins.get('line'))
    E.wr(st, 'G:svis', s, NOMAP, check=False)

    def body(a):
        out = []
        b = a.copy()
        b.assume(nf(E, b, 'svis', s) == nf(E, b, 'sm', s))
        out.append((b, I(0)))
        c = a.copy()
        out.append((c, shard_error(E, c)))
        q, o, m, v = next_entry(E, a, s, s)
        a.assume(o > 0, z3.Select(v, q) == 0, some(unsome(o)) == o, stot(z3.Store(v, q, o)) <= stot(m))
        at_name(E, a, q)
        l = new_link(E, a, q, unsome(o))
        E.wr(a, 'G:svis', s, z3.Store(v, q, o), check=False)
        fn = E.funcenc[f.get_id()][0] if z3.is_expr(f) and f.get_id() in E.funcenc else f
        i2 = dict(ins, t='error', sig='func(%s) error' % PLINK)
        for oc in E.call_fn(a, i2, fn.fn, [l], fn.bind) if isinstance(fn, FuncV) else E.call(a, i2, fn, [l]):
            x = oc.st
            y = x.copy()
            x.assume(oc.res == 0)
            y.assume(oc.res != 0)
            out.append((x, None))
            out.append((y, oc.res))
        return out
    return E.visitloop(st, visit_spec(E, st), body, 'visits of Shard.ForEachLink', ins.get('line'))


@model(SH + 'EnumLinksAsync')
def m_senum(E, st, args, ins):
    E.nilcheck(st, args[0], ins.get('line'))
    r = E.new_ref(st, 'chan')
    for k, v in (('chsh', args[0]), ('svis', NOMAP), ('cherr', FALSE)):
        E.wr(st, 'G:' + k, r, v, check=False)
    return [(st, r)]


lkname = z3.Function('lkname', IntS, BYTES)     # name and entry of a link when it was received
lkent = z3.Function('lkent', IntS, IntS)


def recv_entry(E, st, ch, ins):
    """the next result of an enumeration: an entry not delivered before, a failure, or the end: all were delivered, or a failure was"""
    if 'LinkResult' not in str(ins['t']):
        raise Unsupported('receive')
    s = nf(E, st, 'chsh', ch)
    q, o, m, v = next_entry(E, st, s, ch)
    ok, e, link = z3.Bool(fresh_name('ok')), maybe_error(E, st), new_link(E, st, q, unsome(o))
    v2, ce = z3.Const(fresh_name('vis'), SMAP), nf(E, st, 'cherr', ch)
    st.assume(z3.Implies(z3.Not(ok), z3.Or(ce, v == m)))
    new = z3.And(ok, e == 0)
    st.assume(lkname(link) == q, lkent(link) == o, z3.Implies(new, some(unsome(o)) == o))
    st.assume(z3.Implies(new, z3.And(o > 0, z3.Select(v, q) == 0, v2 == z3.Store(v, q, o), stot(v2) == stot(v) + lsz(q, unsome(o)), stot(v2) <= stot(m))))
    st.assume(z3.Implies(z3.Not(new), v2 == v))
    E.wr(st, 'G:svis', ch, v2, check=False)
    E.wr(st, 'G:cherr', ch, z3.Or(ce, z3.And(ok, e != 0)), check=False)
    t = U + '.LinkResult'
    return TupleV([StructV(t, [z3.If(e == 0, link, I(0)), e]), ok])


RECV.append(recv_entry)


@specfn
def hok(d):
    return z3.And(d.v != 0, d.shard.v != 0, d.dserv.v != 0)


@specfn
def small_(d):
    """assumed: the sizes fit"""
    d.E.cur.assume(stot(smap(d)) <= 2 ** 60, unw(d.sizeChange) <= 2 ** 60, unw(d.sizeChange) >= -2 ** 60)
    return TRUE


def smap(d):
    return d.E.rd(d.E.cur, 'G:sm', d.shard.v)


@specfn
def hlook(d, x):
    return z3.Select(smap(d), unw(x))


@specfn
def htot(d):
    return stot(smap(d))


@specfn
def hput(d, name, o):
    return z3.Store(smap(d), unw(name), unw(o))


@specfn
def visited(x):
    """what the enumeration of the shard has delivered"""
    return x.E.rd(x.E.cur, 'G:svis', x.v)


SPECFN.update(smap=smap, stot=stot, ref=lambda x: x.v)
HM_ = lambda E, env: [('G:sm', env['d'].shard.v), ('G:iofail', IOG)]
IO_ = lambda E, env: [('G:iofail', IOG)]
HREQ = ['hok(d)', 'small_(d)']
Contract(HD + 'AddChild', 'd ctx name nd', 'err', requires=HREQ + ['nodeany(nd)'], modifies=['d.sizeChange', HM_],
         ensures=[('added', 'implies(err == None, smap(d) == old(hput(d, name, some(ncid(nd)))))'), ('total', 'implies(err == None, htot(d) == old(htot(d) - oszs(name, hlook(d, name)) + lsz(name, ncid(nd))))'),
                  ('change', 'implies(err == None, d.sizeChange == old(d.sizeChange - oszs(name, hlook(d, name)) + lsz(name, ncid(nd))))')])
Contract(HD + 'RemoveChild', 'd ctx name', 'err', requires=HREQ, modifies=['d.sizeChange', HM_],
         ensures=[('removed', 'implies(err == None, smap(d) == old(hput(d, name, 0)) and old(hlook(d, name)) != 0)'), ('total', 'implies(err == None, htot(d) == old(htot(d) - oszs(name, hlook(d, name))))'),
                  ('change', 'implies(err == None, d.sizeChange == old(d.sizeChange - oszs(name, hlook(d, name))))'),
                  ('absent', 'implies(old(hlook(d, name)) == 0, err != None)'), ('unchanged', 'implies(notexist(err), smap(d) == old(smap(d)) and d.sizeChange == old(d.sizeChange))')])
Contract(HD + 'Find', 'd ctx name', 'r err', requires=HREQ, modifies=[IO_],
         ensures=[('absent', 'implies(hlook(d, name) == 0, err != None and r == None)'), ('notfound', 'implies(notexist(err), hlook(d, name) == 0 or iofail(d))'), ('found', 'implies(err == None, hlook(d, name) == some(ncid(r)))')])
Contract(HD + 'sizeBelowThreshold', 'd ctx sizeChange', 'r err', requires=HREQ + ['ctx != None', 'limitT(d) != 0', 'sizeChange >= -(2**61) and sizeChange <= 2**61', 'htot(d) + sizeChange >= 0'], modifies=[IO_],
         ensures=[('below', 'implies(err == None, r == (htot(d) + sizeChange < limitT(d)))')],
         loops=[LoopSpec(inv=[('partial', 'partialSize == stot(visited(linkResults)) and 0 <= partialSize and partialSize <= htot(d) and not linkResults.cherr and linkResults.chsh == ref(d.shard)')])])
Contract(HD + 'needsToSwitchToBasicDir', 'd ctx name nodeToAdd', 'r err', requires=HREQ + ['ctx != None', 'implies(nodeToAdd != None, nodeany(nodeToAdd))'], modifies=[IO_],
         ensures=[('off', 'implies(err == None and limitT(d) == 0, not r)'),
                  ('shrunk', 'implies(err == None and limitT(d) != 0, r == (d.sizeChange + opchange(d, name, nodeToAdd) < 0 and htot(d) + opchange(d, name, nodeToAdd) < limitT(d)))')])
Contract(HD + 'switchToBasic', 'd ctx', 'r err', requires=HREQ, modifies=[IO_],
         ensures=[('usable', 'implies(err == None, fresh(r) and fresh(r.node) and dirok(r))'), ('same', 'implies(err == None, blook(r, X) == hlook(d, X))'), ('total', 'implies(err == None, btot(r) == htot(d))')],
         inl={HD + 'ForEachLink': []},
         visits=[LoopSpec(inv=[('usable', 'dirok(basicDir)'), ('same', 'blook(basicDir, X) == sel(visited(d.shard), X)'), ('total', 'btot(basicDir) == stot(visited(d.shard))')])])
Contract(BD + 'switchToSharding', 'd ctx', 'r err', requires=['dirok(d)'], modifies=[IO_],
         ensures=[('usable', 'implies(err == None, fresh(r) and fresh(r.shard) and hok(r) and r.sizeChange == 0)'), ('same', 'implies(err == None, hlook(r, X) == blook(d, X))'), ('total', 'implies(err == None, htot(r) == btot(d))')],
         loops=[LoopSpec(inv=[('same', '0 <= ix and ix <= d.node.ln and hlook(hamtDir, X) == look(d.node.lnm, d.node.lc, X, 0, ix)'), ('total', 'htot(hamtDir) == lszr(d.node.lnm, d.node.lc, 0, ix)')])])


@specfn
def opchange(d, name, n):
    nm = unw(name)
    return z3.If(n.v == 0, I(0), lsz(nm, SPECFN['ncid'](n))) - osz(nm, z3.Select(smap(d), nm))


# ---------------------------------------------------------------- the form that changes
def B_(d):
    return W(d.E, d.Directory.v, TBD)


def H_(d):
    return W(d.E, d.Directory.v, THD)


@specfn
def flat(d):
    x = d.Directory.v
    return z3.And(x != 0, dyn(x) == d.E.P.dynid(TBD))


@specfn
def sharded(d):
    x = d.Directory.v
    return z3.And(x != 0, dyn(x) == d.E.P.dynid(THD))


@specfn
def ddok(d):
    return z3.And(SPECFN['ddokb'](d), SPECFN['once'](d, X))


@specfn
def ddokb(d):
    f, s = flat(d), sharded(d)
    SPECFN['btot'](B_(d))
    d.E.cur.assume(z3.Implies(s, z3.And(stot(smap(H_(d))) <= 2 ** 60, unw(H_(d).sizeChange) <= 2 ** 60, unw(H_(d).sizeChange) >= -2 ** 60)))   # assumed: sizes fit
    return z3.And(d.v != 0, z3.Or(f, s), z3.Implies(f, dirokb(B_(d))), z3.Implies(s, hok(H_(d))))


@specfn
def once(d, name):
    """a flat directory has no two entries of that name"""
    return z3.Implies(flat(d), uniq(B_(d), name))


@specfn
def dlook(d, x):
    """the entry under a name: 0 when there is none"""
    return z3.If(flat(d), ent(B_(d), x), z3.Select(smap(H_(d)), unw(x)))


@specfn
def dtot(d):
    return z3.If(flat(d), btot(B_(d)), stot(smap(H_(d))))


@specfn
def high(d):
    """the total the tracked size changes are relative to"""
    return stot(smap(H_(d))) - unw(H_(d).sizeChange)


def dd_mods(E, env):
    d = env['d']
    x = d.Directory.v
    n, s = B_(d).node.v, H_(d).shard.v
    return [('G:' + k, n) for k in ('lc', 'lnm', 'ln', 'stale')] + [('F:%s.BasicDirectory.estimatedSize' % IO, x), ('F:%s.HAMTDirectory.sizeChange' % IO, x), ('G:sm', s), ('G:iofail', IOG)]


DREQ = ['ddok(d)', 'once(d, name)', 'ctx != None']
DFORM = [('off', 'implies(err == None and limitT(d) == 0, flat(d) == old(flat(d)))'),
         ('shards', 'implies(err == None and old(flat(d)) and limitT(d) != 0, %s)'),
         ('unshards', 'implies(err == None and old(sharded(d)) and limitT(d) != 0 and old(high(d)) >= limitT(d), flat(d) == (dtot(d) < limitT(d)))'),
         ('only below', 'implies(err == None and old(sharded(d)) and flat(d), dtot(d) < limitT(d))'),
         ('high', 'implies(err == None and sharded(d), implies(old(sharded(d)), high(d) == old(high(d))) and implies(old(flat(d)), high(d) >= limitT(d)))')]


def dform(grow):
    return [(a, b % grow if '%s' in b else b) for a, b in DFORM]


Contract(DD + 'AddChild', 'd ctx name nd', 'err', requires=DREQ + ['nodeany(nd)'], modifies=['d.Directory', dd_mods],
         ensures=[('usable', 'implies(err == None or old(flat(d)), ddok(d))'), ('added', 'implies(err == None, dlook(d, name) == some(old(ncid(nd))))'),
                  ('others', 'implies((err == None or old(flat(d))) and name != X, dlook(d, X) == old(dlook(d, X)))'),
                  ('failed', 'implies(err != None, flat(d) == old(flat(d))) and implies(err != None and old(flat(d)), dlook(d, X) == old(dlook(d, X)))'),
                  ('total', 'implies(err == None, dtot(d) == old(dtot(d) - oszs(name, dlook(d, name)) + lsz(name, ncid(nd))))')] + dform('sharded(d) == (dtot(d) >= limitT(d))'))
Contract(DD + 'RemoveChild', 'd ctx name', 'err', requires=DREQ, modifies=['d.Directory', dd_mods],
         ensures=[('usable', 'implies(err == None or old(flat(d)), ddok(d))'), ('removed', 'implies(err == None, dlook(d, name) == 0 and old(dlook(d, name)) != 0)'),
                  ('absent', 'implies(old(dlook(d, name)) == 0, err != None) and implies(old(flat(d)), notexist(err) == (old(dlook(d, name)) == 0))'),
                  ('others', 'implies((err == None or notexist(err)) and name != X, dlook(d, X) == old(dlook(d, X)))'),
                  ('failed', 'implies(err != None, flat(d) == old(flat(d))) and implies(notexist(err), dlook(d, X) == old(dlook(d, X)))'),
                  ('total', 'implies(err == None, dtot(d) == old(dtot(d) - oszs(name, dlook(d, name))))')] + dform('flat(d)'))
Contract(DD + 'Find', 'd ctx name', 'r err', requires=['ddok(d)'], modifies=[IO_],
         ensures=[('absent', 'implies(dlook(d, name) == 0, err != None and r == None)'), ('found', 'implies(err == None, dlook(d, name) == some(ncid(r)))')])


def asdir(r):
    return W(r.E, r.v, TDD)


@specfn
def dirnew(r):
    return z3.And(r.v != 0, dyn(r.v) == r.E.P.dynid(TDD), ddok(asdir(r)))


@specfn
def dirnewb(r):
    return z3.And(r.v != 0, dyn(r.v) == r.E.P.dynid(TDD), ddokb(asdir(r)))


SPECFN.update(asdir=asdir, flatnode=lambda d: B_(d).node, shardmap=lambda d: smap(H_(d)), smof=lambda c: smof(unw(c)), hbad=lambda c: hbad(unw(c)), szchange=lambda d: unw(H_(d).sizeChange))
Contract(IO + '.NewDirectory', 'dserv', 'r', requires=['dserv != None'],
         ensures=[('usable', 'fresh(r) and dirnew(r)'), ('none', 'flat(asdir(r)) and dlook(asdir(r), X) == 0 and dtot(asdir(r)) == 0')])
Contract(IO + '.NewDirectoryFromNode', 'dserv node', 'r err', requires=['dserv != None', 'implies(isproto(node), not node.stale and ntot(node) >= 0)'],
         ensures=[('usable', 'implies(err == None, fresh(r) and dirnewb(r))'), ('unique', 'implies(err == None and cnt(node.lnm, X, 0, node.ln) <= 1, dirnew(r))'), ('form', 'implies(err == None, isproto(node) and pbok(node.nd) and flat(asdir(r)) == (d_type(node.nd) == 1))'),
                  ('same', 'implies(err == None and flat(asdir(r)), dlook(asdir(r), X) == nlook(node, X) and dtot(asdir(r)) == ntot(node) and flatnode(asdir(r)).nd == node.nd)'),
                  ('loaded', 'implies(err == None and sharded(asdir(r)), shardmap(asdir(r)) == smof(ncid(node)) and szchange(asdir(r)) == 0)'),
                  ('copy', 'implies(err == None and flat(asdir(r)), fresh(flatnode(asdir(r))))'),
                  ('notdir', 'implies(isproto(node) and pbok(node.nd) and d_type(node.nd) != 1 and d_type(node.nd) != 5, err != None)'), ('foreign', 'implies(not isproto(node), err != None)'),
                  ('accepts', 'implies(isproto(node) and pbok(node.nd), (err == None) == (d_type(node.nd) == 1 or d_type(node.nd) == 5 and not hbad(ncid(node))))')])
