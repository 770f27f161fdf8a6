"""Contracts of the listings: callback, collected links, asynchronous stream."""
from c_dir import *
import execu

# ---------------------------------------------------------------- channels, callbacks: what was handed over
ghost('ccl', BoolS)      # closed
ghost('cnts', SMAP)      # how often an entry of that name was handed over
ghost('csent', SMAP)     # the entry last handed over under a name
ghost('cen', IntS)       # failures (or final verdicts) handed over
ghost('cev', IntS)       # the last of them
ghost('cdrop', BoolS)    # something handed over may have been taken back
ghost('cgot', BoolS)     # the verdict was received
ghost('chm', SMAP)       # receiver: the entries being listed
ghost('ctxdone', BoolS)  # context: seen done
ghost('donectx', IntS)   # channel: closed when that context is done
cfin = z3.Function('cfin', IntS, IntS)    # verdict the sender ends with
pair = z3.Function('pair', IntS, IntS)    # channel of links -> channel of its verdict
TLR = U + '.LinkResult'


def ch_make(E, st, r):
    for k, v in (('ccl', FALSE), ('cnts', NOMAP), ('csent', NOMAP), ('cen', I(0)), ('cev', I(0)), ('cdrop', FALSE)):
        E.wr(st, 'G:' + k, r, v, check=False)


def hand_link(E, st, ch, l, line):
    E.nilcheck(st, l, line)
    name, c = E.load_key(st, *fk(E, LINK, 'Name', l)), E.load_key(st, *fk(E, LINK, 'Cid', l))
    n = nf(E, st, 'cnts', ch)
    E.wr(st, 'G:cnts', ch, z3.Store(n, name, z3.Select(n, name) + 1), check=False)
    E.wr(st, 'G:csent', ch, z3.Store(nf(E, st, 'csent', ch), name, some(c)), check=False)


def hand_error(E, st, ch, e):
    E.wr(st, 'G:cen', ch, nf(E, st, 'cen', ch) + 1, check=False)
    E.wr(st, 'G:cev', ch, e, check=False)


def ch_send(E, st, ch, v, et, line):
    E.oblige(st, 'send on a closed channel', 'safety', z3.Not(nf(E, st, 'ccl', ch)), line)
    if isinstance(v, StructV) and et == TLR:
        l, e = v.f
        l = E.enc(l) if not z3.is_expr(l) else l
        if E.prove(st, e == 0, 1000):
            hand_link(E, st, ch, l, line)
        else:
            E.oblige(st, 'a result is either a link or an error', 'safety', e != 0, line)
            hand_error(E, st, ch, e)
    elif et == PLINK:
        hand_link(E, st, ch, v, line)
    elif et == 'error':
        hand_error(E, st, ch, v)
    else:
        raise Unsupported('send of ' + et)


def ch_close(E, st, ch, line):
    E.oblige(st, 'close of a nil or closed channel', 'safety', z3.And(ch != 0, z3.Not(nf(E, st, 'ccl', ch))), line)
    E.wr(st, 'G:ccl', ch, TRUE, check=False)


def ch_recv(E, st, ch, t):
    if t == 'struct{}':            # a context is done
        c = nf(E, st, 'donectx', ch)
        E.wr(st, 'G:ctxdone', c, TRUE, check=False)
        return [(st, StructV(t, []), FALSE)]
    if t == TLR:                   # the sender takes back a result nobody has read
        E.wr(st, 'G:cdrop', ch, TRUE, check=False)
        return [(st, E.fresh_val(st, t, 'taken'), z3.Bool(fresh_name('ok')))]
    if t == 'error':
        got = nf(E, st, 'cgot', ch)
        st.assume(cfin(ch) >= 0)
        v = z3.If(got, I(0), cfin(ch))
        E.wr(st, 'G:cgot', ch, TRUE, check=False)
        return [(st, v, z3.Not(got))]
    if t == PLINK:
        end = st.copy()
        m, v = nf(E, st, 'chm', ch), nf(E, st, 'svis', ch)
        end.assume(z3.Implies(cfin(pair(ch)) == 0, v == m))
        q = z3.Const(fresh_name('ent'), BYTES)
        o = z3.Select(m, q)
        st.assume(o > 0, z3.Select(v, q) == 0, some(unsome(o)) == o)
        E.wr(st, 'G:svis', ch, z3.Store(v, q, o), check=False)
        return [(st, new_link(E, st, q, unsome(o)), TRUE), (end, I(0), FALSE)]
    raise Unsupported('receive of ' + t)


execu.CHAN.update(make=ch_make, send=ch_send, close=ch_close, recv=ch_recv)


@model('(context.Context).Done')
def m_done(E, st, args, ins):
    E.nilcheck(st, args[0], ins.get('line'))
    r = E.new_ref(st, 'done')
    E.wr(st, 'G:donectx', r, args[0], check=False)
    return [(st, r)]


@model('(context.Context).Err')
def m_ctxerr2(E, st, args, ins):
    """once done, or once an error was given: an error for ever"""
    e, d = maybe_error(E, st), nf(E, st, 'ctxdone', args[0])
    st.assume(z3.Implies(d, e != 0))
    E.wr(st, 'G:ctxdone', args[0], z3.Or(d, e != 0), check=False)
    return [(st, e)]


# ---------------------------------------------------------------- vocabulary
@specfn
def at(p):
    """what a captured variable holds"""
    E, st = p.E, p.E.cur
    u = E.P.under(p.t)
    if u['k'] != 'ptr' or E.P.under(u['e'])['k'] not in ('ptr', 'chan', 'iface', 'func'):
        return p          # named in a loop: its value already
    t = u['e']
    if not (z3.is_expr(p.v) or isinstance(p.v, int)):
        return E.wrap(E.deref(st, p.v, t), t)
    return E.wrap(E.deref(st, p.v, t), t)


def handed(k):
    def f(c, x):
        v = c.v if isinstance(c, W) else unw(c)
        return z3.Select(c.E.rd(c.E.cur, 'G:' + k, v), unw(x))
    return f


SPECFN.update(times=handed('cnts'), handed=handed('csent'), cfin=lambda c: cfin(unw(c)), chm=lambda c, x: z3.Select(c.E.rd(c.E.cur, 'G:chm', c.v), unw(x)))


def cb_link(E, st, ins, callee, args):
    """the function of the caller: may fail"""
    hand_link(E, st, callee, args[0], ins.get('line'))
    e = maybe_error(E, st)
    hand_error(E, st, callee, e)
    return [(st, e)]


CBL = [('format.Link) error', cb_link)]
CBM = lambda E, env: [('G:' + k, env['f'].v) for k in ('cnts', 'csent', 'cen', 'cev')] + [('G:iofail', IOG)]
FRESHCB = 'f != None and forall_none(f)'


@specfn
def forall_none(f):
    """nothing handed over yet"""
    r = lambda k: f.E.rd(f.E.cur, 'G:' + k, f.v)
    return z3.And(r('cnts') == NOMAP, r('csent') == NOMAP, r('cen') == 0, r('cev') == 0)


ONEEACH = [('all', 'implies(err == None, times(f, X) == cnt(d.node.lnm, X, 0, d.node.ln) and handed(f, X) == blook(d, X))'), ('verdict', 'ref(err) == f.cev'), ('atmost', 'times(f, X) <= cnt(d.node.lnm, X, 0, d.node.ln)')]
FEACH = LoopSpec(inv=[('sofar', '0 <= ix and ix <= d.node.ln and times(f, X) == cnt(d.node.lnm, X, 0, ix) and handed(f, X) == look(d.node.lnm, d.node.lc, X, 0, ix) and f.cev == 0')])
Contract(BD + 'ForEachLink', 'd ctx f', 'err', requires=['dirokb(d)', FRESHCB], modifies=[CBM], cb=CBL, ensures=ONEEACH, loops=[FEACH])


@specfn
def dtimes(d, x):
    """how often the name is listed: once for every entry of that name"""
    n = B_(d).node
    return z3.If(flat(d), cnt(n.lnm, unw(x), I(0), n.ln), z3.If(z3.Select(smap(H_(d)), unw(x)) == 0, I(0), I(1)))


HSOFAR = [('sofar', 'times(f, X) == ITE(sel(visited(d.shard), X) == 0, 0, 1) and handed(f, X) == sel(visited(d.shard), X) and f.cev == 0')]
Contract(HD + 'ForEachLink', 'd ctx f', 'err', requires=['hok(d)', FRESHCB], modifies=[CBM], cb=CBL, visits=[LoopSpec(inv=HSOFAR)],
         ensures=[('all', 'implies(err == None, times(f, X) == ITE(hlook(d, X) == 0, 0, 1) and handed(f, X) == hlook(d, X))'), ('verdict', 'implies(f.cev != 0, err != None)')])
Contract(DD + 'ForEachLink', 'd ctx f', 'err', requires=['ddokb(d)', FRESHCB], modifies=[CBM],
         ensures=[('all', 'implies(err == None, times(f, X) == dtimes(d, X) and handed(f, X) == dlook(d, X))'), ('verdict', 'implies(f.cev != 0, err != None)')])


# ---------------------------------------------------------------- asynchronous streams
@model(HM + '.parallelShardWalk')
def m_pwalk(E, st, args, ins):
    """calls the function once for every entry, or fails; it fails when the context was seen done"""
    ctx, s, _, f = args
    E.nilcheck(st, s, ins.get('line'))
    E.wr(st, 'G:svis', s, NOMAP, check=False)

    def body(a):
        out = []
        b = a.copy()
        b.assume(nf(E, b, 'svis', s) == nf(E, b, 'sm', s), z3.Not(nf(E, b, 'ctxdone', ctx)))
        out.append((b, I(0)))
        c = a.copy()
        out.append((c, shard_error(E, c)))
        q, o, m, v = next_entry(E, a, s, s)
        a.assume(o > 0, z3.Select(v, q) == 0, some(unsome(o)) == o)
        at_name(E, a, q)
        l = new_link(E, a, q, unsome(o))
        E.wr(a, 'G:svis', s, z3.Store(v, q, o), check=False)
        fn = E.funcenc[f.get_id()][0] if z3.is_expr(f) and f.get_id() in E.funcenc else f
        for oc in E.call_fn(a, dict(ins, t='error'), fn.fn, [l], fn.bind):
            x = oc.st
            y = x.copy()
            x.assume(oc.res == 0)
            y.assume(oc.res != 0)
            out.append((x, None))
            if E.feasible(y, TRUE):
                out.append((y, oc.res))
        return out
    return E.visitloop(st, visit_spec(E, st), body, 'visits of parallelShardWalk', ins.get('line'))


def cb_cancel(E, st, ins, callee, args):
    return [(st, tup())]


CANCEL = [('func()', cb_cancel)]


def stream(ch):
    """a channel of listing results nobody has used yet"""
    return '%s != None and at(%s) != None and not at(%s).ccl and at(%s).cen == 0 and not at(%s).cdrop and emptych(at(%s))' % (ch, ch, ch, ch, ch, ch)


@specfn
def emptych(c):
    r = lambda k: c.E.rd(c.E.cur, 'G:' + k, c.v)
    return z3.And(r('cnts') == NOMAP, r('csent') == NOMAP)


CHM = lambda n: lambda E, env: [('G:' + k, at(env[n]).v) for k in ('ccl', 'cnts', 'csent', 'cen', 'cev', 'cdrop')] + [('G:iofail', IOG)]
ENDS = 'at(linkResults).ccl and at(linkResults).cen <= 1 and implies(at(linkResults).cen == 1, at(linkResults).cev != 0)'
Contract(BD + 'EnumLinksAsync$1', '', '', requires=['d != None and ctx != None and dirokb(at(d))', stream('linkResults'), 'at(ctx) != None'], modifies=[CHM('linkResults')],
         ensures=[('ends', ENDS), ('all', 'implies(at(linkResults).cen == 0, not at(linkResults).cdrop and times(at(linkResults), X) == cnt(at(d).node.lnm, X, 0, at(d).node.ln) and handed(at(linkResults), X) == blook(at(d), X))'),
                  ('atmost', 'times(at(linkResults), X) <= cnt(at(d).node.lnm, X, 0, at(d).node.ln)')],
         loops=[LoopSpec(inv=[('sofar', '0 <= ix and ix <= at(d).node.ln and not at(linkResults).ccl and at(linkResults).cen == 0 and not at(linkResults).cdrop and times(at(linkResults), X) == cnt(at(d).node.lnm, X, 0, ix) and handed(at(linkResults), X) == look(at(d).node.lnm, at(d).node.lc, X, 0, ix)')])])
Contract(SH + 'EnumLinksAsync$1', '', '', requires=['ds != None and cancel != None and at(ds) != None and at(cancel) != None and ctx != None', stream('linkResults'), 'at(ctx) != None'], modifies=[CHM('linkResults')], cb=CANCEL,
         ensures=[('ends', ENDS), ('all', 'implies(at(linkResults).cen == 0, not at(linkResults).cdrop and times(at(linkResults), X) == ITE(shm(at(ds), X) == 0, 0, 1) and handed(at(linkResults), X) == shm(at(ds), X))'),
                  ('atmost', 'times(at(linkResults), X) <= 1')],
         visits=[LoopSpec(inv=[('sofar', 'not at(linkResults).ccl and at(linkResults).cen == 0 and not at(linkResults).cdrop and times(at(linkResults), X) <= ITE(sel(visited(at(ds)), X) == 0, 0, 1) and implies(not at(ctx).ctxdone, times(at(linkResults), X) == ITE(sel(visited(at(ds)), X) == 0, 0, 1) and handed(at(linkResults), X) == sel(visited(at(ds)), X))')])])
SPECFN.update(shm=lambda s, x: z3.Select(s.E.rd(s.E.cur, 'G:sm', s.v), unw(x)))


def go_stream(owner):
    def hook(E, st, env):
        """what the receiver relies on: see the contract of the sender"""
        val = lambda n: E.deref(st, env[n].v, E.P.elem(env[n].t))
        ch = val('linkResults')
        for k, v in (('svis', NOMAP), ('cherr', FALSE)) + ((('chsh', val(owner)), )):
            E.wr(st, 'G:' + k, ch, v, check=False)
    return hook


execu.GOHOOK[SH + 'EnumLinksAsync$1'] = go_stream('ds')
execu.GOHOOK[BD + 'EnumLinksAsync$1'] = go_stream('d')


@specfn
def unread(c):
    """a stream of which nothing was received"""
    r = lambda k: c.E.rd(c.E.cur, 'G:' + k, c.v)
    return z3.And(c.v != 0, r('svis') == NOMAP, stot(r('svis')) == 0, z3.Not(r('cherr')))


lkc = Fold('lkc', [ARR], [BYTES], 'sum', lambda e, p: z3.If(lkname(e[0]) == p[0], I(1), I(0)))
lkl = Fold('lkl', [ARR], [BYTES], 'first', lambda e, p: z3.If(lkname(e[0]) == p[0], lkent(e[0]), 0))


def larr(r):
    return r.E.rd(r.E.cur, r.E.ekey(r.v.et), r.v.base)


@specfn
def lcount(r, x):
    """how many of the links have that name"""
    return lkc(larr(r), unw(x), I(0), r.v.len)


@specfn
def llook(r, x):
    return lkl(larr(r), unw(x), I(0), r.v.len)


@specfn
def received(r, k):
    """the link at that place has the name and identifier it was received with"""
    E, st = r.E, r.E.cur
    l = E.load_elem(st, r.v, unw(k))
    return z3.And(l > 0, l <= st.alloc, E.load_key(st, *fk(E, LINK, 'Name', l)) == lkname(l), some(E.load_key(st, *fk(E, LINK, 'Cid', l))) == lkent(l))


Contract(SH + 'EnumLinksAsync', 'ds ctx', 'r', requires=['ds != None and ctx != None'], modifies=[IO_], ensures=[('stream', 'fresh(r) and unread(r) and r.chsh == ref(ds)')])
Contract(SH + 'EnumLinks', 'ds ctx', 'r err', requires=['ds != None and ctx != None'], modifies=[IO_],
         ensures=[('all', 'implies(err == None, lcount(r, X) == ITE(shm(ds, X) == 0, 0, 1) and llook(r, X) == shm(ds, X))'), ('atmost', 'lcount(r, X) <= 1'),
                  ('each', 'implies(0 <= K and K < r.len, received(r, K))')],
         loops=[LoopSpec(inv=[('own', 'implies(links.base == 0, links.cap == 0) and (links.base == 0 or fresh(links) and not given(links))'), ('sofar', 'linkResults.chsh == ref(ds) and not linkResults.cherr and links.off == 0 and lcount(links, X) == ITE(sel(visited(linkResults), X) == 0, 0, 1) and llook(links, X) == sel(visited(linkResults), X)'),
                              ('each', 'implies(0 <= K and K < links.len, received(links, K))')])])
SPECFN['given'] = lambda r: r.E.rd(r.E.cur, 'G:lkg', r.v.base)    # the slice is a node's list of links
Contract(HD + 'Links', 'd ctx', 'r err', requires=['hok(d) and ctx != None'], modifies=[IO_],
         ensures=[('all', 'implies(err == None, lcount(r, X) == ITE(hlook(d, X) == 0, 0, 1) and llook(r, X) == hlook(d, X))'), ('atmost', 'lcount(r, X) <= 1'), ('each', 'implies(0 <= K and K < r.len, received(r, K))')])
Contract(DD + 'Links', 'd ctx', 'r err', requires=['ddok(d) and ctx != None'], modifies=[IO_],
         ensures=[('all', 'implies(err == None and sharded(d), lcount(r, X) == ITE(dlook(d, X) == 0, 0, 1) and llook(r, X) == dlook(d, X))'), ('atmost', 'implies(sharded(d), lcount(r, X) <= 1)'),
                  ('each', 'implies(sharded(d) and 0 <= K and K < r.len, received(r, K))'),
                  ('flat', 'implies(flat(d), err == None and r.len == flatnode(d).ln) and implies(flat(d) and 0 <= K and K < r.len, linkat(r, K, flatnode(d)))')])
Contract(BD + 'EnumLinksAsync', 'd ctx', 'r', requires=['dirokb(d) and ctx != None'], modifies=[IO_], ensures=[('stream', 'fresh(r) and unread(r) and r.chsh == ref(d)')])
Contract(HD + 'EnumLinksAsync', 'd ctx', 'r', requires=['hok(d) and ctx != None'], modifies=[IO_], ensures=[('stream', 'fresh(r) and unread(r) and r.chsh == ref(d.shard)')])
Contract(DD + 'EnumLinksAsync', 'd ctx', 'r', requires=['ddok(d) and ctx != None'], modifies=[IO_],
         ensures=[('stream', 'fresh(r) and unread(r) and r.chsh == ITE(flat(d), ref(d.Directory), shardref(d))')])
SPECFN['shardref'] = lambda d: H_(d).shard.v
