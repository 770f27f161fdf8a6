"""Contracts of io/dagreader.go: reading and seeking."""
from shapes import *
IO = U + '/io'
DR = '(*%s.dagReader).' % IO
PDR = '*%s.dagReader' % IO
WK = IF + '.Walker'
PBR = '*bytes.Reader'

# ---------------------------------------------------------------- the walker (trusted): visits the nodes in depth-first order
ghost('brest', BYTES)    # bytes.Reader: bytes not yet read
ghost('bdat', BYTES)     # bytes.Reader: all its bytes
ghost('nvn', IntS)       # navigable node: the node
ghost('wrest', BYTES)    # walker: content of the nodes not yet visited
ghost('wok', BoolS)      # walker: started on a well-formed plain file
ghost('wF', BYTES)       # walker: content of the file it was started on
ghost('wtop', BoolS)     # walker: nothing visited yet
ghost('wc', IntS)        # walker: node being visited (or to be visited next)
ghost('wi', IntS)        # walker: active child index
ghost('wn', IntS)        # walker: children of the active node
ghost('waft', BYTES)     # walker: content after the active node
ghost('wpause', BoolS)   # walker: asked to pause
ghost('sunk', BYTES)     # writer: bytes it accepted


@model('context.WithCancel')
def m_withcancel(E, st, args, ins):
    E.nilcheck(st, args[0], ins.get('line'))
    return [(st, tup(E.new_ref(st, 'ctx'), E.new_ref(st, 'cancel')))]


@model('(context.Context).Err')
def m_ctxerr(E, st, args, ins):
    return [(st, maybe_error(E, st))]


@model(IF + '.NewNavigableIPLDNode')
def m_navnode(E, st, args, ins):
    E.nilcheck(st, args[0], ins.get('line'))
    r = E.new_ref(st, 'nav')
    E.wr(st, 'G:nvn', r, args[0], check=False)
    return [(st, r)]


@model(IF + '.ExtractIPLDNode')
def m_extract(E, st, args, ins):
    n = E.rd(st, 'G:nvn', args[0])
    return [(st, n)]


@model(IF + '.NewWalker')
def m_newwalker(E, st, args, ins):
    n = E.rd(st, 'G:nvn', args[1])
    c = node_cid(E, st, n)
    cid_facts(E, st, n, c)
    w = E.new_ref(st, 'walker')
    for k, v in (('wrest', fc(c)), ('wF', fc(c)), ('wok', z3.And(wf(c), pl(c), z3.Not(nf(E, st, 'stale', n)), nf(E, st, 'nkind', n) <= 1)), ('wtop', TRUE), ('wc', c), ('wi', I(0)), ('wn', I(0)), ('waft', EMPTY), ('wpause', FALSE)):
        E.wr(st, 'G:' + k, w, v, check=False)
    return [(st, w)]


@model('(*%s).SetContext' % WK)
def m_setctx(E, st, args, ins):
    E.nilcheck(st, args[0], ins.get('line'))
    return [(st, tup())]


@model('(*%s).Pause' % WK)
def m_pause(E, st, args, ins):
    set_nf(E, st, 'wpause', args[0], TRUE)
    return [(st, tup())]


def eodref(E):
    return E.gref(IF + '.EndOfDag')


def err_value(E, st, res):
    return res if z3.is_expr(res) else I(0)


def wk_error(E, st):
    e = maybe_error(E, st)
    st.assume(e != 0, e != eodref(E), e != E.gref(IF + '.ErrNextNoChild'))
    fail_flag(E, st, e)
    return e


def visit_node(E, st, w, c):
    """fetch the node c and call the visitor's argument into being"""
    r = E.new_ref(st, 'vis')
    st.assume(c > 0)
    unfold_cid(E, st, c)
    for k, v in (('lc', plc(c)), ('lnm', plnm(c)), ('ln', pln(c)), ('nd', pnd(c)), ('stale', FALSE), ('fspath', EMPTY), ('fsoff', I(0)), ('nkind', ckind(c))):
        E.wr(st, 'G:' + k, r, v, check=False)
    st.assume(ckind(c) >= 0, ckind(c) <= 2, (dyn(r) == E.P.dynid(PPN)) == (ckind(c) == 0), (dyn(r) == E.P.dynid(PRN)) == (ckind(c) == 1), z3.Implies(ckind(c) == 1, pln(c) == 0))
    nav = E.new_ref(st, 'nav')
    E.wr(st, 'G:nvn', nav, r, check=False)
    return nav


def call_visitor(E, st, w, visitor, nav, ins):
    """[(state, error, paused)]"""
    out = []
    for o in E.call(st, ins, visitor, [nav]):
        s, e = o.st, err_value(E, o.st, o.res)
        p = E.rd(s, 'G:wpause', w)
        for pv in (True, False):
            s2 = s.copy()
            if not E.feasible(s2, p == pv):
                continue
            s2.assume(p == pv)
            E.wr(s2, 'G:wpause', w, FALSE)
            for ev in (True, False):
                if not E.feasible(s2, (e != 0) == ev):
                    continue
                s3 = s2.copy()
                s3.assume((e != 0) == ev)
                out.append((s3, e if ev else None, pv))
    return out


def visit_spec(E, st):
    c = CONTRACTS.get(st.frame.fn)
    if c is None or not c.visits or E.C is not None and st.frame.fn in E.C.inl and E.C.visits:
        c = E.C
    return c.visits[0] if c is not None and c.visits else None


def branch(E, st, *conds):
    s = st.copy()
    s.assume(*conds)
    return s


@model('(*%s).Iterate' % WK)
def m_iterate(E, st, args, ins):
    w, visitor = args
    E.nilcheck(st, w, ins.get('line'))
    E.wr(st, 'G:wtop', w, FALSE)

    def body(s):
        ok = E.rd(s, 'G:wok', w)
        rest = E.rd(s, 'G:wrest', w)
        out = []
        a = s.copy()           # the whole DAG has been visited
        a.assume(z3.Implies(ok, rest == EMPTY))
        out.append((a, eodref(E)))
        b = s.copy()           # a node could not be fetched
        out.append((b, wk_error(E, b)))
        c = z3.Int(fresh_name('vc'))
        rest2 = z3.Const(fresh_name('wr'), BYTES)
        for leaf in (True, False):
            v = s.copy()
            nav = visit_node(E, v, w, c)
            v.assume((pln(c) == 0) == leaf, z3.Implies(ok, z3.And(wf(c), pl(c), ckind(c) <= 1)))
            if leaf:
                v.assume(z3.Implies(ok, rest == z3.Concat(fc(c), rest2)))
                E.wr(v, 'G:wrest', w, rest2)
            for s3, e, p in call_visitor(E, v, w, visitor, nav, ins):
                if e is not None:
                    out.append((s3, e))
                else:
                    out.append((s3, I(0) if p else None))
        return out
    return E.visitloop(st, visit_spec(E, st), body, 'visits of Walker.Iterate', ins.get('line'))


def rest_at(c, i, n, aft):
    return z3.Concat(catr(plc(c), i, n), aft)


@model('(*%s).Seek' % WK)
def m_wseek(E, st, args, ins):
    w, visitor = args
    E.nilcheck(st, w, ins.get('line'))
    if not E.prove(st, E.rd(st, 'G:wtop', w), 200):
        raise Unsupported('Walker.Seek on a walker that has been used')

    def body(s):
        ok = E.rd(s, 'G:wok', w)
        c, aft = E.rd(s, 'G:wc', w), E.rd(s, 'G:waft', w)
        out = []
        b = s.copy()
        out.append((b, wk_error(E, b)))
        for leaf in (True, False):
            v = s.copy()
            nav = visit_node(E, v, w, c)
            n = pln(c)
            v.assume((n == 0) == leaf, z3.Implies(ok, z3.And(wf(c), pl(c), ckind(c) <= 1)))
            for k, x in (('wi', I(0)), ('wn', n), ('wtop', FALSE), ('wrest', aft if leaf else rest_at(c, I(0), n, aft))):
                E.wr(v, 'G:' + k, w, x)
            for s3, e, p in call_visitor(E, v, w, visitor, nav, ins):
                if e is not None:
                    out.append((s3, e))
                    continue
                if p or leaf:
                    out.append((s3, I(0)))
                    continue
                wi = E.rd(s3, 'G:wi', w)
                end = s3.copy()
                if E.feasible(end, wi >= n):
                    end.assume(wi >= n)
                    out.append((end, I(0)))
                if not E.feasible(s3, wi < n):
                    continue
                s3.assume(wi < n)
                c2 = z3.Select(plc(c), wi)
                unfold_cid(E, s3, c2)
                E.wr(s3, 'G:wc', w, c2)
                E.wr(s3, 'G:waft', w, rest_at(c, simp_int(wi + 1), n, aft))
                out.append((s3, None))
        return out
    return E.visitloop(st, visit_spec(E, st), body, 'visits of Walker.Seek', ins.get('line'))


@model('(*%s).ActiveChildIndex' % WK)
def m_aci(E, st, args, ins):
    w = args[0]
    E.oblige(st, 'walker is at a node', 'safety', z3.Not(E.rd(st, 'G:wtop', w)), ins.get('line'))
    return [(st, E.rd(st, 'G:wi', w))]


@model('(*%s).NextChild' % WK)
def m_nextchild(E, st, args, ins):
    w = args[0]
    E.oblige(st, 'walker is at a node', 'safety', z3.Not(E.rd(st, 'G:wtop', w)), ins.get('line'))
    i, n, c, aft = (E.rd(st, 'G:' + k, w) for k in ('wi', 'wn', 'wc', 'waft'))
    out = []
    for last in (True, False):
        s = st.copy()
        g = i + 1 >= n if last else i + 1 < n
        if not E.feasible(s, g):
            continue
        s.assume(g)
        j = n if last else simp_int(i + 1)
        E.wr(s, 'G:wi', w, j)
        E.wr(s, 'G:wrest', w, rest_at(c, j, n, aft))
        out.append((s, E.gref(IF + '.ErrNextNoChild') if last else I(0)))
    return out


# ---------------------------------------------------------------- bytes.Reader (trusted)
@model('bytes.NewReader')
def m_newreader(E, st, args, ins):
    r = E.new_ref(st, 'brd')
    b = E.bytes_of(st, args[0])
    E.wr(st, 'G:bdat', r, b, check=False)
    E.wr(st, 'G:brest', r, b, check=False)
    return [(st, r)]


def take(E, st, r, n):
    b = E.rd(st, 'G:brest', r)
    E.wr(st, 'G:brest', r, z3.Extract(b, n, z3.Length(b) - n))


@model('(%s).Read' % PBR)
def m_bread(E, st, args, ins):
    r, out = args
    E.nilcheck(st, r, ins.get('line'))
    b = E.rd(st, 'G:brest', r)
    st.assume(z3.Length(b) <= MAXLEN)
    n = E.copy(st, out, b, ins)
    take(E, st, r, n)
    e = z3.Int(fresh_name('rerr'))
    st.assume(e == z3.If(z3.Length(b) == 0, E.gref('io.EOF'), I(0)))
    return [(st, tup(n, e))]


@model('(%s).Len' % PBR)
def m_blen(E, st, args, ins):
    E.nilcheck(st, args[0], ins.get('line'))
    b = E.rd(st, 'G:brest', args[0])
    st.assume(z3.Length(b) <= MAXLEN)
    return [(st, z3.Length(b))]


@model('(%s).Seek' % PBR)
def m_bseek(E, st, args, ins):
    r, off, wh = args
    E.nilcheck(st, r, ins.get('line'))
    if not (is_const_int(wh) and wh.as_long() == 0):
        raise Unsupported('bytes.Reader.Seek not from the start')
    s2 = st.copy()
    s2.assume(off < 0)
    e = new_error(E, s2)
    st.assume(off >= 0)
    d = E.rd(st, 'G:bdat', r)
    st.assume(z3.Length(d) <= MAXLEN)
    E.wr(st, 'G:brest', r, z3.If(off >= z3.Length(d), EMPTY, z3.Extract(d, off, z3.Length(d) - off)))
    return [(st, tup(off, I(0))), (s2, tup(I(0), e))]


@model('(%s).WriteTo' % PBR)
def m_bwriteto(E, st, args, ins):
    r, w = args
    E.nilcheck(st, r, ins.get('line'))
    b = E.rd(st, 'G:brest', r)
    st.assume(z3.Length(b) <= MAXLEN)
    n = z3.Int(fresh_name('wn'))
    e = maybe_error(E, st)
    st.assume(e != eodref(E))     # a writer does not return the walker's private sentinel
    st.assume(n >= 0, n <= z3.Length(b), z3.Implies(e == 0, n == z3.Length(b)))
    E.nilcheck(st, w, ins.get('line'))
    E.wr(st, 'G:sunk', w, z3.Concat(E.rd(st, 'G:sunk', w), z3.Extract(b, I(0), n)))
    take(E, st, r, n)
    return [(st, tup(n, e))]


# ---------------------------------------------------------------- representation
@specfn
def drs(dr):
    """structure of a reader"""
    return z3.And(dr.v != 0, dr.dagWalker.v != 0, dr.rootNode.v != 0, dr.ctx.v != 0, z3.Not(dr.dagWalker.wpause))


@specfn
def drem(dr):
    """what the next reads deliver"""
    cn = dr.currentNodeData
    return z3.Concat(z3.If(cn.v == 0, EMPTY, cn.brest), dr.dagWalker.wrest)


@specfn
def drgood(dr):
    """on a well-formed file: what is left to deliver is the content from the offset on"""
    F = dr.dagWalker.wF
    o = dr.offset
    return z3.And(dr.dagWalker.wok, o >= 0, z3.Length(F) <= MAXLEN, drem(dr) == z3.If(o >= z3.Length(F), EMPTY, z3.Extract(F, o, z3.Length(F) - o)))


@specfn
def drfile(dr):
    """the reader's root is a well-formed plain file, the one being read"""
    n = dr.rootNode
    return z3.And(nodeok(n), wf(ncid(n)), pl(ncid(n)), dr.dagWalker.wF == fc(ncid(n)))


@specfn
def asdr(r):
    return W(r.E, r.v, PDR)


@specfn
def isglob(e, name):
    return e.v == e.E.gref(name)


def dr_mods(E, env):
    dr = env['dr']
    w = dr.dagWalker
    out = [('G:' + k, w.v) for k in ('wrest', 'wtop', 'wc', 'wi', 'wn', 'waft', 'wpause')] + [('G:iofail', IOG)]
    cn = dr.currentNodeData
    return out + [('G:brest', cn.v)]


DRM = ['dr.currentNodeData', 'dr.offset', dr_mods]
KEPT = ('usable', 'drs(dr)')


def out_mods(E, env):
    return [('E:byte', env['out'].v.base)]


@specfn
def isdr(r):
    return dyn(r.v) == r.E.P.dynid(PDR)


PARTS = ('parts', '(sameref(dr.dagWalker, old(dr.dagWalker)) or fresh(dr.dagWalker)) and (dr.currentNodeData == None or sameref(dr.currentNodeData, old(dr.currentNodeData)) or fresh(dr.currentNodeData))')
NOIO = ('noio', 'implies(err == None or isglob(err, "io.EOF"), iofail(dr) == old(iofail(dr)))')
READ_ENS = [KEPT, PARTS, NOIO, ('count', '0 <= n and n <= seqlen(out)'),
                  ('short', 'implies(n < seqlen(out), err != None)'),
                  ('good', 'implies(old(drgood(dr)), drgood(dr))'),
                  ('inorder', 'implies(old(drgood(dr)), old(drem(dr)) == cat(sub(bytes_(out), 0, n), drem(dr)))'),
                  ('pos', 'implies(old(drgood(dr)), dr.offset == old(dr.offset) + n)'),
                  ('eof', 'implies(old(drgood(dr)) and isglob(err, "io.EOF"), drem(dr) == EMPTY)'),
                  ('only', 'implies(old(drgood(dr)) and err != None, isglob(err, "io.EOF") or iofail(dr))')]
Contract(DR + 'Read', 'dr out', 'n err', requires=['drs(dr)'], modifies=DRM + [out_mods], ensures=READ_ENS)
Contract(DR + 'Size', 'dr', 'r', requires=['dr != None'], ensures=[('size', 'r == dr.size')])
Contract(DR + 'CtxReadFull', 'dr ctx out', 'n err',
         requires=['drs(dr)', 'ctx != None'],
         modifies=DRM + [out_mods],
         ensures=READ_ENS,
         visits=[LoopSpec(inv=[('usable', 'drs(dr)'), ('room', '0 <= n and n <= seqlen(out)'),
                               ('good', 'implies(entry(drgood(dr)), drgood(dr))'),
                               ('nothing pending', 'dr.currentNodeData == None'),
                               ('inorder', 'implies(entry(drgood(dr)), entry(drem(dr)) == cat(sub(bytes_(out), 0, n), drem(dr)))'),
                               ('pos', 'implies(entry(drgood(dr)), dr.offset == entry(dr.offset) + n)')])])
Contract(DR + 'WriteTo', 'dr w', 'n err',
         requires=['drs(dr)', 'w != None'],
         modifies=DRM + ['w.sunk'],
         ensures=[KEPT, PARTS, ('good', 'implies(old(drgood(dr)), drgood(dr))'),
                  ('inorder', 'implies(old(drgood(dr)), cat(old(w.sunk), old(drem(dr))) == cat(w.sunk, drem(dr)))'),
                  ('count', 'implies(old(drgood(dr)), n >= 0 and seqlen(w.sunk) == old(seqlen(w.sunk)) + n)'),
                  ('pos', 'implies(old(drgood(dr)), dr.offset == old(dr.offset) + n)'),
                  ('whole', 'implies(old(drgood(dr)) and err == None, drem(dr) == EMPTY)')],
         visits=[LoopSpec(inv=[('usable', 'drs(dr)'), ('good', 'implies(entry(drgood(dr)), drgood(dr))'), ('nothing pending', 'dr.currentNodeData == None'),
                               ('inorder', 'implies(entry(drgood(dr)), cat(entry(w.sunk), entry(drem(dr))) == cat(w.sunk, drem(dr)))'),
                               ('count', 'implies(entry(drgood(dr)), n >= 0 and seqlen(w.sunk) == entry(seqlen(w.sunk)) + n)'),
                               ('pos', 'implies(entry(drgood(dr)), dr.offset == entry(dr.offset) + n)')])])


def seek_mods(E, env):
    return [('G:iofail', IOG)]


Contract(DR + 'Seek', 'dr offset whence', 'r err',
         requires=['drs(dr)'],
         modifies=['dr.currentNodeData', 'dr.offset', 'dr.dagWalker', seek_mods],
         rank='ITE(whence == 0, 0, 1)',
         ensures=[KEPT, PARTS, ('noio', 'implies(err == None, iofail(dr) == old(iofail(dr)))'),
                  ('origins', 'implies(whence < 0 or whence > 2, err != None)'), ('negative', 'implies(whence == 0 and offset < 0, err != None)'),
                  ('reported', 'implies(err == None, r == dr.offset)'),
                  ('start', 'implies(err == None and whence == 0, dr.offset == offset)'),
                  ('current', 'implies(err == None and whence == 1 and 0 <= old(dr.offset) and old(dr.offset) + offset < 2**63 and old(dr.offset) + offset >= -2**63, dr.offset == old(dr.offset) + offset)'),
                  ('end', 'implies(err == None and whence == 2 and dr.size < 2**62 and offset > -2**62 and offset < 2**62, dr.offset == dr.size + offset)'),
                  ('good', 'implies(old(drgood(dr) and drfile(dr)), drgood(dr) and drfile(dr))')],
         visits=[LoopSpec(inv=[('usable', 'drs(dr) and dr.offset == 0 and 0 <= left and left <= offset and offset > 0'),
                               ('file', 'implies(entry(drgood(dr) and drfile(dr)), drfile(dr) and dr.dagWalker.wok)'),
                               ('top', 'implies(entry(drgood(dr) and drfile(dr)) and dr.dagWalker.wtop, dr.dagWalker.wc == ncid(dr.rootNode) and dr.dagWalker.waft == EMPTY and left == offset)'),
                               ('below', 'implies(entry(drgood(dr) and drfile(dr)) and not dr.dagWalker.wtop, left < seqlen(fc(dr.dagWalker.wc)))'),
                               ('position', 'implies(entry(drgood(dr) and drfile(dr)), sub(dr.dagWalker.wF, offset - left, seqlen(dr.dagWalker.wF) - (offset - left)) == cat(fc(dr.dagWalker.wc), dr.dagWalker.waft))')])])
Contract(DR + 'Seek$1', '', '', inline=True,
         loops=[LoopSpec(inv=[('usable', 'dr != None and dr.dagWalker != None and 0 <= left'), ('index', '0 <= dr.dagWalker.wi and dr.dagWalker.wi < dr.dagWalker.wn and dr.dagWalker.wn == pln(dr.dagWalker.wc) and left <= arg_offset'),
                              ('walker', 'dr.offset == 0 and not dr.dagWalker.wtop and drs(dr)'),
                              ('file', 'implies(entry(drgood(arg_dr) and drfile(arg_dr)), drfile(dr) and dr.dagWalker.wok)'),
                              ('ahead', 'implies(entry(drgood(arg_dr) and drfile(arg_dr)), dr.dagWalker.wrest == cat(catr(plc(dr.dagWalker.wc), dr.dagWalker.wi, dr.dagWalker.wn), dr.dagWalker.waft))'),
                              ('below', 'implies(entry(drgood(arg_dr) and drfile(arg_dr)), dr.dagWalker.waft == EMPTY or left < seqlen(catr(plc(dr.dagWalker.wc), dr.dagWalker.wi, dr.dagWalker.wn)))'),
                              ('position', 'implies(entry(drgood(arg_dr) and drfile(arg_dr)), sub(dr.dagWalker.wF, arg_offset - left, seqlen(dr.dagWalker.wF) - (arg_offset - left)) == cat(catr(plc(dr.dagWalker.wc), dr.dagWalker.wi, dr.dagWalker.wn), dr.dagWalker.waft))')])])
Contract(IO + '.NewDagReader', 'ctx n serv', 'r err',
         requires=['ctx != None', ('node', 'implies(isproto(n) or israw(n), nodeany(n))')],
         modifies=[seek_mods], rank='hgt(ncid(n))',
         ensures=[('one', '(err == None) == (r != None)'),
                  ('reader', 'implies(err == None, drs(asdr(r)) and fresh(r) and asdr(r).offset == 0)'),
                  ('noio', 'implies(err == None, iofail(n) == old(iofail(n)))'),
                  ('parts', 'implies(err == None, isdr(r) and fresh(asdr(r).dagWalker) and (asdr(r).currentNodeData == None or fresh(asdr(r).currentNodeData)))'),
                  ('good', 'implies(err == None and sameref(asdr(r).rootNode, n) and wf(ncid(n)) and pl(ncid(n)), drgood(asdr(r)) and drfile(asdr(r)))'),
                  ('size', 'implies(err == None and sameref(asdr(r).rootNode, n) and wf(ncid(n)) and pl(ncid(n)), asdr(r).size == seqlen(fc(ncid(n))))'),
                  ('file', 'implies(nodeok(n) and typed(n) and wf(ncid(n)), err == None and sameref(asdr(r).rootNode, n))'),
                  ('directory', 'implies(isproto(n) and pbok(n.nd) and (d_type(n.nd) == 1 or d_type(n.nd) == 5), isglob(err, "%s.ErrIsDir"))' % IO),
                  ('symlink', 'implies(isproto(n) and pbok(n.nd) and d_type(n.nd) == 4, isglob(err, "%s.ErrCantReadSymlinks"))' % IO),
                  ('others', 'implies(not isproto(n) and not israw(n), err != None)')])
