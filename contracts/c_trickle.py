"""Contracts of importer/trickle and of what it uses of importer/helpers."""
from c_helpers import *
T = U + '/importer/trickle'
R = 'db.rawLeaves'
PRET = ['dbok(db)', 'errok(db)', '1 <= db.maxlinks and db.maxlinks < 2**40', 'room(db)']
SAME = 'cat(fcont(node), rest(db))'
Contract(DB + 'FillNodeLayer', 'db node', 'err',
         requires=PRET + ['fok(node) and fdur(node)'],
         modifies=DBM + ['db.offset', fn_mods('node')],
         ensures=KEEP + [LATCHOK, STICKY, ('room', 'room(db)'),
                         ('clean', 'implies(err == None and (old(db.recvdErr == None) or old(node.dag.ln < db.maxlinks)), db.recvdErr == None)'),
                         ('node', 'implies(err == None, fok(node) and fdur(node) and fs_data(node.file) == old(fs_data(node.file)) and fs_type(node.file) == old(fs_type(node.file)))'),
                         ('base', 'implies(err == None, fs_bslice(node.file).base == old(fs_bslice(node.file).base) or fs_bslice(node.file).base > old(E.cur.alloc))'),
                         ('plain', 'implies(err == None and old(plain0(node)), plain0(node)) and implies(err == None and old(plx(node) and db.recvdErr == None and rest(db) == EMPTY), plx(node))'),
                         ('committed', 'implies(err == None, encodes(node.dag.nd, node.file) and not node.dag.stale)'),
                         ('content', 'implies(err == None and db.recvdErr == None, %s == old(%s))' % (SAME, SAME)),
                         ('leaves', 'implies(err == None and old(tlr(node.dag.lc, db.rawLeaves, 0, node.dag.ln)), tlr(node.dag.lc, db.rawLeaves, 0, node.dag.ln))'),
                         ('used', 'implies(err == None, node.dag.ln >= old(node.dag.ln) and (node.dag.ln <= db.maxlinks or node.dag.ln == old(node.dag.ln)) and (node.dag.ln >= db.maxlinks or rest(db) == EMPTY))'),
                         ('unchanged', 'implies(err == None and node.dag.ln == old(node.dag.ln), node.dag.lc == old(node.dag.lc))'),
                         ('moved', 'implies(err == None and old(rest(db)) != EMPTY and old(node.dag.ln) < db.maxlinks, seqlen(rest(db)) < old(seqlen(rest(db))))'),
                         ('shrinks', 'implies(err == None and db.recvdErr == None, seqlen(rest(db)) <= old(seqlen(rest(db))))'),
                         ('offset', 'implies(err == None and refmode(db) and db.recvdErr == None, db.offset == old(db.offset) + old(seqlen(rest(db))) - seqlen(rest(db)))'),
                         ('tiled', 'implies(err == None and refmode(db) and db.recvdErr == None and old(tileable(db, node)), tiler(node.dag.lc, db.fullPath, old(db.offset - seqlen(fcont(node))), 0, node.dag.ln))')],
         loops=[LoopSpec(inv=[('ok', 'dbok(db) and room(db)'), ('latched', 'errok(db)'), ('sticky', 'implies(entry(db.recvdErr != None), db.recvdErr == entry(db.recvdErr))'),
                              ('clean', 'implies(entry(db.recvdErr == None), db.recvdErr == None) and implies(node.dag.ln > entry(node.dag.ln), db.recvdErr == None)'),
                              ('node', 'fok(node) and fdur(node) and fs_data(node.file) == entry(fs_data(node.file)) and fs_type(node.file) == entry(fs_type(node.file))'),
                              ('base', 'fs_bslice(node.file).base == entry(fs_bslice(node.file).base) or fs_bslice(node.file).base > entry(E.cur.alloc)'),
                              ('content', 'implies(db.recvdErr == None, %s == entry(%s))' % (SAME, SAME)),
                              ('plain', 'implies(entry(plain0(node)), plain0(node)) and implies(entry(db.recvdErr == None and rest(db) == EMPTY), node.dag.ln == entry(node.dag.ln) and db.recvdErr == None and rest(db) == EMPTY)'),
                              ('leaves', 'implies(entry(tlr(node.dag.lc, db.rawLeaves, 0, node.dag.ln)), tlr(node.dag.lc, db.rawLeaves, 0, node.dag.ln))'),
                              ('used', 'node.dag.ln >= entry(node.dag.ln) and (node.dag.ln <= db.maxlinks or node.dag.ln == entry(node.dag.ln))'),
                              ('unchanged', 'implies(node.dag.ln == entry(node.dag.ln), node.dag.lc == entry(node.dag.lc))'),
                              ('moved', 'implies(node.dag.ln > entry(node.dag.ln), seqlen(rest(db)) < entry(seqlen(rest(db)))) and implies(db.recvdErr == None, seqlen(rest(db)) <= entry(seqlen(rest(db))))'),
                              ('offset', 'implies(refmode(db) and db.recvdErr == None, db.offset == entry(db.offset) + entry(seqlen(rest(db))) - seqlen(rest(db)))'),
                              ('tiled', 'implies(refmode(db) and db.recvdErr == None and entry(tileable(db, node)), tiler(node.dag.lc, db.fullPath, entry(db.offset - seqlen(fcont(node))), 0, node.dag.ln))')],
                         dec='db.maxlinks - node.dag.ln')])

NEW = 'node.dag.ln == 0 and nodata(node) and fs_type(node.file) == 2'
Contract(T + '.fillTrickleRec', 'db node maxDepth', 'n size err',
         requires=PRET + ['-1 <= maxDepth and maxDepth < 2**50', ('node', 'fok(node) and ' + NEW)],
         modifies=DBM + ['db.offset', fn_mods('node')],
         rank='ITE(maxDepth == -1, 2**62, maxDepth)', group='trickle',
         ensures=KEEP + [LATCHOK, STICKY, ('clean', 'implies(err == None, db.recvdErr == None)'), ('room', 'room(db)'),
                         ('node', 'implies(err == None, nodeok(n) and n.nkind == 0 and isproto(n) and sameref(n, old(node.dag)))'),
                         ('wf', 'implies(err == None, wf(ncid(n)) and size == seqlen(fc(ncid(n))))'),
                         ('content', 'implies(err == None, cat(fc(ncid(n)), rest(db)) == old(rest(db)))'),
                         ('durable', 'implies(err == None, durr(n.lc, 0, n.ln))'), ('plain', 'implies(err == None, pl(ncid(n)))'),
                         ('used', 'implies(err == None and old(rest(db)) != EMPTY, seqlen(rest(db)) < old(seqlen(rest(db))) and n.ln > 0)'),
                         ('filled', 'implies(err == None and maxDepth == -1, rest(db) == EMPTY)'),
                         ('full', 'implies(err == None and maxDepth != 0 and rest(db) != EMPTY, tfull(ncid(n), maxDepth, db.maxlinks, db.rawLeaves))'),
                         ('shape', 'implies(err == None and maxDepth != 0, trk(ncid(n), maxDepth, db.maxlinks, db.rawLeaves))'),
                         ('verified', 'implies(err == None and maxDepth != 0, vtd(ncid(n), maxDepth, db.maxlinks, 4, db.rawLeaves))'),
                         ('offset', 'implies(err == None and refmode(db), db.offset == old(db.offset) + old(seqlen(rest(db))) - seqlen(rest(db)))'),
                         ('tiled', 'implies(err == None and refmode(db), tile(ncid(n), db.fullPath, old(db.offset)))')],
         loops=[LoopSpec(inv=[('ok', 'dbok(db) and room(db) and db.recvdErr == None'), ('latched', 'errok(db)'),
                              ('node', 'fok(node) and nodata(node) and fdur(node) and fs_type(node.file) == 2'), ('plain', 'plain0(node)'),
                              ('base', 'ownbase(node, in_node)'),
                              ('clean', 'entry(db.recvdErr) == None'),
                              ('count', 'depth >= 1 and 4 * (depth - 1) <= node.dag.ln + 4 and node.dag.ln <= db.maxlinks + 4 * (depth - 1) and (rest(db) == EMPTY or node.dag.ln == db.maxlinks + 4 * (depth - 1))'),
                              ('content', 'cat(fcont(node), rest(db)) == entry(rest(db))'),
                              ('used', 'seqlen(rest(db)) <= entry(seqlen(rest(db))) and implies(entry(rest(db)) != EMPTY, seqlen(rest(db)) < entry(seqlen(rest(db))) and node.dag.ln > 0)'),
                              ('full', 'implies(rest(db) != EMPTY, tfr(node.dag.lc, db.maxlinks, db.rawLeaves, db.maxlinks, node.dag.ln))'),
                              ('shape', 'lf(node.dag.lc, node.dag.ln, db.maxlinks, db.rawLeaves)'),
                              ('depth', 'maxDepth == -1 or depth <= maxDepth or (maxDepth == 0 and depth == 1)'),
                              ('verified', 'vtr(node.dag.lc, maxDepth, db.maxlinks, 4, db.rawLeaves, db.maxlinks, node.dag.ln)'),
                              ('offset', 'implies(refmode(db), db.offset == entry(db.offset) + seqlen(fcont(node)) and tiler(node.dag.lc, db.fullPath, entry(db.offset), 0, node.dag.ln))')],
                         dec='seqlen(rest(db))'),
                LoopSpec(inv=[('ok', 'dbok(db) and room(db) and (db.recvdErr == None or repeatIndex == 0)'), ('latched', 'errok(db)'), ('clean', 'entry(db.recvdErr) == None'),
                              ('node', 'fok(node) and nodata(node) and fdur(node) and fs_type(node.file) == 2'), ('plain', 'plain0(node)'),
                              ('base', 'ownbase(node, in_node)'),
                              ('count', '0 <= repeatIndex and repeatIndex <= 4 and implies(db.recvdErr == None, node.dag.ln == db.maxlinks + 4 * (depth - 1) + repeatIndex) and depth >= 1 and depth < 2**48'),
                              ('content', 'implies(db.recvdErr == None, cat(fcont(node), rest(db)) == entry(rest(db)))'),
                              ('some', 'implies(db.recvdErr == None, (repeatIndex == 0 and rest(db) != EMPTY and seqlen(rest(db)) == head(0, seqlen(rest(db)))) or (repeatIndex > 0 and seqlen(rest(db)) < head(0, seqlen(rest(db)))))'),
                              ('full', 'implies(db.recvdErr == None and rest(db) != EMPTY, tfr(node.dag.lc, db.maxlinks, db.rawLeaves, db.maxlinks, node.dag.ln))'),
                              ('shape', 'implies(db.recvdErr == None, lf(node.dag.lc, node.dag.ln, db.maxlinks, db.rawLeaves))'),
                              ('depth', 'maxDepth == -1 or depth < maxDepth'),
                              ('verified', 'vtr(node.dag.lc, maxDepth, db.maxlinks, 4, db.rawLeaves, db.maxlinks, node.dag.ln)'),
                              ('offset', 'implies(refmode(db) and db.recvdErr == None, db.offset == entry(db.offset) + seqlen(fcont(node)) and tiler(node.dag.lc, db.fullPath, entry(db.offset), 0, node.dag.ln))')],
                         dec='4 - repeatIndex')])
Contract(T + '.Layout', 'db', 'root err',
         requires=PRET + ['not iofail(db)', ('start', 'db.offset == 0')],
         modifies=DBM + ['db.offset'],
         ensures=[('node', 'implies(err == None, nodeok(root))'),
                  ('content', 'implies(err == None, fc(ncid(root)) == old(rest(db)))'),
                  ('sizes', 'implies(err == None, wf(ncid(root)))'),
                  ('reported', 'implies(err == None, not iofail(db))'),
                  ('durable', 'implies(err == None, dur(ncid(root)))'),
                  ('shape', 'implies(err == None, trk(ncid(root), -1, db.maxlinks, db.rawLeaves))'),
                  ('verified', 'implies(err == None, vtd(ncid(root), -1, db.maxlinks, 4, db.rawLeaves))'),
                  ('tiled', 'implies(err == None and refmode(db), tile(ncid(root), db.fullPath, 0))')])

# ---------------------------------------------------------------- builder parameters
Contract('(*%s.DagBuilderParams).New' % H, 'p spl', 'db err', requires=['p != None', 'spl != None'],
         ensures=[('fresh', 'implies(err == None, fresh(db))'), ('nil', 'implies(err != None, db == None)'),
                  ('taken', 'implies(err == None, db.dserv == p.Dagserv and db.spl == spl and db.rawLeaves == p.RawLeaves and db.maxlinks == p.Maxlinks and db.cidBuilder == p.CidBuilder)'),
                  ('start', 'implies(err == None, db.offset == 0 and db.recvdErr == None and not nonnil(db.nextData))'),
                  ('nocopy', 'implies(err == None and p.NoCopy, db.fullPath != EMPTY)'), ('copied', 'implies(err == None and not p.NoCopy, db.fullPath == EMPTY)')])

# ---------------------------------------------------------------- the structure verifier
Contract(T + '.verifyTDagRec', 'n depth p', 'err',
         requires=['nodeany(n)', 'typed(n)', 'depth >= -1 and depth < 2**50', 'p.Direct >= 0 and p.Direct < 2**40 and p.LayerRepeat >= 1 and p.LayerRepeat < 2**40'],
         modifies=[lambda E, env: [('G:iofail', IOG)]],
         ensures=[('read', 'implies(old(iofail(n)), iofail(n))'),
                  ('sound', 'implies(err == None, vtd(ncid(n), depth, p.Direct, p.LayerRepeat, p.RawLeaves))'),
                  ('complete', 'implies(vtd(ncid(n), depth, p.Direct, p.LayerRepeat, p.RawLeaves) and p.Prefix == None and not iofail(n), err == None)')],
         loops=[LoopSpec(inv=[('sound', 'vtlr(n.lc, p, depth, i) and 0 <= i and i <= n.ln'),
                              ('read', 'implies(entry(iofail(n)), iofail(n))'),
                              ('inner', 'tinner(ncid(n)) and depth != 0 and isproto(n)')])])
Contract(T + '.VerifyTrickleDagStructure', 'n p', 'err',
         requires=['nodeany(n)', 'typed(n)', 'p.Direct >= 0 and p.Direct < 2**40 and p.LayerRepeat >= 1 and p.LayerRepeat < 2**40'],
         modifies=[lambda E, env: [('G:iofail', IOG)]],
         ensures=[('sound', 'implies(err == None, vtd(ncid(n), -1, p.Direct, p.LayerRepeat, p.RawLeaves))'),
                  ('complete', 'implies(vtd(ncid(n), -1, p.Direct, p.LayerRepeat, p.RawLeaves) and p.Prefix == None and not iofail(n), err == None)')])

