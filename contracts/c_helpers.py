"""Contracts of importer/helpers and importer/balanced."""
from shapes import *
H = U + '/importer/helpers'
DB = '(*%s.DagBuilderHelper).' % H
FN = '(*%s.FSNodeOverDag).' % H
DBM = db_mods('db')

KEEP = [('ok', 'dbok(db)')]
REST = ('rest', 'implies(db.recvdErr == None, rest(db) == old(rest(db)))')
LATCH = ('latched', 'implies(old(errok(db)), errok(db))')
STICKY = ('sticky', 'implies(old(db.recvdErr != None), db.recvdErr == old(db.recvdErr))')

Contract(DB + 'prepareNext', 'db', '', requires=['dbok(db)'], modifies=DBM,
         ensures=KEEP + [REST, LATCH, STICKY, ('ready', 'db.recvdErr != None or nonnil(db.nextData) or rest(db) == EMPTY')])
Contract(DB + 'Done', 'db', 'r', requires=['dbok(db)'], modifies=DBM,
         ensures=KEEP + [REST, LATCH, STICKY, ('exact', 'r == (db.recvdErr == None and rest(db) == EMPTY)'), ('ready', 'r or db.recvdErr != None or nonnil(db.nextData)')])
Contract(DB + 'Next', 'db', 'd err', requires=['dbok(db)'], modifies=DBM,
         ensures=KEEP + [('consumed', 'implies(err == None, old(rest(db)) == cat(bytes_(d), rest(db)))'), LATCH, STICKY, ('error', 'err == db.recvdErr'),
                         ('some', 'implies(err == None and old(rest(db)) != EMPTY, seqlen(d) > 0)'), ('taken', 'not nonnil(db.nextData)')])
Contract(DB + 'GetDagServ', 'db', 'r', requires=['db != None'], ensures=[('value', 'r == db.dserv')])
Contract(DB + 'GetCidBuilder', 'db', 'r', requires=['db != None'], ensures=[('value', 'r == db.cidBuilder')])
Contract(DB + 'Maxlinks', 'db', 'r', requires=['db != None'], ensures=[('value', 'r == db.maxlinks')])
Contract(DB + 'NewFSNodeOverDag', 'db typ', 'n', requires=['db != None'],
         ensures=[('fresh', 'fresh(n) and fresh(n.dag) and fresh(n.file)'), ('ok', 'fok(n)'), ('empty', 'n.dag.ln == 0 and nbs(n.file) == 0 and fs_data(n.file) == EMPTY and fs_size(n.file) == 0'),
                  ('type', 'fs_type(n.file) == typ'), ('builder', 'n.dag.nb == builder(db.cidBuilder)'), ('clean', 'not n.dag.stale'), ('plain', 'n.dag.fspath == EMPTY'), ('nobase', 'fs_bslice(n.file).base == 0')],)
CONTRACTS[DB + 'NewFSNodeOverDag'].requires.append(Contract.mk('req', 1, 'typ == 0 or typ == 2'))
LEAF = [('fresh', 'implies(err == None, fresh(n))'), ('leaf', 'implies(err == None, nodeok(n) and n.ln == 0 and ncont(n) == old(bytes_(d)) and seqlen(d) <= limit(n))'),
        ('wf', 'implies(err == None, wf(ncid(n)) and fc(ncid(n)) == old(bytes_(d)))')]
Contract(DB + 'NewLeafNode', 'db d typ', 'n err', requires=['dbok(db)', 'typ == 0 or typ == 2'],
         ensures=LEAF + [('limit', 'implies(seqlen(d) > limit(db), err != None)'),
                         ('raw', 'implies(err == None and db.rawLeaves, israw(n))'), ('proto', 'implies(err == None and not db.rawLeaves, isproto(n) and d_type(n.nd) == typ)'),
                         ('plain', 'implies(err == None, n.fspath == EMPTY)'), ('nil', 'implies(err != None, n == None)')])
Contract(DB + 'ProcessFileStore', 'db n size', 'r', requires=['dbok(db)', 'nodeok(n)', 'db.offset + size < 2**63'], modifies=['db.offset'],
         ensures=[('new', 'sameref(r, n) or fresh(r)'), ('same', 'nodeok(r) and r.nd == n.nd and r.lc == n.lc and r.lnm == n.lnm and r.ln == n.ln and r.nb == n.nb and r.nkind == n.nkind'),
                  ('referenced', 'implies(db.fullPath != EMPTY and israw(n), r.fspath == db.fullPath and r.fsoff == old(db.offset) and db.offset == old(db.offset) + size)'),
                  ('otherwise', 'implies(db.fullPath == EMPTY or not israw(n), sameref(r, n) and db.offset == old(db.offset))')])
Contract(DB + 'NewLeafDataNode', 'db typ', 'n size err', requires=['dbok(db)', 'typ == 0 or typ == 2', 'room(db)'], modifies=DBM + ['db.offset'],
         ensures=KEEP + [LATCH, STICKY, ('leaf', 'implies(err == None, nodeok(n) and n.ln == 0 and wf(ncid(n)) and size == seqlen(fc(ncid(n))) and size <= limit(db))'),
                         ('consumed', 'implies(err == None, old(rest(db)) == cat(fc(ncid(n)), rest(db)))'),
                         ('some', 'implies(err == None and old(rest(db)) != EMPTY, size > 0)'),
                         ('clean', 'implies(err == None, db.recvdErr == None)'), ('room', 'room(db)'), ('fresh', 'implies(err == None, fresh(n))'),
                         ('store', 'implies(err == None, not n.stale)'),
                         ('oversized', 'implies(err == None, size <= limit(db))'),
                         ('raw', 'implies(err == None, (n.nkind == 1) == db.rawLeaves)'),
                         ('type', 'implies(err == None and not db.rawLeaves, d_type(n.nd) == typ)'),
                         ('reference', 'implies(err == None and db.rawLeaves and db.fullPath != EMPTY, n.fspath == db.fullPath and n.fsoff == old(db.offset) and db.offset == old(db.offset) + size)'),
                         ('offset', 'implies(err == None and not (db.rawLeaves and db.fullPath != EMPTY), db.offset == old(db.offset))')])
Contract(DB + 'Add', 'db n', 'err', requires=['dbok(db)', 'nodeok(n)'], modifies=[lambda E, env: [('G:iofail', IOG)]],
         ensures=[('stored', 'implies(err == None, stored(ncid(n)))'), ('reference', 'implies(err == None and n.fspath != EMPTY, sref(ncid(n), n.fspath, n.fsoff))'), ('reported', 'iofail(db) == (old(iofail(db)) or err != None)')])
Contract(FN + 'AddChild', 'n child size db', 'err',
         requires=['fok(n)', 'nodeok(child)', 'dbok(db)', 'wf(ncid(child))', 'size == seqlen(fc(ncid(child)))', 'small(n) and fs_size(n.file) + size < 2**63', 'n.dag.ln < 2**47', 'not sameref(child, n.dag)'],
         modifies=[fn_mods('n')],
         ensures=[('links', 'implies(err == None, n.dag.lc == old(store(n.dag.lc, n.dag.ln, ncid(child))) and n.dag.ln == old(n.dag.ln) + 1)'),
                  ('sizes', 'implies(err == None, bsa(n.file) == old(store(bsa(n.file), nbs(n.file), size)))'),
                  ('ok', 'implies(err == None, fok(n))'),
                  ('content', 'implies(err == None, fcont(n) == old(cat(fcont(n), fc(ncid(child)))))'),
                  ('stored', 'implies(err == None, stored(ncid(child)))'), ('reference', 'implies(err == None and child.fspath != EMPTY, sref(ncid(child), child.fspath, child.fsoff))'),
                  ('durable', 'implies(err == None and old(fdur(n)) and old(durr(child.lc, 0, child.ln)), fdur(n))'),
                  ('total', 'implies(err == None, fs_size(n.file) == old(fs_size(n.file)) + size)'),
                  ('reported', 'iofail(db) == (old(iofail(db)) or err != None)'),
                  ('base', 'fs_bslice(n.file).base == old(fs_bslice(n.file).base) or fs_bslice(n.file).base > old(E.cur.alloc)'),
                  ('data', 'implies(err == None, n.dag.nd == old(n.dag.nd) and not n.dag.stale)'),
                  ('plain', 'implies(err == None and old(plain0(n)) and old(pl(ncid(child))), plain0(n))'),
                  ])
Contract(FN + 'Commit', 'n', 'r err', requires=['n != None', 'n.dag != None', 'n.file != None', 'fsok(n.file)', 'n.dag.nkind == 0', 'nbs(n.file) >= 0'],
         modifies=['n.dag.nd', 'n.dag.stale'],
         ensures=[('noerror', 'err == None'), ('encoded', 'encodes(n.dag.nd, n.file)'), ('clean', 'not n.dag.stale')], alias='n.dag')
Contract(FN + 'NumChildren', 'n', 'r', requires=['n != None', 'fsok(n.file)'], ensures=[('count', 'r == nbs(n.file)')])
Contract(FN + 'FileSize', 'n', 'r', requires=['n != None', 'fsok(n.file)'],
         ensures=[('size', 'implies(fs_type(n.file) == 2 or fs_type(n.file) == 0, r == fs_size(n.file))')])
Contract(FN + 'SetFileData', 'n d', '', requires=['n != None', 'fsok(n.file)'],
         modifies=['n.file.format.Filesize', 'n.file.format.Data'],
         ensures=[('data', 'fs_data(n.file) == old(bytes_(d)) and fs_hassize(n.file)'), ('size', 'fs_size(n.file) == (old(fs_size(n.file)) + seqlen(d) - seqlen(old(fs_data(n.file)))) % M64')])
Contract(FN + 'GetDagNode', 'n', 'r err', requires=['n != None', 'n.dag != None'], ensures=[('same', 'err == None')], alias='n.dag')
Contract(H + '.NewFSNFromDag', 'nd', 'n err', requires=['nd != None'],
         ensures=[('decodes', 'implies(err == None, fresh(n) and fresh(n.file) and sameref(n.dag, nd) and fsok(n.file) and encodes_opt(nd.nd, n.file))'), ('base', 'implies(err == None, fs_bslice(n.file).base == 0 or fs_bslice(n.file).base > old(E.cur.alloc))'), ('accepts', '(err == None) == pbok(nd.nd)')])

# ---------------------------------------------------------------- importer/balanced
B = U + '/importer/balanced'
PRE = ['dbok(db)', 'errok(db)', '2 <= db.maxlinks and db.maxlinks < 2**40', 'room(db)']
M = 'db.maxlinks'
# what the partially filled node contributes, in terms of its state now
TOTAL = 'entry(cat(fcont0(in_node), rest(db)))'
OFF0 = 'entry(db.offset - seqlen(fcont0(in_node)))'
LATCHOK = ('latched', 'implies(err == None and old(errok(db)), errok(db))')
Contract(B + '.fillNodeRec', 'db node depth', 'n size err',
         requires=PRE + ['depth < 2**50', ('node', 'implies(node != None, fok(node) and fdur(node) and nodata(node) and node.dag.ln < db.maxlinks and implies(db.recvdErr == None, fullr(node.dag.lc, depth - 1, db.maxlinks, 0, node.dag.ln)))'),
                         ('bounded', 'implies(db.recvdErr == None, seqlen(fcont0(node)) + seqlen(rest(db)) < 2**48)'),
                         ('tiled', 'implies(node != None and refmode(db) and db.recvdErr == None, db.offset >= seqlen(fcont(node)) and tiler(node.dag.lc, db.fullPath, db.offset - seqlen(fcont(node)), 0, node.dag.ln))')],
         modifies=DBM + ['db.offset', fn_mods0('node')],
         rank='depth', group='balanced',
         ensures=KEEP + [LATCHOK, STICKY, ('clean', 'implies(err == None, db.recvdErr == None)'), ('room', 'room(db)'),
                         ('node', 'implies(err == None, nodeok(n) and n.nkind == 0 and isproto(n))'),
                         ('ownnode', 'implies(err == None, (node == None and fresh(n)) or (node != None and sameref(n, old(node.dag))))'),
                         ('wf', 'implies(err == None, wf(ncid(n)) and size == seqlen(fc(ncid(n))))'),
                         ('content', 'implies(err == None, cat(fc(ncid(n)), rest(db)) == old(cat(fcont0(node), rest(db))))'),
                         ('durable', 'implies(err == None, durr(n.lc, 0, n.ln))'),
                         ('used', 'implies(err == None and old(rest(db)) != EMPTY, seqlen(rest(db)) < old(seqlen(rest(db))) and n.ln > 0)'),
                         ('filled', 'implies(err == None and rest(db) != EMPTY, full(ncid(n), depth, db.maxlinks))'),
                         ('balanced', 'implies(err == None and n.ln > 0, bal(ncid(n), depth, db.maxlinks))'),
                         ('grown', 'implies(err == None and node != None and old(rest(db)) != EMPTY, n.ln > old(node.dag.ln))'),
                         ('first', 'implies(err == None and node != None and old(node.dag.ln) > 0, sel(n.lc, 0) == old(sel(node.dag.lc, 0)) and n.ln >= old(node.dag.ln))'),
                         ('offset', 'implies(err == None and refmode(db), db.offset == old(db.offset) + old(seqlen(rest(db))) - seqlen(rest(db)))'),
                         ('tiled', 'implies(err == None and refmode(db), tile(ncid(n), db.fullPath, old(db.offset - seqlen(fcont0(node)))))'),
                         ],
         loops=[LoopSpec(inv=[('ok', 'dbok(db) and room(db)'), ('latched', 'errok(db)'), ('sticky', 'implies(entry(db.recvdErr != None), db.recvdErr == entry(db.recvdErr))'),
                              ('clean', 'db.recvdErr == None or node.dag.ln < db.maxlinks'),
                              ('node', 'fok(node) and nodata(node) and fdur(node)'),
                              ('base', 'ownbase(node, in_node)'),
                              ('count', 'node.dag.ln <= db.maxlinks'),
                              ('content', 'implies(db.recvdErr == None, cat(fcont(node), rest(db)) == %s)' % TOTAL),
                              ('left', 'implies(db.recvdErr == None, fullr(node.dag.lc, depth - 1, db.maxlinks, 0, node.dag.ln) or (rest(db) == EMPTY and node.dag.ln > 0 and fullr(node.dag.lc, depth - 1, db.maxlinks, 0, node.dag.ln - 1) and bal(sel(node.dag.lc, node.dag.ln - 1), depth - 1, db.maxlinks)))'),
                              ('grown', 'implies(in_node != None, node.dag.ln >= entry(in_node.dag.ln) and implies(entry(in_node.dag.ln) > 0, sel(node.dag.lc, 0) == entry(sel(in_node.dag.lc, 0))))'),
                              ('used', 'implies(db.recvdErr == None, seqlen(rest(db)) <= entry(seqlen(rest(db))) and (seqlen(rest(db)) < entry(seqlen(rest(db))) or node.dag.ln == ITE(in_node == None, 0, entry(in_node.dag.ln))))'),
                              ('some', 'implies(db.recvdErr == None and seqlen(rest(db)) < entry(seqlen(rest(db))), node.dag.ln > ITE(in_node == None, 0, entry(in_node.dag.ln)))'),
                              ('offset', 'implies(db.recvdErr == None and refmode(db), db.offset == %s + seqlen(fcont(node)) and tiler(node.dag.lc, db.fullPath, %s, 0, node.dag.ln))' % (OFF0, OFF0)),
                              ], dec='db.maxlinks - node.dag.ln')])
Contract(B + '.Layout', 'db', 'root err',
         requires=PRE + ['not iofail(db)', ('start', 'db.offset == 0')],
         modifies=DBM + ['db.offset'],
         ensures=[('node', 'implies(err == None, nodeok(root))'),
                  ('content', 'implies(err == None, fc(ncid(root)) == old(rest(db)))'),
                  ('sizes', 'implies(err == None, wf(ncid(root)))'),
                  ('reported', 'implies(err == None, not iofail(db))'),
                  ('durable', 'implies(err == None, dur(ncid(root)))'),
                  ('balanced', 'implies(err == None, bal(ncid(root), hgt(ncid(root)), db.maxlinks))'),
                  ('minimal', 'implies(err == None and root.ln > 0, root.ln >= 2 and full(sel(root.lc, 0), hgt(ncid(root)) - 1, db.maxlinks))'),
                  ('tiled', 'implies(err == None and refmode(db) and old(rest(db)) != EMPTY, tile(ncid(root), db.fullPath, 0))'),
                  ],
         loops=[LoopSpec(inv=[('ok', 'dbok(db) and room(db) and err == None and db.recvdErr == None'), ('latched', 'errok(db)'),
                              ('depth', 'depth >= 1 and depth <= seqlen(fc(ncid(root)))'),
                              ('node', 'nodeok(root) and wf(ncid(root)) and fileSize == seqlen(fc(ncid(root)))'),
                              ('durable', 'durr(root.lc, 0, root.ln)'),
                              ('content', 'cat(fc(ncid(root)), rest(db)) == entry(rest(db))'),
                              ('balanced', 'bal(ncid(root), depth - 1, db.maxlinks)'),
                              ('full', 'implies(rest(db) != EMPTY, full(ncid(root), depth - 1, db.maxlinks))'),
                              ('minimal', 'implies(root.ln > 0, root.ln >= 2 and full(sel(root.lc, 0), depth - 2, db.maxlinks))'),
                              ('tiled', 'implies(refmode(db), db.offset == seqlen(fc(ncid(root))) and tiledobj(root, db.fullPath, 0))'),
                              ], dec='seqlen(rest(db))')])
