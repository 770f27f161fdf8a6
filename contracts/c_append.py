"""Contracts of the appending half of importer/trickle."""
from c_trickle import *
# ---------------------------------------------------------------- append
Contract(FN + 'GetChild', 'n ctx i ds', 'r err', requires=['fok(n) and fdur(n)', '0 <= i and i < n.dag.ln', 'ds != None'],
         modifies=[lambda E, env: [('G:iofail', IOG)]],
         ensures=[('child', 'implies(err == None, fresh(r) and fresh(r.dag) and fresh(r.file) and fok(r) and fdur(r) and not r.dag.stale)'),
                  ('content', 'implies(err == None, fcont(r) == fc(sel(n.dag.lc, i)))'),
                  ('links', 'implies(err == None, r.dag.lc == plc(sel(n.dag.lc, i)) and r.dag.ln == pln(sel(n.dag.lc, i)))'),
                  ('encoded', 'implies(err == None, encodes_opt(r.dag.nd, r.file))'), ('base', 'implies(err == None, fs_bslice(r.file).base == 0 or fs_bslice(r.file).base > old(E.cur.alloc))'),
                  ('plain', 'implies(err == None and pl(sel(n.dag.lc, i)), plx(r))'),
                  ('reported', 'implies(old(iofail(n)), iofail(n)) and implies(err == None, iofail(n) == old(iofail(n)))')])
Contract(FN + 'RemoveChild', 'n i db', '', requires=['fok(n)', '0 <= i and i < n.dag.ln'],
         modifies=[fn_mods('n')],
         ensures=[('count', 'n.dag.ln == old(n.dag.ln) - 1 and nbs(n.file) == old(nbs(n.file)) - 1 and n.dag.nd == old(n.dag.nd)'),
                  ('kept', 'implies(i == old(n.dag.ln) - 1, catr(n.dag.lc, 0, n.dag.ln) == old(catr(n.dag.lc, 0, n.dag.ln - 1)) and wfr(n.dag.lc, bsa(n.file), 0, n.dag.ln) and durr(n.dag.lc, 0, n.dag.ln) == old(durr(n.dag.lc, 0, n.dag.ln - 1)))'),
                  ('split', 'implies(i == old(n.dag.ln) - 1, old(fcont(n)) == cat(fcont(n), old(fc(sel(n.dag.lc, n.dag.ln - 1)))))'),
                  ('ok', 'implies(i == old(n.dag.ln) - 1, fok(n))'), ('flag', 'iofail(n) == old(iofail(n))'),
                  ('data', 'fs_data(n.file) == old(fs_data(n.file))'),
                  ('plain', 'implies(i == old(n.dag.ln) - 1 and old(plain0(n)), plain0(n) and pl(old(sel(n.dag.lc, n.dag.ln - 1))))'),
                  ('base', 'fs_bslice(n.file).base == old(fs_bslice(n.file).base)')])
Contract(T + '.trickleDepthInfo', 'node maxlinks', 'depth rep', requires=['node != None and fsok(node.file)', 'maxlinks >= 1'],
         ensures=[('layer', 'implies(nbs(node.file) < maxlinks, depth == 0 and rep == 0)'),
                  ('deeper', 'implies(nbs(node.file) >= maxlinks, depth == (nbs(node.file) - maxlinks) / 4 + 1 and rep == (nbs(node.file) - maxlinks) % 4)')])
OWNN = ('ownnode', 'implies(err == None, sameref(n, fsn) or (fresh(n) and fresh(n.dag) and fresh(n.file)))')
OWNF = ('ownfields', 'implies(err == None and sameref(n, fsn), sameref(n.dag, old(fsn.dag)) and sameref(n.file, old(fsn.file)))')
CONT = 'cat(fcont(fsn), rest(db))'
Contract(T + '.moveDataToLeaf', 'fsn db', 'n err',
         requires=PRET + ['fok(fsn) and fdur(fsn)', ('encoded', 'implies(fsn.dag.ln == 0, encodes_opt(fsn.dag.nd, fsn.file))')],
         modifies=DBM,
         ensures=KEEP + [LATCHOK, STICKY, ('room', 'room(db)'), REST,
                         ('node', 'implies(err == None, fok(n) and fdur(n))'), OWNN, OWNF,
                         ('unchanged', 'implies(err == None and not sameref(n, fsn), old(fsn.dag.ln) == 0 and n.dag.ln == 1)'),
                         ('content', 'implies(err == None, fcont(n) == old(fcont(fsn)))'),
                         ('plain', 'implies(err == None and old(plx(fsn)), plain0(n) or (db.recvdErr == None and rest(db) == EMPTY and plx(n)))'),
                         ('base', 'implies(err == None, fs_bslice(n.file).base == old(fs_bslice(fsn.file).base) or fs_bslice(n.file).base > old(E.cur.alloc))')])
APP = KEEP + [LATCHOK, STICKY, ('room', 'room(db)'), ('content', 'implies(err == None and db.recvdErr == None, cat(fcont(NN), rest(db)) == old(%s))' % CONT),
              ('node', 'implies(err == None, fok(NN) and fdur(NN))'), ('shrinks', 'implies(err == None and db.recvdErr == None, seqlen(rest(db)) <= old(seqlen(rest(db))))')]


def app(nn):
    return [(a, b.replace('NN', nn)) if isinstance(x, tuple) else x for x in APP for a, b in [x if isinstance(x, tuple) else ('', '')]]


BASE1 = ('base', 'implies(err == None, fs_bslice(fsn.file).base == old(fs_bslice(fsn.file).base) or fs_bslice(fsn.file).base > old(E.cur.alloc))')
Contract(T + '.appendFillLastChild', 'ctx fsn depth repeatNumber db', 'err',
         requires=PRET + ['fok(fsn) and fdur(fsn)', '0 <= depth and depth < 2**49 and 0 <= repeatNumber'],
         modifies=DBM + ['db.offset', fn_mods('fsn')],
         rank='ITE(fsn.dag.ln <= db.maxlinks, 0, 2 * hl(fsn.dag.lc, fsn.dag.ln))', group='append', distinct=True,
         ensures=app('fsn') + [BASE1, ('plain', 'implies(err == None and old(plain0(fsn)), plain0(fsn))'), ('count', 'implies(err == None, fsn.dag.ln >= old(fsn.dag.ln))')],
         loops=[LoopSpec(inv=[('ok', 'dbok(db) and room(db)'), ('latched', 'errok(db)'), ('sticky', 'implies(entry(db.recvdErr != None), db.recvdErr == entry(db.recvdErr))'),
                              ('node', 'fok(fsn) and fdur(fsn)'), ('base', 'fs_bslice(fsn.file).base == entry(fs_bslice(fsn.file).base) or fs_bslice(fsn.file).base > entry(E.cur.alloc)'),
                              ('plain', 'implies(entry(plain0(fsn)), plain0(fsn))'),
                              ('shrinks', 'implies(db.recvdErr == None, seqlen(rest(db)) <= entry(seqlen(rest(db))))'), ('count', 'fsn.dag.ln >= entry(fsn.dag.ln)'),
                              ('content', 'implies(db.recvdErr == None, %s == entry(%s))' % (CONT, CONT))], dec='4 - repeatNumber')])
Contract(T + '.appendRec', 'ctx fsn db maxDepth', 'n size err',
         requires=PRET + ['fok(fsn) and fdur(fsn)', ('encoded', 'implies(fsn.dag.ln == 0, encodes_opt(fsn.dag.nd, fsn.file))'), '-1 <= maxDepth and maxDepth < 2**49'],
         modifies=DBM + ['db.offset', fn_mods('fsn')],
         rank='2 * hl(fsn.dag.lc, fsn.dag.ln) + 1', group='append',
         ensures=app('n') + [('plain', 'implies(err == None and old(plx(fsn)), plx(n))'), OWNN, OWNF, ('size', 'implies(err == None, size == seqlen(fcont(n)))'),
                 ('base', 'implies(err == None, fs_bslice(n.file).base == old(fs_bslice(fsn.file).base) or fs_bslice(n.file).base > old(E.cur.alloc))')],
         loops=[LoopSpec(inv=[('ok', 'dbok(db) and room(db)'), ('latched', 'errok(db)'), ('sticky', 'implies(entry(db.recvdErr != None), db.recvdErr == entry(db.recvdErr))'),
                              ('node', 'fok(fsn) and fdur(fsn)'), ('own', 'sameref(fsn, in_fsn) or (fsn.v > entry(E.cur.alloc) and fsn.dag.v > entry(E.cur.alloc) and fsn.file.v > entry(E.cur.alloc))'),
                              ('base', 'fs_bslice(fsn.file).base == entry(fs_bslice(in_fsn.file).base) or fs_bslice(fsn.file).base > entry(E.cur.alloc)'),
                              ('plain', 'implies(entry(plx(in_fsn)), plain0(fsn))'),
                              ('shrinks', 'implies(db.recvdErr == None, seqlen(rest(db)) <= entry(seqlen(rest(db))))'),
                              ('content', 'implies(db.recvdErr == None, %s == entry(cat(fcont(in_fsn), rest(db))))' % CONT), ('i', 'i >= 0')], dec='maxDepth - i'),
                LoopSpec(inv=[('ok', 'dbok(db) and room(db)'), ('latched', 'errok(db)'), ('sticky', 'implies(entry(db.recvdErr != None), db.recvdErr == entry(db.recvdErr))'),
                              ('node', 'fok(fsn) and fdur(fsn)'), ('own', 'sameref(fsn, in_fsn) or (fsn.v > entry(E.cur.alloc) and fsn.dag.v > entry(E.cur.alloc) and fsn.file.v > entry(E.cur.alloc))'),
                              ('base', 'fs_bslice(fsn.file).base == entry(fs_bslice(in_fsn.file).base) or fs_bslice(fsn.file).base > entry(E.cur.alloc)'),
                              ('plain', 'implies(entry(plx(in_fsn)), plain0(fsn))'),
                              ('shrinks', 'implies(db.recvdErr == None, seqlen(rest(db)) <= entry(seqlen(rest(db))))'),
                              ('content', 'implies(db.recvdErr == None, %s == entry(cat(fcont(in_fsn), rest(db))))' % CONT), ('i', 'i >= 0')], dec='4 - j')])


def base_mods(E, env):
    b = env['basen']
    return [('G:' + k, b.v) for k in ('lc', 'lnm', 'ln', 'nd', 'stale')] + [('G:iofail', IOG)]


OWNB = 'fs_bslice(fsn.file).base == 0 or fs_bslice(fsn.file).base > entry(E.cur.alloc)'
TOT = 'entry(cat(ncont(basen), rest(db)))'
Contract(T + '.Append', 'ctx basen db', 'out err',
         requires=PRET + ['nodeok(basen) and typed(basen)', 'wf(ncid(basen))', 'durr(basen.lc, 0, basen.ln)', 'not iofail(db)'],
         modifies=DBM + ['db.offset', base_mods],
         ensures=[('node', 'implies(err == None, nodeok(out) and typed(out))'), ('sizes', 'implies(err == None, wf(ncid(out)))'),
                  ('content', 'implies(err == None, fc(ncid(out)) == old(cat(ncont(basen), rest(db))))'),
                  ('reported', 'implies(err == None, not iofail(db))'), ('durable', 'implies(err == None, durr(out.lc, 0, out.ln))'),
                  ('plain', 'implies(err == None and old(pl(ncid(basen))), pl(ncid(out)))'), ('own', 'implies(err == None, sameref(out, basen) or fresh(out))')],
         loops=[LoopSpec(inv=[('ok', 'dbok(db) and room(db)'), ('latched', 'errok(db)'), ('node', 'fok(fsn) and fdur(fsn)'), ('plain', 'implies(db.recvdErr == None and entry(pl(ncid(basen))), plain0(fsn))'),
                              ('content', 'implies(db.recvdErr == None, %s == %s)' % (CONT, TOT)), ('i', '0 <= i and i <= fsn.dag.ln + 3'), ('base', OWNB)], dec='seqlen(rest(db))'),
                LoopSpec(inv=[('ok', 'dbok(db) and room(db) and (db.recvdErr == None or j == 0)'), ('latched', 'errok(db)'), ('node', 'fok(fsn) and fdur(fsn)'), ('plain', 'implies(db.recvdErr == None and entry(pl(ncid(basen))), plain0(fsn))'),
                              ('some', 'implies(db.recvdErr == None, (j == 0 and rest(db) != EMPTY and seqlen(rest(db)) == head(0, seqlen(rest(db)))) or (j > 0 and seqlen(rest(db)) < head(0, seqlen(rest(db)))))'),
                              ('content', 'implies(db.recvdErr == None, %s == %s)' % (CONT, TOT)), ('i', '0 <= i and j >= 0 and i <= fsn.dag.ln + 3 and implies(j > 0, i <= fsn.dag.ln + 2)'), ('base', OWNB)], dec='4 - j')])
