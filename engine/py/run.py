import sys, os, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../../contracts'))
import spec, shapes
from shapes import *
import discharge, importlib


def verify(P, fn, opts=None):
    E = Machine(P, fn, CONTRACTS[fn], opts)
    t0 = time.time()
    err = None
    try:
        E.verify()
    except (Unsupported, SpecError, RecursionError, NameError, AttributeError, z3.Z3Exception, TypeError) as e:
        err = '%s: %s' % (type(e).__name__, e)
        if opts and opts.get('trace'):
            traceback.print_exc()
    E.symtime = time.time() - t0
    E.err = err
    return E


def main():
    pass
    return main2()


def main2():
    ap = sys.argv[1:]
    P = Prog(ap[0])
    mods = ap[1].split(',')
    pat = ap[2] if len(ap) > 2 else ''
    for m in mods:
        importlib.import_module(m)
    for fn in list(CONTRACTS):
        c = CONTRACTS[fn]
        if pat not in fn or c.inline or c.trusted:
            continue
        E = verify(P, fn, {'trace': '-t' in ap})
        t1 = time.time()
        discharge.discharge(E.obls)
        bad = [o for o in E.obls if o.status != 'ok']
        print('%-60s obls %3d bad %d  paths %s reach %s cover %s sym %.1fs (q %d %.1fs) dis %.1fs %s' % (short(fn), len(E.obls), len(bad), getattr(E, 'outcomes', '?'), getattr(E, 'reach', '?'), getattr(E, 'pre_cover', '?'), E.symtime, E.qcount, E.qtime, time.time() - t1, E.err or ''), flush=True)
        if E.unknown:
            print('    unknown:', E.unknown)
        for o in bad:
            print('    FAIL', o.name, 'line', o.line, o.status, o.backend, '%.1f' % o.time, o.detail[:100])
            if '-v' in ap:
                print(z3.simplify(o.goal))
                for c in o.pc:
                    print('      ', str(c)[:int(os.environ.get('VC_W','300'))])
    if '-l' in ap:
        for name, th in LEMMAS:
            for lab, hyp, goal in th():
                o = Obl(name + ': ' + lab, 'lemma', '', 0, hyp, goal)
                discharge.discharge([o])
                print('LEMMA', o.name, o.status, o.backend)


if __name__ == '__main__':
    main()
