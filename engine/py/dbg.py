import sys
from run import *
def go(ssa, mods, fn, pat, to=8):
    P = Prog(ssa)
    for m in mods.split(','): importlib.import_module(m)
    E = verify(P, fn, {'trace': True})
    for o in E.obls:
        if o.status=='ok' or pat not in o.name: continue
        g=o.goal
        def conj(g):
            if z3.is_and(g): return [y for x in g.children() for y in conj(x)]
            if z3.is_implies(g): return [z3.Implies(g.arg(0),y) for y in conj(g.arg(1))]
            return [g]
        for x in conj(g):
            o2=Obl(o.name,o.kind,o.fn,o.line,o.pc,x)
            if discharge.quick(o2,2000): continue
            s=z3.Solver(); s.set('timeout',to*1000)
            s.add(*o.pc); s.add(*instantiate(o.pc,x)); s.add(z3.Not(x))
            r=s.check()
            print(o.name, r, z3.simplify(x))
            if r==z3.sat and '-m' in sys.argv:
                m=s.model()
                for t in subterms([x]):
                    if t.num_args() or z3.is_const(t):
                        try: print('   ', str(t)[:120].replace('\n',' '),' = ',str(m.eval(t))[:100])
                        except Exception as e: pass
    return E
if __name__=='__main__':
    go(*sys.argv[1:5])
