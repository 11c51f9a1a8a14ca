"""profile one harness in-process: python3-vt tools/prof.py P02 variant 10"""
import sys, time, cProfile, pstats
sys.path.insert(0, '/verif')
from symex import runner, engine as E, ctx as X, loader
mod = runner.load_property(sys.argv[1], True)
h = next(h for h in mod.HARNESSES if h.name == sys.argv[2])
eng = E.ENG = E.Engine()
eng.pending = [()]
snap = loader.snapshot()
def go(limit):
    t = time.time()
    n = 0
    while eng.pending and time.time() - t < limit:
        p = eng.pending.pop()
        loader.restore(snap)
        c = X.SymCtx(eng, 'quick', h.cfgs['quick'])
        eng.begin(p)
        try:
            h.fn(c); n += 1
        except E.PathEnd: pass
        eng.end()
    print(n, 'paths', eng.stats)
cProfile.run('go(%s)' % (sys.argv[3] if len(sys.argv) > 3 else '5'), '/tmp/prof.out')
pstats.Stats('/tmp/prof.out').sort_stats(sys.argv[4] if len(sys.argv) > 4 else 'tottime').print_stats(25)
