"""where a harness forks: python3-vt tools/forks.py P18 'date numbers' 10"""
import sys, time, collections, traceback
sys.path.insert(0, '/verif')
from symex import runner, engine as E, ctx as X, loader
mod = runner.load_property(sys.argv[1], True)
h = next(h for h in mod.HARNESSES if h.name == sys.argv[2])
eng = E.ENG = E.Engine()
eng.pending = [()]
snap = loader.snapshot()
cnt = collections.Counter()
orig = eng.branch
def branch(cond):
    f = eng.stats['forks']
    v = orig(cond)
    if eng.stats['forks'] > f:
        st = [x for x in traceback.extract_stack() if '/symex/' not in x.filename or 'strs' in x.filename or 'ops' in x.filename]
        cnt[' < '.join('%s:%d' % (x.filename.split('/')[-1], x.lineno) for x in reversed(st[-4:]))] += 1
    return v
eng.branch = branch
t = time.time(); n = 0
while eng.pending and time.time() - t < float(sys.argv[3]):
    p = eng.pending.pop()
    loader.restore(snap)
    c = X.SymCtx(eng, 'quick', h.cfgs['quick'])
    eng.begin(p)
    try:
        h.fn(c); n += 1
    except E.PathEnd: pass
    eng.end()
print(n, 'paths', eng.stats)
for k, v in cnt.most_common(20): print(v, k)
