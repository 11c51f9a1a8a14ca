"""Variant sets: the classes of connected entries."""
from checks.common import *


def ref_sets(ents, edges):
    """classes of two or more entry numbers"""
    n = len(ents)
    cls = list(range(n))
    for i, j in edges:
        a, b = cls[i], cls[j]
        cls = [min(a, b) if c in (a, b) else c for c in cls]
    groups = [[ents[k] for k in range(n) if cls[k] == c] for c in sorted(set(cls))]
    return [g for g in groups if len(g) > 1]


def ordered(xs):
    return And([lex_lt(list(a), list(b)) for a, b in zip(xs, xs[1:])])


def sets(ctx):
    cfg = ctx.cfg
    l = lgr()
    shape = ctx.pick('shape', cfg['shapes'])
    ents = [cps(ctx, 'e%d' % k, n) for k, n in enumerate(shape)]
    distinct(ctx, ents)
    for e in ents:
        l.add_cp(list(e))
    n = len(ents)
    pairs = [(i, j) for i in range(n) for j in range(i)]
    edges = ctx.pick('edges', cfg['edges']) if cfg.get('edges') else [p for p in pairs if ctx.flag('e%d%d' % p)]
    for i, j in edges:
        w = ctx.pick('w%d%d' % (i, j), cfg['whens'])
        l.add_variant(list(ents[i]), list(ents[j]), 'x', when=w)
        l.add_variant(list(ents[j]), list(ents[i]), 'y')
        if w and i:      # the same mapping under another rule
            l.add_variant(list(ents[i]), list(ents[j]), 'x', not_when='n')
    refl = ctx.pick('reflexive', cfg['reflexive'])
    if refl is not None and refl < n:
        l.add_variant(list(ents[refl]), list(ents[refl]), 'r')
    extra = ctx.pick('extra', cfg['extra'])
    if extra == 'range':       # ranges have no variants and belong to no set
        f = ctx.cp('f')
        for e in ents:
            if len(e) == 1:
                ctx.assume(Or(e[0] < f, e[0] > f + 2))
        l.add_range(f, f + 2)
    want = ref_sets(ents, edges)
    force = ctx.flag('force') if cfg.get('force') else False
    if extra == 'outside':     # a variant outside the repertoire counts only when asked for
        o = cps(ctx, 'o', 1)
        distinct(ctx, ents + [o])
        k = ctx.pick('outof', n)
        l.add_variant(list(ents[k]), list(o), 'x')
        if force:
            mine = [g for g in want if any(x is ents[k] for x in g)]
            want = [g for g in want if g not in mine] + [(mine[0] if mine else [ents[k]]) + [o]]
    got = l.repertoire.get_variant_sets(force=force) if cfg.get('force') else l.repertoire.get_variant_sets()
    got = [list(g) for g in got]
    ctx.check(len(got) == len(want), 'one set for every class of connected entries')
    ctx.check(multiset_eq(got, want, lambda a, b: set_eq(a, b) if len(a) == len(b) else False), 'the sets are the classes')
    ctx.check(And([ordered(g) for g in got]), 'the entries of a set are in order')
    ctx.check(ordered([g[0] for g in got]), 'the sets are in order')
    if extra == 'delete' and edges:       # and follow later edits
        i, j = edges[0]
        l.del_cp(list(ents[i]))
        for k in range(n):
            if k != i and ((i, k) in edges or (k, i) in edges):
                l.del_variant(list(ents[k]), list(ents[i]))
                l.del_variant(list(ents[k]), list(ents[i]), when='w')
                l.del_variant(list(ents[k]), list(ents[i]), not_when='n')
        got = [list(g) for g in l.repertoire.get_variant_sets()]
        idx = [k for k in range(n) if k != i]
        want = ref_sets([ents[k] for k in idx], [(idx.index(a), idx.index(b)) for a, b in edges if i not in (a, b)])
        ctx.check(multiset_eq(got, want, lambda a, b: set_eq(a, b) if len(a) == len(b) else False), 'the sets follow deletions')
    ctx.observe(got)


HARNESSES = [
    Harness('sets', sets, '2-3 entries (single code points and pairs that may share code points) with every symmetric variant relation, with and without context rules, a reflexive variant, a range beside them',
            quick=dict(shapes=[(1, 1), (1, 2), (1, 1, 1), (1, 1, 2)], whens=[None], reflexive=[None, 0], extra=['', 'delete'], force=True),
            thorough=dict(shapes=[(1, 1), (1, 2), (2, 2), (1, 1, 1), (1, 1, 2), (1, 2, 2), (2, 2, 3)], whens=[None, 'w'], reflexive=[None, 1], extra=['', 'delete', 'range'], force=True),
            must_reach=['one set for every class of connected entries', 'the entries of a set are in order', 'the sets are in order', 'the sets follow deletions']),
    Harness('outside', sets, 'the same with a variant outside the repertoire, asked for or not',
            quick=dict(shapes=[(1, 1), (1, 1, 2)], whens=[None], reflexive=[None], extra=['outside'], force=True),
            thorough=dict(shapes=[(1, 1), (1, 2), (1, 1, 1), (1, 1, 2)], whens=[None, 'w'], reflexive=[None, 1], extra=['outside'], force=True)),
    Harness('chains', sets, 'larger relations: 4-5 entries as chains, stars, two pairs, two classes, cycles, over single symbolic code points in any numeric order',
            quick=dict(shapes=[(1, 1, 1, 1), (1, 1, 2, 2)], edges=[[(1, 0), (2, 1), (3, 2)], [(1, 0), (3, 2)], [(2, 0), (3, 1), (3, 0)]], whens=[None], reflexive=[None], extra=['']),
            thorough=dict(shapes=[(1, 1, 1, 1), (1, 2, 1, 1), (1, 1, 2, 2), (1, 2, 1, 2)], edges=[[(1, 0), (2, 1), (3, 2)], [(1, 0), (3, 2)], [(3, 0), (3, 1), (3, 2)], [(2, 0), (3, 1), (3, 0)], [(1, 0), (2, 1), (3, 2), (3, 0)]],
                          whens=[None], reflexive=[None, 2], extra=['', 'range'])),
]
META = dict(assumptions=['the relation is symmetric between entries, as the property states'], outside='over 4 entries; sequences over 3 code points')
