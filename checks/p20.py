"""Harmonizing two LGRs."""
from checks.common import *
from checks.p15 import where
from checks.p19 import closure


def complete(l, ents, classes, refl, types):
    """a symmetric and transitive relation: every two entries of a class are variants"""
    for e in ents:
        l.add_cp(list(e))
    for i, a in enumerate(ents):
        for j, b in enumerate(ents):
            if i != j and classes[i] == classes[j]:
                l.add_variant(list(a), list(b), types[0])
    for i in refl:
        l.add_variant(list(ents[i]), list(ents[i]), types[1])


def mappings(l):
    return [(c.cp, v.cp, v.type, v.when, v.not_when) for c in l.repertoire.all_repertoire() for v in c.get_variants()]


PART = {1: [(0,)], 2: [(0, 1), (0, 0)], 3: [(0, 1, 2), (0, 0, 2), (0, 1, 1), (0, 1, 0), (0, 0, 0)]}


def side(ctx, name, pool, shapes, refl, rng):
    """an LGR whose entries are the pool or any code points"""
    l = lgr()
    shape = ctx.pick('shape' + name, shapes)
    ents = pool or [cps(ctx, '%s%d' % (name, k), n) for k, n in enumerate(shape)]
    distinct(ctx, ents)
    cls = ctx.pick('cls' + name, PART[len(shape)])
    r = [k for k in ctx.pick('refl' + name, refl) if k < len(ents)]
    complete(l, ents, cls, r, ('x' + name, 'y' + name))
    if rng:
        f = ctx.cp('f' + name)
        for e in ents:
            if len(e) == 1:
                ctx.assume(Or(e[0] < f, e[0] > f + 1))
        l.add_range(f, f + 1)
        ents = ents + [(f,), (f + 1,)]
    return l, ents


def has(pairs, a, b):
    return Or([And(deep_eq(p[0], a), deep_eq(p[1], b)) for p in pairs])


def harmonized(ctx):
    from lgr.tools.harmonize import harmonize
    from lgr.metadata import Version
    from lgr.validate.symmetry import check_symmetry
    from lgr.validate.transitivity import check_transitivity
    cfg = ctx.cfg
    l1, e1 = side(ctx, 'a', None, cfg['first'], cfg['refl'], cfg.get('range') and (cfg['range'] == 'first' or ctx.flag('ra')))
    l2, e2 = side(ctx, 'b', e1 if cfg.get('same') else None, cfg['second'], cfg['refl'], cfg.get('range') == 'both' and ctx.flag('rb'))
    if cfg.get('rules'):
        w = ctx.pick('w', cfg['rules'])
        l1.add_variant(list(e1[0]), list(e1[1]), 'z', when=w)
        l1.add_variant(list(e1[1]), list(e1[0]), 'z', when=w)
    rz = None
    if cfg.get('rz'):
        rz, _ = side(ctx, 'z', None, cfg['rz'], [()], False)
    b1, b2 = mappings(l1), mappings(l2)
    copy = ctx.flag('copy')
    h1, h2, (r1, r2) = harmonize(l1, l2, rz, _copy=copy)
    if copy:
        ctx.check(h1 is not l1 and h2 is not l2 and deep_eq(mappings(l1), b1) and deep_eq(mappings(l2), b2), 'copies leave the inputs alone')
        ctx.check(And(set_eq([c.cp for c in l1.repertoire.all_repertoire()], e1), set_eq([c.cp for c in l2.repertoire.all_repertoire()], e2)), 'copies leave the inputs alone')
    m1, m2 = mappings(h1), mappings(h2)
    c1 = [c.cp for c in h1.repertoire.all_repertoire()]
    c2 = [c.cp for c in h2.repertoire.all_repertoire()]
    for e, c, b, m in ((e1, c1, b1, m1), (e2, c2, b2, m2)):
        ctx.check(And([member(x, c) for x in e]), 'entries of the input are kept')
        ctx.check(And([member(x, m) for x in b]), 'variants of the input are kept')
        for x in c:
            ctx.check(Or(member(x, e), And([member((x, x, 'out-of-repertoire', None, None), m)])), 'entries added are marked as out of the repertoire')
    for h in (h1, h2):
        ctx.check(check_symmetry(h, {'ignore_rules': True})[0], 'the results are symmetric')
        ctx.check(check_transitivity(h, {})[0], 'the results are transitive')
    for m, other, oc in ((m1, m2, c2), (m2, m1, c1)):
        for p in m:
            ctx.check(Or(deep_eq(p[0], p[1]), Not(member(p[0], oc)), Not(member(p[1], oc)), has(other, p[0], p[1])), 'common code points have the same variants')
    if rz is None:
        # what is added is required by a mapping of the other LGR
        for c, e, o, mine, theirs in ((c1, e1, e2, b1, b2), (c2, e2, e1, b2, b1)):
            nodes, cls = closure_pairs(e, mine, e, o, theirs)
            ctx.check(set_eq(c, nodes), 'entries added are variants of common code points')
        for m, mine, o in ((m1, b1, b2), (m2, b2, b1)):
            for p in m:
                ctx.check(Or(member(p, mine), p[2] == 'blocked', p[2] == 'out-of-repertoire'), 'added mappings are blocked or out of repertoire')
        ctx.check(set_eq(list(r1), [x for x in e1 if where(e2, x) is None]), 'review list of the first')
        ctx.check(set_eq(list(r2), [x for x in e2 if where(e1, x) is None]), 'review list of the second')
    ctx.observe([len(m1), len(m2), len(r1), len(r2)])


def closure_pairs(ents, mine, e, o, theirs):
    """entries of the result: the own ones, and the variants in the other LGR of common code points"""
    nodes = list(ents)
    for p in theirs:
        if where(ents, p[0]) is not None and where(nodes, p[1]) is None:
            nodes.append(p[1])
    return nodes, None


REACH = ['entries added are marked as out of the repertoire', 'common code points have the same variants', 'variants of the input are kept', 'the results are transitive']
HARNESSES = [
    Harness('pairs', harmonized, 'two LGRs of 1-3 entries (code points, pairs) that may coincide in every way, each with every symmetric and transitive relation over them, reflexive variants',
            quick=dict(first=[(1, 1), (1, 2)], second=[(1, 1), (2, 1)], refl=[()]),
            thorough=dict(first=[(1, 1, 1), (2, 1)], second=[(1, 1, 1), (2, 1)], refl=[()]), must_reach=REACH + ['review list of the first', 'copies leave the inputs alone']),
    Harness('same entries', harmonized, 'both LGRs have the same 3 entries, each with every relation over them',
            quick=dict(first=[(1, 1, 1)], second=[(1, 1, 1)], refl=[()], same=True), thorough=dict(first=[(1, 1, 1)], second=[(1, 1, 1)], refl=[(), (0,)], same=True), must_reach=REACH),
    Harness('reflexive', harmonized, 'with reflexive variants on some entries',
            quick=dict(first=[(1, 1)], second=[(1, 1)], refl=[(), (0,), (0, 1)]), thorough=dict(first=[(1, 1), (2, 1)], second=[(1, 1), (1, 2)], refl=[(), (0,), (1,), (0, 1)]), must_reach=REACH),
    Harness('ranges', harmonized, 'ranges beside the entries, which the other LGR may hold as entries',
            quick=dict(first=[(1,)], second=[(1,), (1, 1)], refl=[()], range='first'), thorough=dict(first=[(1, 1)], second=[(1,), (1, 1)], refl=[()], range='both'), must_reach=REACH),
    Harness('rules', harmonized, 'mappings under context rules',
            quick=dict(first=[(1, 1)], second=[(1, 1)], refl=[()], rules=['w']), thorough=dict(first=[(1, 1), (1, 2)], second=[(1, 1, 1)], refl=[(), (0,)], rules=['w']), must_reach=REACH),
    Harness('root zone', harmonized, 'with a reference LGR of 1-2 entries',
            quick=dict(first=[(1,), (1, 1)], second=[(1,)], refl=[()], rz=[(1, 1)]), thorough=dict(first=[(1, 1)], second=[(1, 1)], refl=[()], rz=[(1, 1), (1, 1, 1)]), must_reach=REACH),
]
META = dict(assumptions=['both LGRs are symmetric and transitive'], outside='over 3 entries per LGR')
