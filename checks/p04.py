from checks.common import *
from checks.p03 import S1


def ref_index_partition(parts, rules, label):
    out = []
    pos = 0
    for e in parts:
        best = list(e.cp)
        for v in e.variants:
            if ctx_ok(rules, v.when, v.not_when, label[:pos] + v.cp + label[pos + len(e.cp):], v.cp, pos):
                if lex_lt(list(v.cp), best):
                    best = list(v.cp)
        out += best
        pos += len(e.cp)
    return out


def check_index(ctx, l, ents, rules, label):
    from lgr.exceptions import NotInLGR
    ok = ref_eligible(ents, rules, label)
    try:
        got = l.generate_index_label(label)
    except NotInLGR:
        ctx.check(not ok, 'labels of the LGR have an index label')
        return None
    ctx.check(ok, 'labels outside the LGR have no index label')
    refs = [ref_index_partition(p, rules, label) for p in ref_partitions(ents, rules, label)]
    ctx.check(Or([deep_eq(list(got), r) for r in refs]), 'index label comes from a partition')
    ctx.check(And([Not(lex_lt(r, list(got))) for r in refs]), 'index label is the lowest')
    ctx.observe(list(got))
    return got


def sequences(ctx):
    cfg = ctx.cfg
    l = lgr(db=StubDB(ctx))
    rules = add_stub_rules(ctx, l, ['w', 'we'])
    base, ents = seq_ents(ctx, cfg['ents'], cfg['vars'], nvar=ctx.pick('nvar', cfg['nvar']))
    build(l, ents)
    check_index(ctx, l, ents, rules, base[:ctx.pick('L', cfg['lens'])])


def overlaps(ctx):
    """labels of 4 code points that divide in many ways"""
    cfg = ctx.cfg
    l = lgr(db=StubDB(ctx))
    base = cps(ctx, 'b', 4)
    distinct(ctx, [(c,) for c in base])
    names = ctx.pick('ents', cfg['ents'])
    who = ctx.pick('who', names)
    ents = []
    for name in names:
        e = Ent(tuple(base['abcd'.index(x)] for x in name))
        if name == who:
            e.variants.append(Var(cps(ctx, 'v', ctx.pick('vl', cfg['vlens'])), 'x', None))
        ents.append(e)
    build(l, ents)
    check_index(ctx, l, ents, {}, base)


def contexts(ctx):
    cfg = ctx.cfg
    l = lgr(db=StubDB(ctx))
    rules = add_stub_rules(ctx, l, ['w', 'n', 'we'])
    ents = shape_ents(ctx, cfg['shapes'], ['x'])
    build(l, ents)
    order = ctx.pick('order', [o for o in cfg['labels'] if max(o) < len(ents)])
    check_index(ctx, l, ents, rules, tuple(c for k in order for c in ents[k].cp))


def classes(ctx):
    """symmetric, transitive LGR of single code points: index labels are equal exactly for variant labels"""
    cfg = ctx.cfg
    l = lgr(db=StubDB(ctx))
    part = ctx.pick('partition', cfg['partitions'])
    cp = cps(ctx, 'c', len(part))
    distinct(ctx, [(c,) for c in cp])
    for c in cp:
        l.add_cp([c])
    for i in range(len(part)):
        for j in range(len(part)):
            if i != j and part[i] == part[j]:
                l.add_variant([cp[i]], [cp[j]], 'blocked')
    n = ctx.pick('n', cfg['lens'])
    a = [ctx.pick('a%d' % k, len(part)) for k in range(n)]
    m = ctx.pick('m', cfg['lens'])
    b = [ctx.pick('b%d' % k, len(part)) for k in range(m)]
    la, lb = tuple(cp[i] for i in a), tuple(cp[i] for i in b)
    ia, ib = l.generate_index_label(la), l.generate_index_label(lb)
    same = n == m and all(part[i] == part[j] for i, j in zip(a, b))
    ctx.check(Iff(deep_eq(ia, ib), same), 'index labels are equal exactly for variant labels')
    ctx.check(deep_eq(l.generate_index_label(ia), ia), 'the index label is its own index label')
    ctx.check(deep_eq(l.generate_index_label(la, max_recursion=2), ia), 'iterating changes nothing')
    gen = [o[0] for o in l.compute_label_disposition(la, include_invalid=True, collect_log=False)]
    ctx.check(Iff(Or([deep_eq(g, lb) for g in gen]), same), 'equal index labels exactly for generated variants')
    ctx.observe([ia, ib])


def empty(ctx):
    l = lgr(db=StubDB(ctx))
    ctx.check(l.generate_index_label(()) == (), 'the empty label has the empty index label')


QS = [(a,) for a in S1] + [((('1', '-'),), (('0', '-'), ('r', 'n'))), ((('v', 'w'), 'W'), (('0', '-'),)), ((('v', 'w'),), (('v', 'n'),)), ((), (), (('v', 'w'), 'W')), ((('s', 'n'),), (('s', 'w'),))]
HARNESSES = [
    Harness('sequences', sequences, 'any subset of the entries a, b, c, ab, bc (thorough abc) over distinct symbolic code points, each with no '
            'variant, a symbolic variant (of 1 or 2 code points, with or without context rule of arbitrary truth) or an entry context rule; labels ab, abc',
            quick=dict(ents=('a', 'b', 'c', 'ab', 'bc'), vars=['-', 'w'], nvar=[1], lens=[2, 3]),
            thorough=dict(ents=('a', 'b', 'c', 'ab', 'bc', 'abc'), vars=['-', 'w', 'W'], nvar=[1], lens=[2, 3]),
            must_reach=['index label is the lowest']),
    Harness('overlaps', overlaps, 'labels abcd over families of up to 7 entries that overlap in many ways, one with a variant of 1-2 arbitrary code points',
            quick=dict(ents=[('ab', 'cd', 'a', 'bc', 'b'), ('ab', 'cd', 'a', 'bcd', 'b', 'c'), ('abc', 'd', 'ab', 'a', 'bc', 'cd'), ('a', 'b', 'c', 'd', 'bcd', 'bc'), ('abcd', 'abc', 'ab', 'cd')], vlens=[1, 2]),
            thorough=dict(ents=[('ab', 'cd', 'a', 'bc', 'b', 'c', 'd'), ('ab', 'cd', 'a', 'bcd', 'b', 'c'), ('abc', 'd', 'ab', 'a', 'bc', 'cd', 'b'), ('a', 'b', 'c', 'd', 'bcd', 'bc', 'cd'), ('abcd', 'abc', 'ab', 'cd', 'd')], vlens=[1, 2, 3]),
            must_reach=['index label is the lowest']),
    Harness('ties', sequences, 'a, ab over symbolic code points with variants of 2 code points, which may start alike',
            quick=dict(ents=('a', 'ab', 'b'), vars=['-', 'v'], nvar=[2], lens=[2]), thorough=dict(ents=('a', 'ab', 'b'), vars=['-', 'v', 'w'], nvar=[2, 3], lens=[2])),
    Harness('contexts', contexts, '1-2 entries, up to 2 variants each (single, pairs, reflexive, mutual), context rules of arbitrary truth, labels of 1-3 entries',
            quick=dict(shapes=QS, labels=[(0,), (0, 1), (0, 0), (1, 0), (0, 1, 2)]),
            thorough=dict(shapes=QS, labels=[(0,), (0, 1), (0, 0), (1, 0), (0, 1, 0), (0, 0, 1), (0, 1, 2), (2, 0, 2)]),
            must_reach=['index label is the lowest', 'labels of the LGR have an index label']),
    Harness('classes', classes, 'every partition of 3 (thorough 4) symbolic code points into variant classes, every pair of labels of up to 2 (thorough 3) code points over them',
            quick=dict(partitions=[(0, 0), (0, 1), (0, 0, 0), (0, 0, 1)], lens=[1, 2]),
            thorough=dict(partitions=[(0, 0), (0, 1), (0, 0, 0), (0, 0, 1), (0, 0, 1, 1), (0, 0, 0, 1)], lens=[1, 2]),
            must_reach=['index labels are equal exactly for variant labels']),
    Harness('empty', empty, 'the empty label', must_reach=['the empty label has the empty index label']),
]
META = dict(assumptions=['context rules answer an arbitrary function of (label, entry, position); see P07'],
            outside='labels over 4 entries; more than 2 variants per entry')
