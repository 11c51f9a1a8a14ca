from checks.common import *
from checks.p03 import S1
from checks.p06 import permitted, IGNORED

SCR = ['Latin', 'Han', 'Hiragana', 'Greek', 'Common']


def count(ctx, l, label, hide, known=None):
    est = l.estimate_variant_number(label, hide_mixed_script_variants=hide)
    out = [o[0] for o in l.compute_label_disposition(label, include_invalid=True, collect_log=False, hide_mixed_script_variants=hide)]
    n = 0
    for i, o in enumerate(out):
        if not any(len(o) == len(p) and deep_eq(o, p) for p in out[:i]):
            n += 1
    ctx.check(n <= est, 'estimate is not lower than the number of labels', known=known)
    ctx.observe([n, est])
    return n, est


def shapes(ctx):
    cfg = ctx.cfg
    l = lgr(db=StubDB(ctx))
    rules = add_stub_rules(ctx, l, ['w', 'n', 'we'])
    ents = shape_ents(ctx, cfg['shapes'], cfg['types'])
    build(l, ents)
    order = ctx.pick('order', [o for o in cfg['labels'] if max(o) < len(ents)])
    label = tuple(c for k in order for c in ents[k].cp)
    if not ref_eligible(ents, rules, label):
        return
    n, est = count(ctx, l, label, False)
    if not any(v.when or v.not_when or len(v.cp) > 1 for e in ents for v in e.variants):
        ctx.check(n == est, 'estimate is exact for single code points without rules')


def sequences(ctx):
    cfg = ctx.cfg
    l = lgr(db=StubDB(ctx))
    rules = add_stub_rules(ctx, l, ['w', 'we'])
    base, ents = seq_ents(ctx, cfg['ents'], cfg['vars'])
    build(l, ents)
    label = base[:ctx.pick('L', cfg['lens'])]
    if not ref_eligible(ents, rules, label):
        return
    count(ctx, l, label, False)


def scripts(ctx):
    cfg = ctx.cfg
    sc = ctx.pick('scripts', cfg['scripts'])
    l = lgr(db=StubDB(ctx, scripts=sc))
    rules = add_stub_rules(ctx, l, ['w', 'n', 'we'])
    ents = shape_ents(ctx, cfg['shapes'], ['x'])
    build(l, ents)
    order = ctx.pick('order', [o for o in cfg['labels'] if max(o) < len(ents)])
    label = tuple(c for k in order for c in ents[k].cp)
    if not ref_eligible(ents, rules, label):
        return
    # recorded finding: the label's own code points are kept in other-script labels whose scripts permit them
    scr = lambda c: str(l.unicode_database.get_script(c))
    base = permitted({scr(c) for c in label} - IGNORED)
    first = {scr(c) for v in ents[order[0]].variants for c in v.cp}
    kept = any(scr(c) in permitted({s}) for s in first if s not in base and s not in IGNORED for c in label[1:])
    count(ctx, l, label, True, known=('P05-kept-original', kept))


def longer(ctx):
    """variants and entries of one or two code points in other scripts"""
    cfg = ctx.cfg
    l = lgr(db=StubDB(ctx, scripts=cfg['scripts']))
    scr = lambda c: str(l.unicode_database.get_script(c))
    ents = [Ent(cps(ctx, 'e%d' % k, n)) for k, n in enumerate(ctx.pick('ents', cfg['ents']))]
    label = tuple(c for e in ents for c in e.cp)
    distinct(ctx, [(c,) for c in label])
    ctx.assume(And([scr(c) == cfg['base'] for c in label]))
    for k, e in enumerate(ents):
        for j, n in enumerate(ctx.pick('vars%d' % k, cfg['vars'])):
            v = Var(cps(ctx, 'v%d_%d' % (k, j), n), 'x')
            for o in e.variants:
                ctx.assume(Not(deep_eq(o.cp, v.cp)))
            e.variants.append(v)
    build(l, ents)
    count(ctx, l, label, True)


QS = [(a,) for a in S1] + [((('1', '-'),), (('0', '-'), ('r', 'n'))), ((('v', '-'),), (('v', '-'), ('v', '-'))),
                           ((('v', '-'), ('r', '-')), (('v', '-'), ('0', '-'))), ((('v', 'w'), 'W'), (('0', '-'),))]
HS = [((('v', '-'),),), ((('v', '-'), ('v', '-')),), ((('s', '-'),),), ((('v', '-'),), (('v', '-'),)), ((('v', '-'),), ()), ((('1', '-'),), (('0', '-'),)),
      ((('v', '-'),), (('v', '-'), ('r', '-')))]
HARNESSES = [
    Harness('shapes', shapes, '1-2 entries, up to 2 variants each (single, pairs, reflexive, mutual), context rules of arbitrary truth, labels of 1-3 entries',
            quick=dict(shapes=QS, types=['x', None], labels=[(0,), (0, 1), (0, 0)]),
            thorough=dict(types=['x', None], shapes=QS + [((('v', '-'), ('v', '-')), (('v', '-'), ('v', '-')), (('v', '-'), ('0', '-')))],
                          labels=[(0,), (0, 1), (0, 0), (1, 0), (0, 1, 0), (0, 0, 1), (0, 1, 2)]),
            must_reach=['estimate is not lower than the number of labels', 'estimate is exact for single code points without rules']),
    Harness('sequences', sequences, 'any subset of the entries a, b, c, ab, bc (thorough abc) over distinct symbolic code points, each with or without a symbolic variant; labels ab, abc',
            quick=dict(ents=('a', 'b', 'c', 'ab', 'abc'), vars=['-', 'v'], lens=[2, 3]),
            thorough=dict(ents=('a', 'b', 'c', 'ab', 'bc', 'abc'), vars=['-', 'v', 'W'], lens=[2, 3])),
    Harness('scripts', scripts, 'mixed-script variants hidden: 1-2 entries, up to 2 variants each, every assignment of scripts to code points; labels of 1-3 entries',
            quick=dict(shapes=HS, labels=[(0,), (0, 1)], scripts=[['Latin', 'Han', 'Hiragana'], ['Latin', 'Greek', 'Common']]),
            thorough=dict(shapes=HS, labels=[(0,), (0, 1), (0, 0), (0, 1, 0)], scripts=[['Latin', 'Han', 'Hiragana'], ['Latin', 'Greek', 'Common'], ['Hangul', 'Latin', 'Greek', 'Cyrillic']]),
            must_reach=['estimate is not lower than the number of labels']),
    Harness('longer', longer, 'mixed-script variants hidden: labels of 1-2 entries of 1-2 code points in one script, 1-2 variants of 1-2 code points each in any of the scripts',
            quick=dict(base='Greek', scripts=['Greek', 'Latin', 'Han'], ents=[(1, 1), (2, 1)], vars=[(1,), (2,)]),
            thorough=dict(base='Greek', scripts=['Greek', 'Latin', 'Han'], ents=[(2,), (1, 1), (2, 1), (1, 2)], vars=[(1,), (2,), (1, 2)]),
            must_reach=['estimate is not lower than the number of labels']),
]
META = dict(assumptions=['context rules answer an arbitrary function of (label, entry, position); see P07', 'scripts are an arbitrary function of the code point (a few script names)'],
            outside='labels over 3 entries; more than 2 variants per entry')
