from checks.common import *
from checks.p02 import expected, make_actions


def generation(ctx):
    cfg = ctx.cfg
    db = StubDB(ctx)
    l = lgr(db=db)
    rules = add_stub_rules(ctx, l, ['w', 'n', 'ra0', 'ra1', 'we'])
    ents = shape_ents(ctx, cfg['shapes'], cfg['types'])
    build(l, ents)
    actions = make_actions(ctx, l, cfg.get('actions', 0), [('x',)])
    order = ctx.pick('order', [o for o in cfg['labels'] if max(o) < len(ents)])
    parts = [ents[k] for k in order]
    label = tuple(c for e in parts for c in e.cp)
    if cfg.get('eligible', True):
        if not ref_eligible(ents, rules, label):
            return
        disp0 = l.test_label_eligible(label, collect_log=False)
        if not disp0[0]:
            return
    keep = ctx.flag('include_invalid')
    out = [r[:6] for r in l.compute_label_disposition(label, include_invalid=keep, collect_log=False)]
    perms = ref_permutations(parts, rules)
    ref = []
    for lab, ts, only in perms:
        if not ref_eligible(ents, rules, lab):
            ref.append((lab, ts, 'invalid'))
        else:
            ref.append((lab, ts, expected(rules, actions, lab, ts, only)[0]))
    ctx.check(len(out) >= 1 and deep_eq(tuple(out[-1][0]), label), 'original label comes last')
    ctx.check(And([Not(deep_eq(tuple(o[0]), label)) for o in out[:-1]]), 'original label returned once')
    ctx.check(And([Not(deep_eq(tuple(a[0]), tuple(b[0]))) for i, a in enumerate(out) for b in out[:i]]), 'no duplicates')
    for o in out[:-1]:
        ctx.check(Or([And(deep_eq(tuple(o[0]), r[0]), r[1] == o[4], r[2] == o[1]) for r in ref]),
                  'returned label is a permutation with its types and disposition')
        ctx.check(keep or o[1] != 'invalid', 'invalid labels are dropped')
    for r in ref:
        got = Or([deep_eq(tuple(o[0]), r[0]) for o in out])
        excuse = False if keep else Or([And(deep_eq(q[0], r[0]), q[2] == 'invalid') for q in ref])
        ctx.check(Or(got, excuse), 'every valid permutation is returned')
    for o in out[:-1] if cfg.get('chars') else ():
        # restricted to some labels
        one = [r[:6] for r in l.compute_label_disposition(label, include_invalid=keep, collect_log=False, with_labels=[tuple(o[0])])]
        ctx.check(len(one) == 2 and deep_eq([x[0] for x in one], [o[0], label]) and one[0][1:5] == o[1:5], 'the labels asked for are returned')
    if cfg.get('chars'):
        counts, rows = l.compute_label_disposition_summary(list(label), include_invalid=keep)
        ctx.check(len(rows) == len(out) and deep_eq([(tuple(r[0]),) + tuple(r[1:5]) for r in rows], [(tuple(r[0]),) + tuple(r[1:5]) for r in out]), 'the summary has the labels returned')
        ctx.check(dict(counts) == {d: [r[1] for r in out].count(d) for d in {r[1] for r in out}}, 'the summary counts the labels of each disposition')
        wide = list(l.compute_label_disposition(label, include_invalid=True, collect_log=False, generate_chars=True))
        choices = [tuple(tuple(c.cp) for c in o[6]) for o in wide]
        for o, c in zip(wide, choices):
            ctx.check(deep_eq(tuple(x for p in c for x in p), tuple(o[0])), 'the characters spell the label')
        full = ref_choices(parts, rules)
        for r in full:
            if not deep_eq(r[0], label):
                ctx.check(member(r[3], choices), 'every choice of characters is returned')
        for c in choices[:-1]:
            ctx.check(member(c, [r[3] for r in full]), 'every choice of characters is a permutation')
    ctx.observe([[list(o[0]), o[1], o[3], sorted(o[4])] for o in out])


def too_long(ctx):
    from lgr.exceptions import LGRApiInvalidParameter
    l = lgr(db=StubDB(ctx))
    c = ctx.cp('c')
    l.add_cp([c])
    n = ctx.pick('n', [62, 63, 64, 65, 100])
    try:
        out = list(l.compute_label_disposition([c] * n, collect_log=False))
        ctx.check(n <= 63, 'labels over 63 code points are refused')
        ctx.check(len(out) == 1 and deep_eq(list(out[0][0]), [c] * n), 'label without variants yields itself')
    except LGRApiInvalidParameter:
        ctx.check(n > 63, 'labels up to 63 code points are accepted')


def sequences(ctx):
    """Repertoires with sequences: every returned label comes from a partition of the label; the longest-match
    partition's permutations are all returned."""
    cfg = ctx.cfg
    l = lgr(db=StubDB(ctx))
    rules = add_stub_rules(ctx, l, ['w', 'n', 'we'])
    base = cps(ctx, 'b', 3)
    distinct(ctx, [(c,) for c in base])
    ents = []
    for name, cp in (('a', base[:1]), ('b', base[1:2]), ('c', base[2:3]), ('ab', base[:2]), ('bc', base[1:3]), ('abc', base)):
        if name not in cfg['ents']:
            continue
        if not ctx.flag('has_' + name):
            continue
        e = Ent(cp)
        m = ctx.pick('v_' + name, cfg['vars'])
        if m in ('v', 'w'):
            e.variants.append(Var(cps(ctx, 'v_' + name, 1), 'x', 'w' if m == 'w' else None))
        ents.append(e)
    build(l, ents)
    label = base[:ctx.pick('L', cfg['lens'])]
    if not ref_eligible(ents, rules, label):
        return

    def partitions(i):
        if i == len(label):
            return [[]]
        return [[e] + p for e in ents if len(e.cp) <= len(label) - i and deep_eq(e.cp, label[i:i + len(e.cp)])
                for p in partitions(i + len(e.cp))]
    allp = [r for p in partitions(0) for r in ref_permutations(p, rules)]
    out = [r[:6] for r in l.compute_label_disposition(label, include_invalid=True, collect_log=False)]
    ctx.check(deep_eq(tuple(out[-1][0]), label), 'original label comes last')
    ctx.check(And([Not(deep_eq(tuple(o[0]), label)) for o in out[:-1]]), 'original label returned once')
    ctx.check(And([Not(deep_eq(tuple(a[0]), tuple(b[0]))) for i, a in enumerate(out) for b in out[:i]]), 'no duplicates')
    for o in out[:-1]:
        ctx.check(Or([And(deep_eq(tuple(o[0]), r[0]), r[1] == o[4]) for r in allp]), 'returned label comes from a partition')
    for r in allp:
        ctx.check(Or([deep_eq(tuple(o[0]), r[0]) for o in out]), 'every permutation of every partition is returned')
    ctx.observe([[list(o[0]), o[1], sorted(o[4])] for o in out])


S1 = [(), (('v', '-', 'w'),), (('v', 'w'), ('v', 'n')), (('r', '-', 'w'), ('v', '-')), (('s', '-'),)]
QS = [(a,) for a in S1] + [((('v', '-'),), (('v', 'w'),)), ((('1', '-'),), (('0', '-'), ('r', 'n'))), ((('s', 'n'),), (('v', '-'),)),
                           ((('v', '-'), 'W'), (('0', '-'),)), ((), (('0', '-'),)), ((('v', '-'),), ())]
HARNESSES = [
    Harness('generation', generation, 'repertoires of 1-2 entries with symbolic code points and up to 2 variants each (single code points or '
            '2-code-point sequences, arbitrary targets, reflexive, mutual), context rules of arbitrary truth on entries and variants, labels of 1-2 '
            '(thorough 3) entries, include_invalid both ways',
            quick=dict(shapes=QS, types=['x', 'blocked'], labels=[(0,), (0, 1), (0, 0)]),
            thorough=dict(shapes=QS, types=['x', 'blocked', 'invalid', None], labels=[(0,), (0, 1), (0, 0), (1, 0), (0, 1, 0), (0, 0, 1)]),
            must_reach=['every valid permutation is returned', 'no duplicates']),
    Harness('untyped', generation, 'the same with variants that may have no type, reached in two ways',
            quick=dict(shapes=[((('v', 'w'), ('v', 'n')),), ((('v', 'w'), ('r', 'n')),), ((('v', '-'),), (('v', '-'),))], types=[None, 'x'], labels=[(0,), (0, 1), (0, 0)]),
            thorough=dict(shapes=[((('v', 'w'), ('v', 'n')),), ((('v', 'w'), ('r', 'n')),), ((('v', '-'), ('s', '-')), (('v', 'w'),))], types=[None, 'x'], labels=[(0,), (0, 1), (0, 0), (0, 1, 0)])),
    Harness('choices', generation, 'the same with the characters each label is made of, and restricted to some labels',
            quick=dict(shapes=[((('v', '-'), ('s', 'w')), ()), ((('v', '-'), 'W'), (('0', '-'),)), ((('s', '-'),), (('s', '-'),)), ((('r', 'w'), ('s', '-')),), ((('v', '-'), ('s', '-')), (('s', '-'), ('v', '-')))],
                       types=['x'], labels=[(0,), (0, 1)], chars=True),
            thorough=dict(shapes=QS + [((('v', '-'), ('s', '-')), (('s', '-'), ('v', '-')))], types=['x', 'invalid'], labels=[(0,), (0, 1), (0, 0)], chars=True),
            must_reach=['every choice of characters is returned', 'the labels asked for are returned']),
    Harness('sequences', sequences, 'repertoires with any subset of {a, b, c, ab, bc, abc} over symbolic distinct a, b, c, each with or without a symbolic '
            'variant (context rule of arbitrary truth); label abc or ab',
            quick=dict(ents=('a', 'b', 'c', 'ab', 'bc'), vars=['-', 'v'], lens=[2, 3]),
            thorough=dict(ents=('a', 'b', 'c', 'ab', 'bc', 'abc'), vars=['-', 'v', 'w'], lens=[2, 3]),
            must_reach=['every permutation of every partition is returned']),
    Harness('too-long', too_long, 'label lengths 62, 63, 64, 65, 100', must_reach=['labels up to 63 code points are accepted']),
]
META = dict(assumptions=['context rules answer an arbitrary function of (label, entry, position); see P07', 'eligible label (documented precondition)'],
            outside='labels of more than 3 entries; more than 2 variants per entry; mixed-script hiding (P06)')
