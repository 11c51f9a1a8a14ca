"""Populating variants."""
from checks.common import *
from checks.p15 import relation, where, RULES


def closure(ents, pairs, extra):
    """classes (lists of code point sequences) of the smallest symmetric and transitive relation over entries and targets"""
    nodes = list(ents)
    for _, t in pairs:
        if where(nodes, t) is None:
            nodes.append(t)
    cls = list(range(len(nodes)))
    for a, t in pairs:
        x, y = cls[a], cls[where(nodes, t)]
        cls = [min(x, y) if c in (x, y) else c for c in cls]
    return nodes, cls


def full_state(l):
    out = []
    for c in l.repertoire.all_repertoire():
        out.append((c.cp, c.when, c.not_when, tuple(sorted((v.cp, str(v.type), str(v.when), str(v.not_when)) for v in c.get_variants()))))
    return out


def populate(ctx):
    cfg = ctx.cfg
    shape = ctx.pick('shape', cfg['shapes'])
    pattern = ctx.pick('pattern', cfg['patterns']) if 'patterns' in cfg else None
    l, ents, rel = relation(ctx, shape, ctx.pick('targets', cfg['targets']), cfg['modes'], cfg.get('range') and ctx.flag('range'), pattern, ['1', '2'])
    nodes, cls = closure(ents, [(k, cp) for k, cp, _, _ in rel], None)
    l.populate_variants()
    got = {}
    chars = list(l.repertoire.all_repertoire())
    ctx.check(set_eq([c.cp for c in chars], nodes), 'entries are the ones there were and the variants of entries')
    ctx.check(len(chars) == len(nodes), 'each of them once')
    pairs = []
    for c in chars:
        for v in c.get_variants():
            pairs.append((c.cp, v.cp, v.type, v.when, v.not_when, v.comment, tuple(v.references)))
    # every existing mapping is there with its type, and under its rule if it had one
    for n, (k, cp, when, not_when) in enumerate(rel):
        ctx.check(Or([And(deep_eq(p[0], ents[k]), deep_eq(p[1], cp), p[2] == 't%d' % n, p[5] == 'c%d' % n, p[6] == ('1', '2')[:1 + n % 2], Or(And(when is None, not_when is None), And(p[3] == when, p[4] == not_when))) for p in pairs]),
                  'existing mappings keep their type, comment and rule')
    want = []
    for i, a in enumerate(nodes):
        for j, b in enumerate(nodes):
            if i != j and cls[i] == cls[j]:
                want.append((a, b))
    refl = [(ents[k], cp) for k, cp, _, _ in rel if len(ents[k]) == len(cp) and deep_eq(ents[k], cp)]
    ctx.check(set_eq([p[:2] for p in pairs], want + refl), 'the relation is the smallest symmetric and transitive one')
    for p in pairs:
        old = Or([And(deep_eq(p[0], ents[k]), deep_eq(p[1], cp)) for k, cp, _, _ in rel])
        ctx.check(Or(old, p[2] == 'blocked'), 'added mappings are blocked')
        if p[2] == 'blocked':
            # added beside a mapping that is there only for the sake of its rule
            ctx.check(Or(Not(old), p[3] is not None, p[4] is not None), 'mappings there already are not added again')
        rule = Or(And(p[3] is None, p[4] is None), [And(Or(And(deep_eq(p[0], ents[k]), deep_eq(p[1], cp)), And(deep_eq(p[1], ents[k]), deep_eq(p[0], cp))), p[3] == when, p[4] == not_when)
                  for k, cp, when, not_when in rel])
        ctx.check(rule, 'rules are those of the mapping or its reverse')
    before = full_state(l)
    l.populate_variants()
    ctx.check(deep_eq(full_state(l), before), 'a second time nothing changes')
    from lgr.validate.symmetry import check_symmetry
    from lgr.validate.transitivity import check_transitivity
    ctx.check(check_symmetry(l, {'ignore_rules': True})[0], 'symmetric')
    ctx.check(check_transitivity(l, {})[0], 'transitive')
    ctx.observe(len(pairs))


PATTERNS = [
    [(0, 1, '-'), (1, 2, '-'), (0, 2, 'w')],
    [(1, 0, '-'), (1, 2, 'n'), (2, 0, 'n')],
    [(0, 1, 'w'), (1, 2, 'v'), (2, 0, 'w')],
    [(0, 1, '-'), (2, 1, '-'), (2, 3, '-'), (4, 3, '-')],
    [(3, 4, '-'), (2, 3, 'n'), (1, 2, '-'), (0, 1, '-')],
    [(0, 1, '-'), (0, 2, '-'), (0, 3, '-'), (0, 4, 'w')],
    [(4, 0, '-'), (1, 4, '-'), (2, 3, 'wn')],
    [(0, 1, 'wn'), (1, 2, 'wn'), (0, 2, 'w')],
]
REACH = ['the relation is the smallest symmetric and transitive one', 'existing mappings keep their type, comment and rule', 'a second time nothing changes']
HARNESSES = [
    Harness('relations', populate, '2-4 entries, every relation among them without rules',
            quick=dict(shapes=[(1, 1), (1, 1, 1)], targets=[(0, 1, 2)], modes=[None, '-']),
            thorough=dict(shapes=[(1, 2, 1), (1, 1, 2)], targets=[(0, 1, 2)], modes=[None, '-']), must_reach=REACH),
    Harness('outside', populate, 'targets that are arbitrary code points or pairs, in the repertoire or not, or in a range of it',
            quick=dict(shapes=[(1,), (1, 1), (2, 1)], targets=[('a',), ('ab',)], modes=[None, '-'], range=True),
            thorough=dict(shapes=[(1, 1), (2, 1), (1, 1, 1)], targets=[('a', 0), ('ab',)], modes=[None, '-', 'w'], range=True), must_reach=REACH),
    Harness('rules', populate, '2 entries, mappings under none, one or two of two when and two not-when rules',
            quick=dict(shapes=[(1, 1)], targets=[(0, 1)], modes=[None, '-', 'w', 'n', 'wn', '-w', 'wv']),
            thorough=dict(shapes=[(1, 1)], targets=[(0, 1)], modes=[None, '-', 'w', 'v', 'n', 'm', 'wn', 'vm', 'wv', '-w', '-wn', 'wvn']), must_reach=REACH),
    Harness('chains', populate, '3-5 entries with chosen mappings, some under rules, whose completion takes several rounds',
            quick=dict(shapes=[(1, 1, 1), (1, 2, 1, 1, 1)], targets=[(0, 1, 2, 3, 4)], modes=None, patterns=PATTERNS[:5]),
            thorough=dict(shapes=[(1, 1, 1), (1, 2, 1, 1, 1), (2, 2, 1, 2, 1)], targets=[(0, 1, 2, 3, 4)], modes=None, patterns=PATTERNS), must_reach=REACH),
]
META = dict(assumptions=[], outside='over 4 entries; more than three rules per mapping')
