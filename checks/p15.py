"""Symmetry and transitivity checks."""
from checks.common import *

RULES = {'-': (None, None), 'w': ('w', None), 'v': ('v', None), 'n': (None, 'n'), 'm': (None, 'm'),
         'x': ('n', None), 'y': (None, 'w')}        # a when rule that is a not-when rule elsewhere, and conversely


def relation(ctx, shape, targets, modes, extra, pattern=None, refs=()):
    """an LGR over entries with any of the listed variants, or those of the pattern; the reference is a list of (entry, target, when, not_when)"""
    l = lgr()
    for r in refs:
        l.add_reference('text ' + r, ref_id=r)
    ents = [cps(ctx, 'e%d' % k, n) for k, n in enumerate(shape)]
    distinct(ctx, ents)
    if extra:
        f = ctx.cp('f')
        for e in ents:
            if len(e) == 1:
                ctx.assume(And(e[0] != f, e[0] != f + 1))
    for e in ents:
        l.add_cp(list(e))
    if extra:
        l.add_range(f, f + 1)
        ents = ents + [(f,), (f + 1,)]
    rel = []
    for k in range(len(shape)):
        for j, t in enumerate(targets):
            if isinstance(t, int) and t >= len(shape):
                continue
            if isinstance(t, int):
                cp = ents[t]
            else:
                cp = cps(ctx, 'x%d_%d' % (k, j), len(t))
            m = ctx.pick('r%d_%d' % (k, j), modes) if pattern is None else dict(((a, b), c) for a, b, c in pattern).get((k, t))
            if m is None:
                continue
            for one in m:
                when, not_when = RULES[one]
                if any(x[0] == k and (x[2], x[3]) == (when, not_when) and deep_eq(x[1], cp) for x in rel):
                    continue
                l.add_variant(list(ents[k]), list(cp), 't%d' % len(rel), when=when, not_when=not_when, comment='c%d' % len(rel), ref=list(refs[:1 + len(rel) % 2]))
                rel.append((k, cp, when, not_when))
    return l, ents, rel


def where(ents, cp):
    for k, e in enumerate(ents):
        if len(e) == len(cp) and deep_eq(e, cp):
            return k
    return None


def ref_symmetry(ents, rel, ignore):
    bad = []
    for k, cp, when, not_when in rel:
        t = where(ents, cp)
        if t is None:
            bad.append((ents[k], cp, when, not_when, 'not-in-repertoire', None, None))
            continue
        back = [r for r in rel if r[0] == t and len(r[1]) == len(ents[k]) and deep_eq(r[1], ents[k])]
        if not back:
            bad.append((ents[k], cp, when, not_when, 'missing-symmetric-variant', None, None))
        elif ignore:
            continue
        elif when is not None and when not in [r[2] for r in back]:
            bad.append((ents[k], cp, when, not_when, 'variant-contextual-rule-missing', 'when', when))
        elif not_when is not None and not_when not in [r[3] for r in back]:
            bad.append((ents[k], cp, when, not_when, 'variant-contextual-rule-missing', 'not-when', not_when))
    return bad


def ref_transitivity(ents, rel):
    """(success, offending pairs)"""
    ok, bad = True, []
    for k, cp, _, _ in rel:
        t = where(ents, cp)
        if t is None:
            ok = False
            continue
        for k2, cp2, _, _ in rel:
            if k2 != t or (len(cp2) == len(ents[k]) and deep_eq(cp2, ents[k])):
                continue
            if not any(r[0] == k and len(r[1]) == len(cp2) and deep_eq(r[1], cp2) for r in rel):
                ok = False
                bad.append((ents[k], cp2))
    return ok, bad


def check(ctx):
    from lgr.validate.symmetry import check_symmetry
    from lgr.validate.transitivity import check_transitivity
    from lgr.validate.conditional_variants import check_conditional_variants
    cfg = ctx.cfg
    shape = ctx.pick('shape', cfg['shapes'])
    l, ents, rel = relation(ctx, shape, ctx.pick('targets', cfg['targets']), cfg['modes'], cfg.get('range') and ctx.flag('range'))
    for r in ctx.pick('rules', cfg.get('rules', [()])):
        l.rules.append(r)
    if cfg.get('db'):
        l._unicode_database = StubDB(ctx, idna=True)      # attached later: it may refuse code points
    before = [(c.cp, [v.cp for v in c.get_variants()]) for c in l.repertoire]

    ignore = ctx.flag('ignore')
    ok, res = check_symmetry(l, {'ignore_rules': True} if ignore else ctx.pick('opt', [{}, None]))
    bad = ref_symmetry(ents, rel, ignore)
    ctx.check(ok == (not bad), 'symmetry succeeds exactly for symmetric relations')
    got = [(r['char'].cp, r['variant'].cp, r['variant'].when, r['variant'].not_when, r['type'], r['rule_type'], r['rule']) for r in res['repertoire']]
    ctx.check(multiset_eq(got, bad), 'symmetry reports exactly the offending variants')
    results = l.metadata.rfc7940_checks.test_result
    ctx.check(results['basic_symmetry'] == (not any(b[4] != 'variant-contextual-rule-missing' for b in bad)), 'basic symmetry is noted')
    ctx.check(results['strict_symmetry'] == (not any(b[4] == 'variant-contextual-rule-missing' for b in bad)), 'strict symmetry is noted')

    ok, res = check_transitivity(l, {})
    want, bad = ref_transitivity(ents, rel)
    ctx.check(ok == want, 'transitivity succeeds exactly for transitive relations')
    got = [(r['char'].cp, r['variant'].cp) for r in res['repertoire']]
    ctx.check(set_eq(got, bad), 'transitivity reports exactly the missing pairs')
    ctx.check(results['basic_transitivity'] == (not bad), 'basic transitivity is noted')

    ok, res = check_conditional_variants(l, {})
    bad = [(ents[k], cp, t, r) for k, cp, w, n in rel for t, r in (('when', w), ('not-when', n)) if r is not None and r not in l.rules]
    ctx.check(ok == (not bad), 'conditional variants succeed exactly when their rules exist')
    ctx.check(multiset_eq([(r['char'].cp, r['variant'].cp, r['rule_type'], r['rule']) for r in res['repertoire']], bad), 'variants of unknown rules are reported')
    ctx.check(deep_eq([(c.cp, [v.cp for v in c.get_variants()]) for c in l.repertoire], before), 'checks leave the LGR alone')
    ctx.observe(len(bad))


REACH = ['symmetry reports exactly the offending variants', 'transitivity reports exactly the missing pairs', 'variants of unknown rules are reported']
HARNESSES = [
    Harness('relations', check, '2-3 entries (code points, pairs), every relation among them without rules',
            quick=dict(shapes=[(1, 1), (1, 1, 1)], targets=[(0, 1)], modes=[None, '-'], db=True),
            thorough=dict(shapes=[(1, 1, 1), (1, 2, 1)], targets=[(0, 1, 2)], modes=[None, '-']),
            must_reach=REACH),
    Harness('outside', check, 'targets that are arbitrary code points or pairs, inside or outside the repertoire (and inside a range)',
            quick=dict(shapes=[(1, 1), (2, 1)], targets=[('a',), ('ab',), ('a', 0)], modes=[None, '-'], range=True),
            thorough=dict(shapes=[(1, 1), (2, 1)], targets=[('a', 0), ('ab',)], modes=[None, '-', 'w'], range=True)),
    Harness('rules', check, '2 entries, mappings under none, one or two of two when and two not-when rules, of which some exist',
            quick=dict(shapes=[(1, 1)], targets=[(0, 1)], modes=[None, '-', 'w', 'wn', 'nw', 'n'], rules=[('w', 'n', 'v'), ('n',)]),
            thorough=dict(shapes=[(1, 1)], targets=[(0, 1)], modes=[None, '-', 'w', 'v', 'n', 'm', 'wv', '-w'], rules=[('w', 'n'), ('v',), ()])),
    Harness('shared names', check, '2 entries, mappings under rules of which each is a when rule here and a not-when rule there',
            quick=dict(shapes=[(1, 1)], targets=[(0, 1)], modes=['w', 'n', 'x', 'y', 'nx'], rules=[('w',)]),
            thorough=dict(shapes=[(1, 1)], targets=[(0, 1)], modes=[None, '-', 'w', 'n', 'x', 'y', 'nx', 'wy', '-x'], rules=[('w',), ('w', 'n')])),
]
META = dict(assumptions=[], outside='over 3 entries; more than two rules per mapping')
