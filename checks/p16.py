"""Statistics."""
from checks.common import *

TAGS = [(), ('t',), ('t', 'u')]


def stats(ctx):
    from lgr.validate.lgr_stats import generate_stats
    cfg = ctx.cfg
    l = lgr()
    shape = ctx.pick('shape', cfg['shapes'])
    ents, spans = [], []
    for k, s in enumerate(shape):
        tags = ctx.pick('tags%d' % k, cfg['tags'])
        force = ctx.flag('force%d' % k) if cfg.get('force') else len(set(tags)) < len(tags)
        if s[0] == 'r':
            n = int(s[1:])
            f = ctx.cp('r%d' % k)
            for g, m in spans:
                ctx.assume(Or(f + (n - 1) < g, g + (m - 1) < f))
            spans.append((f, n))
            l.add_range(f, f + (n - 1), tag=list(tags), force=force)
            ents.append((None, n, tags, []))
        else:
            n = int(s[0])
            cp = cps(ctx, 'e%d' % k, n)
            if n == 1:
                for g, m in spans:
                    ctx.assume(Or(cp[0] < g, g + (m - 1) < cp[0]))
                spans.append((cp[0], 1))
            for e in ents:
                if e[0] is not None and len(e[0]) == n > 1:
                    ctx.assume(Not(deep_eq(e[0], cp)))
            if n > 1:
                force = True        # tags on a sequence
            l.add_cp(list(cp), tag=list(tags), force=force)
            vs = []
            for j, spec in enumerate(s[1:]):
                m = ctx.pick('m%d_%d' % (k, j), cfg['modes'])
                t = ctx.pick('t%d_%d' % (k, j), cfg['types'])
                v = cp if spec == 'r' else cps(ctx, 'v%d_%d' % (k, j), 2 if spec == 's' else 1)
                key = (m == 'w', m == 'n')
                for o in vs:
                    if o[2] == key and len(o[0]) == len(v):
                        ctx.assume(Not(deep_eq(o[0], v)))
                l.add_variant(list(cp), list(v), t, when='w' if m == 'w' else None, not_when='n' if m == 'n' else None)
                vs.append((v, t, key))
            ents.append((cp, 1, tags, vs))
    for r in ctx.pick('rules', cfg['rules']):
        l.rules.append(r)
    got = generate_stats(l)

    def count(xs):      # different code points or sequences of a list
        out = []
        for x in xs:
            if not any(len(x) == len(o) and deep_eq(x, o) for o in out):
                out.append(x)
        return len(out)
    ranges = [e[1] for e in ents if e[0] is None and e[1] > 1]
    seqs = [len(e[0]) for e in ents if e[0] is not None and len(e[0]) > 1]
    ctx.check(got['codepoint_number'] == sum(e[1] for e in ents), 'number of code points')
    ctx.check(got['range_number'] == len(ranges), 'number of ranges')
    ctx.check(got['largest_range_len'] == max(ranges + [0]), 'length of the largest range')
    lr = got['largest_range']
    ctx.check(lr is None if not ranges else lr.last_cp - lr.first_cp + 1 == max(ranges), 'the largest range')
    ctx.check(got['sequence_number'] == len(seqs), 'number of sequences')
    ctx.check(got['largest_sequence_len'] == max(seqs + [0]), 'length of the largest sequence')
    ls = got['largest_sequence']
    ctx.check(ls is None if not seqs else len(ls.cp) == max(seqs), 'the largest sequence')
    ctx.check(got['codepoints_with_variants'] == sum(1 for e in ents if e[3]), 'number of code points with variants')
    maps = [count([v[0] for v in e[3]]) for e in ents]
    ctx.check(got['mapping_number'] == sum(maps), 'number of variant mappings')
    sizes = [count([v[0] for v in e[3]] + [e[0]]) for e in ents if e[3]]
    ctx.check(got['largest_variant_set'] == max(sizes + [0]), 'size of the largest variant set')
    n = len(sizes)
    ctx.check(got['average_variants'] == (round(sum(maps) / n, 1) if n else 0), 'average number of variants')
    types = {}
    for e in ents:
        for v in e[3]:
            types[v[1]] = types.get(v[1], 0) + 1
    ctx.check(got['variants_by_type'] == types, 'number of mappings by type')
    tags = {}
    for e in ents:
        for t in set(e[2]):
            tags[t] = tags.get(t, 0) + e[1]
    ctx.check(got['codepoints_by_tag'].keys() == tags.keys(), 'number of code points by tag')
    ctx.check(And([got['codepoints_by_tag'][t] == tags[t] for t in tags]), 'number of code points by tag')
    ctx.check(got['rule_number'] == len(l.rules), 'number of rules')
    again = generate_stats(l)
    ctx.check(again['codepoint_number'] == got['codepoint_number'] and again['variants_by_type'] == types, 'statistics do not depend on earlier ones')
    ctx.observe([got['codepoint_number'], got['mapping_number'], got['largest_variant_set']])


HARNESSES = [
    Harness('variants', stats, '1-2 entries with up to 2 symbolic variants each (single code points, pairs, reflexive), 2 types, context rules',
            quick=dict(shapes=[('1',), ('1vv',), ('1vs',), ('1rv', '1v')], tags=[()], modes=['-', 'w'], types=['a', None, ''], rules=[()]),
            thorough=dict(shapes=[('1vvv',), ('1vs', '1r'), ('2s', '1v'), ('1rv', '2v')], tags=[()], modes=['-', 'w', 'n'], types=['a', None], rules=[()]),
            must_reach=['number of mappings by type', 'average number of variants']),
    Harness('average', stats, '3 entries with 1-2 variants each', quick=dict(shapes=[('1v', '1vv', '1vv'), ('1v', '1v', '1vv')], tags=[()], modes=['-'], types=['a'], rules=[()]),
            thorough=dict(shapes=[('1v', '1vv', '1vv'), ('1v', '1v', '1vv', '1')], tags=[()], modes=['-'], types=['a'], rules=[()]), must_reach=['average number of variants']),
    Harness('kinds', stats, '1-3 entries: ranges of 2-4, sequences of 2-3 code points, single code points, in any numeric order, each with up to two tags',
            quick=dict(shapes=[(), ('r2', 'r3'), ('2', '3', '1'), ('r3', '1v', 'r2'), ('3', '2r', 'r1')], tags=TAGS, modes=['-'], types=['a'], rules=[(), ('r', 's')]),
            thorough=dict(shapes=[('r2', 'r3', 'r2'), ('2', '3', '1'), ('r3', '1v', 'r2'), ('3', '2r', 'r4'), ('2', '2', '3')], tags=TAGS, modes=['-'], types=['a'], rules=[(), ('r', 's')]),
            must_reach=['the largest range', 'the largest sequence', 'number of code points by tag']),
    Harness('tags', stats, '1-2 entries carrying up to three tags, the same one possibly twice',
            quick=dict(shapes=[('1',), ('r2', '2')], tags=TAGS + [('t', 't'), ('u', 't', 'u')], modes=['-'], types=['a'], rules=[()]),
            must_reach=['number of code points by tag']),
]
META = dict(assumptions=[], outside='over 3 entries, over 3 variants per entry, ranges over 4 code points')
