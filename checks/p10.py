from checks.common import *
from checks.history import *


def step(ctx, k, l, m, ops):
    op = ctx.pick('op%d' % k, ops)
    own = dict(comment='c%d' % k, when='w' if k % 2 == 0 else None, not_when='w' if k % 2 else None)       # of the entries of this edit
    if op in ('add1', 'add2', 'del1', 'del2'):
        cp = cps(ctx, 's%d' % k, int(op[3]))
        if op[:3] == 'add':
            want = m.add(cp, refs=[str(k)], **own)
            ok, _ = attempt(l.add_cp, list(cp) if ctx.cfg.get('aslist', True) or len(cp) > 1 else cp[0], ref=[str(k)], **own)
        else:
            want = m.delete(cp) is not None
            ok, _ = attempt(l.del_cp, list(cp))
    elif op in ('addr', 'addrf'):
        first = ctx.cp('s%d' % k)
        n = ctx.pick('n%d' % k, ctx.cfg['sizes'][k])
        if op == 'addr':
            want = m.add_range(first, n, refs=[str(k)], **own)
            ok, _ = attempt(l.add_range, first, first + (n - 1), ref=[str(k)], **own)
        else:
            want = m.add_range_forced(first, n, refs=[str(k)], **own)
            ok, _ = attempt(l.add_range, first, first + (n - 1), force=True, ref=[str(k)], **own)
    elif op in ('delr', 'exp'):
        first = ctx.cp('s%d' % k)
        last = first + (ctx.pick('n%d' % k, ctx.cfg['sizes'][k]) - 1)
        if op == 'delr':
            want = m.delete_range(first, last)
            ok, _ = attempt(l.del_range, first, last)
        else:
            want = m.expand(first, last)
            ok, _ = attempt(l.expand_range, first, last)
    elif op == 'expall':
        for e in list(m.entries):
            if e.rng:
                m.expand(*e.rng[:2])
        want = True
        ok, _ = attempt(l.expand_ranges)
    ctx.check(ok == bool(want), 'edits succeed exactly when they apply')
    return op


def observe(ctx, l, m):
    r = l.repertoire
    ctx.check(flat_eq(flat(l), m.flat()), 'the repertoire holds what was added and not deleted')
    ctx.check(len(r) == len(m.flat()), 'the count is the number of code points and sequences')
    it = [(tuple(c.cp), (c.first_cp, c.last_cp) if type(c).__name__ == 'RangeChar' else ()) for c in r]
    ctx.check(multiset_eq(it, [(e.members()[0], e.rng[:2] if e.rng else ()) for e in m.entries]), 'iteration gives every entry once')
    for a, b in zip(it, it[1:]):
        ctx.check(lex_lt(a[0], b[0]), 'iteration is ordered by code points')
    ctx.check(multiset_eq([tuple(x) for x in r.ranges], [e.rng[:2] for e in m.entries if e.rng]), 'the ranges are those added and not deleted')
    probe = cps(ctx, 'probe', 2)
    for p in (probe[:1], probe):
        e = m.find(p)
        there = e is not None
        ctx.check(Iff(p in r, there), 'membership')
        ctx.check(Iff(l.check_cp(list(p)), there), 'membership')
        if len(p) == 1:
            ctx.check(Iff(p[0] in r, there), 'membership')
        ok, c = attempt(r.get_char, p)
        ctx.check(ok == there, 'lookup finds exactly the entries')
        if ok:
            ctx.check(deep_eq(c.cp, p), 'lookup finds exactly the entries')
            ctx.check(type(c).__name__ == ('RangeChar' if e.rng else 'Char' if len(p) == 1 else 'CharSequence'), 'lookup finds exactly the entries')
    c = probe[0]
    want = [x for e in m.entries for x in e.members() if x[0] == c]
    ok, got = attempt(r.get_chars_from_prefix, c)
    ctx.check(ok == bool(want), 'prefix lookup')
    if ok:
        got = [tuple(x.cp) for x in got]
        ctx.check(multiset_eq(got, want), 'prefix lookup')
        ctx.check(all(len(a) >= len(b) for a, b in zip(got, got[1:])), 'prefix lookup gives the longest first')
    ctx.observe([len(r), [list(a[0]) for a in it]])


def history(ctx):
    l, m = lgr(), Model()
    for k in range(len(ctx.cfg['ops'])):
        l.add_reference('r', ref_id=k)
    for k, ops in enumerate(ctx.cfg['ops']):
        op = step(ctx, k, l, m, ops)
    observe(ctx, l, m)


def sequences(ctx):
    """sequences of several lengths that may share code points"""
    l, m = lgr(), Model()
    for k, n in enumerate(ctx.pick('lens', ctx.cfg['lens'])):
        cp = cps(ctx, 's%d' % k, n) if ctx.cfg['free'] else (7,) + cps(ctx, 's%d' % k, n)[1:]
        ok, _ = attempt(l.add_cp, list(cp))
        ctx.check(ok == m.add(cp), 'edits succeed exactly when they apply')
    if ctx.cfg['drop']:
        cp = m.entries[0].members()[0]
        ok, _ = attempt(l.del_cp, list(cp))
        ctx.check(ok == (m.delete(cp) is not None), 'edits succeed exactly when they apply')
    observe(ctx, l, m)


def index(ctx):
    """Repertoire level: overlapping ranges are refused as a whole"""
    from lgr.char import Repertoire
    r, m = Repertoire(), Model()

    class L:
        repertoire = r
    for k in range(ctx.cfg['steps']):
        first = ctx.cp('s%d' % k)
        op = ctx.pick('op%d' % k, ['char', 'range'])
        if op == 'char':
            want = m.add((first,))
            ok, _ = attempt(r.add_char, [first])
        else:
            n = ctx.pick('n%d' % k, ctx.cfg['sizes'])
            want = m.add_range(first, n)
            ok, _ = attempt(r.add_range, first, first + (n - 1))
        ctx.check(ok == want, 'edits succeed exactly when they apply')
    ctx.check(flat_eq(flat(L), m.flat()), 'the repertoire holds what was added and not deleted')
    ctx.check(multiset_eq([tuple(x) for x in r.ranges], [e.rng[:2] for e in m.entries if e.rng]), 'the ranges are those added and not deleted')
    ctx.observe([list(c.cp) for c in r])


def lists(ctx):
    """a list of code points added at once: maximal runs are ranges"""
    l, m = lgr(), Model()
    seq = cps(ctx, 'seq', 2)
    l.add_cp(list(seq))
    m.add(seq)
    n = ctx.pick('n', ctx.cfg['sizes'])
    xs = list(cps(ctx, 'x', n))
    ok, _ = attempt(l.add_codepoints, list(xs), comment='c')
    ctx.check(ok, 'edits succeed exactly when they apply')
    new = []
    for x in xs:
        if not any(bool(x == y) for y in new):
            new.append(x)
    firsts = [x for x in new if not any(bool(y + 1 == x) for y in new)]
    for f in firsts:
        k = 1
        while any(bool(y == f + k) for y in new):
            k += 1
        m.insert_run(f, k, comment='c')
    ctx.check(flat_eq(flat(l), m.flat()), 'the repertoire holds what was added and not deleted')
    ctx.check(multiset_eq([tuple(x) for x in l.repertoire.ranges], [e.rng[:2] for e in m.entries if e.rng]), 'the ranges are those added and not deleted')
    ctx.check(len(l.repertoire) == len(new) + 1, 'the count is the number of code points and sequences')
    ctx.observe([len(firsts)])


def variants(ctx):
    """the variants of an entry, by code point"""
    cfg = ctx.cfg
    l = lgr()
    add_stub_rules(ctx, l, ['w', 'n'])
    e = cps(ctx, 'e', ctx.pick('len', cfg.get('elens', [1, 2])))
    l.add_cp(list(e))
    want = []
    for k in range(ctx.pick('n', cfg['nvars'])):
        v = e if ctx.flag('refl%d' % k) else cps(ctx, 'v%d' % k, ctx.pick('vl%d' % k, cfg['lens']))
        mode = ctx.pick('m%d' % k, ['', 'w', 'n'])
        t = 't%d' % k
        ok, _ = attempt(l.add_variant, list(e), list(v), t, when='w' if mode == 'w' else None, not_when='n' if mode == 'n' else None)
        if ok:
            want.append((v, mode, t))
    if cfg['delete']:
        d = cps(ctx, 'd', 1)
        mode = ctx.pick('dm', ['', 'w', 'n'])
        ok, gone = attempt(l.del_variant, list(e), d[0] if len(d) == 1 else list(d), when='w' if mode == 'w' else None, not_when='n' if mode == 'n' else None)
        hit = [w for w in want if deep_eq(w[0], d) and w[1] == mode]
        ctx.check(ok and bool(gone) == bool(hit), 'deleting a variant tells whether it was there')
        want = [w for w in want if w not in hit]
    key = lambda v: (tuple(v.cp), 'w' if v.when else 'n' if v.not_when else '', v.type)
    ctx.check(multiset_eq([key(v) for v in l.get_variants(list(e))], want), 'an entry has the variants added')
    x = cps(ctx, 'x', ctx.pick('xl', [1, 2][:cfg.get('probe', 2)]))
    got = l.get_variant(list(e), x if ctx.flag('tuple') else list(x))
    ctx.check(multiset_eq([key(v) for v in (got or [])], [w for w in want if deep_eq(w[0], x)]), 'a variant is found by its code points')
    c = l.get_char(list(e))
    ctx.check(c.has_variant() == bool(want), 'an entry has the variants added')
    ctx.check(multiset_eq([key(v) for v in c.get_reflexive_variants()], [w for w in want if deep_eq(w[0], e)]), 'a variant is found by its code points')
    ctx.check([tuple(v.cp) for v in c.get_variants()] is not None and all(not bool(lex_lt(b, a)) for a, b in zip(*(lambda q: (q, q[1:]))([tuple(v.cp) for v in c.get_variants()]))), 'variants are ordered')
    ctx.observe([len(want), len(got or [])])


ADD = ['add1', 'add2', 'addr']
ALL = ['add1', 'add2', 'addr', 'addrf', 'del1', 'del2', 'delr', 'exp', 'expall']
HARNESSES = [
    Harness('history', history, 'histories of 3 (4) edits: additions and deletions of code points, pairs, ranges of 2-3, forced ranges, expansions, all over arbitrary code points; then '
            'every observer with an arbitrary code point and pair',
            quick=dict(ops=[ADD, ['add1', 'add2', 'addrf', 'del1', 'exp'], ['addr', 'del1', 'del2', 'delr', 'expall']], sizes=[[2, 3], [3], [2]]),
            thorough=dict(ops=[ADD, ALL, ALL], sizes=[[1, 2, 4], [2, 3, 4], [1, 2, 3]]),
            must_reach=['iteration gives every entry once', 'prefix lookup', 'edits succeed exactly when they apply']),
    Harness('longer', history, 'the same, histories of 4 (5) edits of fewer kinds',
            quick=dict(ops=[['addr'], ['add2'], ['del1'], ['del1', 'delr', 'addr']], sizes=[[3]] * 4),
            thorough=dict(ops=[['add1', 'addr'], ['add2', 'addr'], ['del1', 'exp'], ['del1', 'delr', 'addr'], ['del1', 'del2', 'expall']], sizes=[[3]] * 5)),
    Harness('sequences', sequences, '3 (4) sequences of 1-3 code points, then every observer with an arbitrary code point and pair',
            quick=dict(lens=[(2, 3, 2), (3, 2, 1)], free=False, drop=False),
            thorough=dict(lens=[(2, 3, 2, 3), (3, 1, 2, 2), (1, 2, 3)], free=True, drop=True),
            must_reach=['prefix lookup gives the longest first']),
    Harness('index', index, '3 (4) additions of code points and ranges to a Repertoire',
            quick=dict(steps=3, sizes=[2, 4]), thorough=dict(steps=4, sizes=[2, 3, 5])),
    Harness('lists', lists, 'an LGR with a pair, then a list of 0-4 (5) arbitrary code points, repeated or not, in any order', quick=dict(sizes=[0, 1, 2, 3, 4]), thorough=dict(sizes=[0, 1, 2, 3, 4, 5])),
    Harness('variants', variants, 'an entry of 1-2 code points with 0-2 (3) variants of 1-2 arbitrary code points, under rules or not, one deleted, looked up by arbitrary code points',
            quick=dict(nvars=[0, 1, 2], lens=[1, 2], delete=False), thorough=dict(nvars=[0, 1, 2, 3], lens=[1, 2], delete=False)),
    Harness('variant-delete', variants, 'an entry of 1 code point with 2 (3) variants, under rules or not, one deleted', quick=dict(nvars=[2], lens=[1], elens=[1], delete=True, probe=1), thorough=dict(nvars=[2, 3], lens=[1], elens=[1, 2], delete=True, probe=1)),
]
META = dict(assumptions=['code points are arbitrary integers; no Unicode database is attached (P11 has one)'],
            outside='histories over 4 edits, sequences over 3 code points, ranges over 5 code points')
