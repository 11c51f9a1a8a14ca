from checks.common import *
from checks.history import *


class Validating:
    """a validating repertoire: an arbitrary set of code points"""

    def __init__(self, ctx):
        self.ctx = ctx

    def check_cp(self, cp):
        return self.ctx.uf('validating', [cp])


def start(ctx, kinds):
    """an LGR with references, and entries of the given kinds; with its model"""
    db = StubDB(ctx, idna=True)
    mode = ctx.mode = ctx.pick('mode', ctx.cfg['modes'])
    allow = 'a' in mode
    l = lgr(db, allow_invalid_property=True)
    for r in ('1', '2'):
        l.add_reference('ref' + r, ref_id=r)
    m = Model()
    m.types, m.classes = set(), {}
    for k, kind in enumerate(ctx.pick('state', kinds)):
        kw = dict(tag=['t'], ref=['1'])
        if kind == 's':
            cp = cps(ctx, 'e%d' % k, 2)
            ctx.assume(m.add(cp, refs=['1']))
            l.add_cp(list(cp), ref=['1'])
        elif kind == 'r':
            f = ctx.cp('e%d' % k)
            ctx.assume(m.add_range(f, 3, tags=['t'], refs=['1']))
            l.add_range(f, f + 2, **kw)
        else:
            cp = cps(ctx, 'e%d' % k, 1)
            ctx.assume(m.add(cp, tags=['t'], refs=['1'], when='w' if kind == 'w' else None))
            l.add_cp(list(cp), when='w' if kind == 'w' else None, **kw)
            if kind == 'v':
                v = cps(ctx, 'e%dv' % k, 1)
                l.add_variant(list(cp), list(v), 'x', ref=['2'])
                m.entries[-1].variants.append([v, 'x', None, None, ('2',)])
                m.types.add('x')
    l.raise_on_invalid_property = not allow
    return db, allow, l, m


ARGS = [dict(), dict(ref=['1']), dict(ref=['9']), dict(ref=['1', '1']), dict(tag=['t']), dict(tag=['t', 't']), dict(when='w'), dict(when='w', not_when='n'),
        dict(ref=['9', '2'], tag=['u', 'u'])]


def bad_args(a, seq=False, variant=False):
    ref, tag = a.get('ref', []), a.get('tag', [])
    return 'when' in a and 'not_when' in a or any(r not in '12' for r in ref) or len(set(ref)) != len(ref) or \
        not variant and (len(set(tag)) != len(tag) or seq and bool(tag))


def kept(a):
    return dict(refs=[r for r in a.get('ref', []) if r in '12'], tags=a.get('tag', []), when=a.get('when'), not_when=a.get('not_when'), comment=a.get('comment'))


def expected_state(m, before, l):
    return (m.flat(), [e.rng[:2] for e in m.entries if e.rng], None, m.types, before[4])


def settle(ctx, l, m, before, ok, want, changed):
    ctx.check(ok == bool(want), 'an edit is refused exactly when an argument forbids it')
    after = state(l)
    if not ok:
        ctx.check(state_eq(before, after), 'a refused edit changes nothing')
    elif changed:
        ctx.check(flat_eq(after[0], m.flat()), 'an accepted edit has its effect')
        ctx.check(multiset_eq(after[1], [e.rng[:2] for e in m.entries if e.rng]), 'an accepted edit has its effect')
        ctx.check(after[3] == m.types, 'an accepted edit has its effect')
        ctx.check(deep_eq(after[4], before[4]), 'an accepted edit has its effect')
        for t in set(x for e in m.entries for x in e.tags) | set(after[2]):
            ctx.check(set_eq(after[2].get(t, []), [c for e in m.entries if t in e.tags for mm in e.members() for c in mm]), 'an accepted edit has its effect')
    ctx.observe([bool(ok), len(after[0])])


def options(ctx, args):
    a = dict(ctx.pick('args', args))
    kw = dict(a)
    v = 'override' if 'o' in ctx.mode else 'check' if 'v' in ctx.mode else 'none'
    if v != 'none':
        kw['validating_repertoire'] = Validating(ctx)
    if v == 'override':
        kw['override_repertoire'] = True
    force = 'f' in ctx.mode
    if force:
        kw['force'] = True
    if ctx.flag('comment') if ctx.cfg.get('comments') else len(a) < 2:
        a['comment'] = kw['comment'] = 'c'
    return a, kw, v, force


def refused_by_validating(v, force, cpl, val):
    if v != 'check' or force:
        return False
    return any(not val.check_cp(c) for c in cpl)


def add_cp(ctx):
    db, allow, l, m = start(ctx, ctx.cfg['states'])
    a, kw, v, force = options(ctx, ctx.cfg['args'])
    cp = cps(ctx, 'n', ctx.pick('len', [1, 2]))
    before = state(l)
    ok, _ = attempt(l.add_cp, list(cp) if len(cp) > 1 or ctx.flag('aslist') else cp[0], **kw)
    want = True
    if not allow and any(not db.idna_valid(c) for c in cp):
        want = False
    elif bad_args(a, len(cp) > 1) and not force:
        want = False
    elif refused_by_validating(v, force, cp, Validating(ctx)):
        want = False
    else:
        want = m.add(cp, **kept(a))
    settle(ctx, l, m, before, ok, want, True)


def add_range(ctx):
    db, allow, l, m = start(ctx, ctx.cfg['states'])
    a, kw, v, force = options(ctx, ctx.cfg['args'])
    first, n = ctx.cp('n'), ctx.pick('len', ctx.cfg['sizes'])
    ctx.assume(first + 3 <= 0x10FFFF)
    before = state(l)
    ok, _ = attempt(l.add_range, first, first + (n - 1), **kw)
    span = [first + k for k in range(n)]
    want = True
    bad = (lambda c: False) if allow else (lambda c: Not(db.idna_valid(c)))
    if n < 1 or bad_args(a) and not force:
        want = False
    elif force:
        m.add_range_forced(first, n, skip=bad, **kept(a))
    elif any(bad(c) for c in span) or refused_by_validating(v, force, span, Validating(ctx)):
        want = False
    else:
        want = m.add_range(first, n, **kept(a))
    settle(ctx, l, m, before, ok, want, True)


def add_variant(ctx):
    db, allow, l, m = start(ctx, ctx.cfg['states'])
    a, kw, v, force = options(ctx, ctx.cfg['args'])
    cp, var = cps(ctx, 'n', ctx.pick('len', ctx.cfg['lens'])), cps(ctx, 'm', ctx.pick('vlen', ctx.cfg['vlens']))
    t = ctx.pick('type', ctx.cfg['types'])
    before = state(l)
    ok, _ = attempt(l.add_variant, list(cp), list(var), t, **kw)
    e = m.find(cp)
    new = [var, t, a.get('when'), a.get('not_when'), tuple(kept(a)['refs'])]
    if not allow and any(not db.idna_valid(c) for c in cp + var):
        want = False
    elif bad_args(a, variant=True) and not force:
        want = False
    elif refused_by_validating(v, force, var, Validating(ctx)):
        want = False
    elif e is None or e.rng or any(deep_eq(o[0], var) and o[2:4] == new[2:4] for o in e.variants):
        want = False
    else:
        want = True
        e.variants.append(new)
        m.types.add(t)
    settle(ctx, l, m, before, ok, want, True)


def delete(ctx):
    """deletions and expansions that are refused change nothing; those that are not have their effect"""
    db, allow, l, m = start(ctx, ctx.cfg['states'])
    op = ctx.pick('op', ['cp', 'range', 'expand', 'variant', 'swapped'])
    before = state(l)
    if op == 'cp':
        cp = cps(ctx, 'n', ctx.pick('len', [1, 2]))
        ok, _ = attempt(l.del_cp, list(cp))
        want = (allow or all(db.idna_valid(c) for c in cp)) and m.delete(cp) is not None
    elif op == 'variant':
        cp, var = cps(ctx, 'n', 1), cps(ctx, 'm', 1)
        when = ctx.pick('when', [None, 'w'])
        ok, r = attempt(l.del_variant, list(cp), list(var), when=when)
        e = m.find(cp)
        want = (allow or bool(db.idna_valid(cp[0]))) and e is not None and not e.rng
        if want:
            hit = [o for o in e.variants if deep_eq(o[0], var) and o[2] == when and o[3] is None]
            for o in hit:
                e.variants.remove(o)
            if ok:
                ctx.check(Iff(r, bool(hit)), 'deleting a variant tells whether there was one')
    else:
        first, n = ctx.cp('n'), ctx.pick('len', [2, 3])
        last = first + (n - 1)
        if op == 'swapped':
            first, last = last, first
        ok, _ = attempt(l.expand_range if op == 'expand' else l.del_range, first, last)
        if op == 'expand':
            want = (allow or bool(db.idna_valid(first))) and m.expand(first, last)
        else:
            want = op != 'swapped' and m.delete_range(first, last)
    settle(ctx, l, m, before, ok, want, True)


ST = [(), ('v',), ('r',), ('s',), ('w', 'r')]
# modes: v checked against a validating repertoire, o override it, f force, a LGR accepting IDNA-invalid code points
MODES = ['', 'v', 'o', 'f', 'a', 'vf', 'of', 'af', 'va', 'oa', 'vaf']
HARNESSES = [
    Harness('add_cp', add_cp, 'add_cp of 1-2 arbitrary code points to an LGR of up to 3 entries (code point, sequence, range of 3), every combination of listed arguments (references, tags, '
            'context rules, validating repertoire, override, force) and of IDNA properties',
            quick=dict(states=[(), ('w', 's')], args=[ARGS[i] for i in (1, 2, 3, 4, 5, 7, 8)], modes=['', 'v', 'o', 'vf', 'va']),
            thorough=dict(states=ST + [('v', 's', 'r')], args=ARGS, modes=MODES),
            must_reach=['a refused edit changes nothing', 'an accepted edit has its effect']),
    Harness('add_range', add_range, 'the same for add_range of 1-3 code points (and reversed bounds)',
            quick=dict(states=[('w',), ('r',)], args=[ARGS[i] for i in (0, 5, 8)], modes=['', 'v', 'f', 'vf', 'oa', 'va'], sizes=[0, 2]),
            thorough=dict(states=ST, args=ARGS, modes=MODES, sizes=[0, 1, 2, 3]),
            must_reach=['a refused edit changes nothing', 'an accepted edit has its effect']),
    Harness('add_variant', add_variant, 'the same for add_variant',
            quick=dict(states=[('v',), ('r',)], args=[ARGS[i] for i in (1, 2, 3, 6, 7)], modes=['', 'v', 'f', 'oa'], lens=[1], vlens=[1, 2], types=['y']),
            thorough=dict(states=ST + [('v', 'r')], args=ARGS[:4] + ARGS[6:8], modes=MODES, lens=[1, 2], vlens=[1, 2], types=[None, 'y']),
            must_reach=['a refused edit changes nothing', 'an accepted edit has its effect']),
    Harness('delete', delete, 'deletions of arbitrary code points, sequences, ranges, variants, and range expansions',
            quick=dict(states=[('v',), ('r',), ('s', 'r')], modes=['a']), thorough=dict(states=ST + [('v', 's', 'r')], modes=['', 'a']),
            must_reach=['a refused edit changes nothing', 'an accepted edit has its effect']),
]
META = dict(assumptions=['IDNA properties and validating repertoires are arbitrary functions of the code point'],
            outside='states of more than 3 entries; ranges longer than 3; sequences longer than 2')
