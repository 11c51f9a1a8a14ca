from checks.common import *

TYPES = ['x', 'y', 'invalid', 'blocked', 'allocatable', 'activated']


def make_actions(ctx, l, n, sets):
    from lgr.action import Action
    out = []
    for k in range(n):
        rm = ctx.pick('rm%d' % k, ctx.cfg.get('rms', ['-', 'm', 'n']))
        vm = ctx.pick('vm%d' % k, ['-', 'any', 'all', 'only'])
        vs = ctx.pick('vs%d' % k, sets) if vm != '-' else None
        disp = ctx.pick('disp%d' % k, ctx.cfg.get('disps', ['d%d' % k, 'invalid']))
        if disp != 'invalid':
            disp = 'd%d' % k
        kw = {}
        if rm == 'm':
            kw['match'] = 'ra%d' % k
        elif rm == 'n':
            kw['not_match'] = 'ra%d' % k
        if vm != '-':
            kw[{'any': 'any_variant', 'all': 'all_variants', 'only': 'only_variants'}[vm]] = list(vs)
        l.add_action(Action(disp, **kw))
        out.append((rm, 'ra%d' % k, vm, vs, disp))
    return out


DEFAULTS = [('-', None, 'any', ('invalid',), 'invalid'), ('-', None, 'any', ('blocked',), 'blocked'),
            ('-', None, 'any', ('allocatable',), 'allocatable'), ('-', None, 'all', ('activated',), 'activated'),
            ('-', None, '-', None, 'valid')]


def expected(rules, actions, label, types, only):
    """(disposition, index) of the first action that triggers; types: concrete set, only: bool"""
    for k, (rm, rname, vm, vs, disp) in enumerate(list(actions) + DEFAULTS):
        if rm == 'm' and not rules[rname].truth(label):
            continue
        if rm == 'n' and rules[rname].truth(label):
            continue
        if vm == 'any' and not set(vs) & types:
            continue
        if vm == 'all' and not (types and types <= set(vs)):
            continue
        if vm == 'only' and not (only and types and types <= set(vs)):
            continue
        return disp, k
    return None, -1


def original(ctx):
    """Disposition and eligibility of an original label with reflexive variants."""
    l = lgr()
    n = ctx.pick('n', ctx.cfg['lens'])
    rules = add_stub_rules(ctx, l, ['wv', 'nv', 'ra0', 'ra1', 'ra2'])
    ents = []
    seq = ctx.pick('seq', [False, True]) if n == 2 else False
    cs = cps(ctx, 'c', n)
    distinct(ctx, [(c,) for c in cs])
    keys = [cs] if seq else [(c,) for c in cs]
    for k, cp in enumerate(keys):
        l.add_cp(list(cp))
        other = ctx.cp('o%d' % k)
        ctx.assume(*[other != c for c in cs])
        mode = ctx.pick('mode%d' % k, ctx.cfg['modes'])
        vs = []
        if mode in ('one', 'two'):
            t = ctx.pick('t%d' % k, ctx.cfg['types'])
            vs.append((cp, t, 'wv', None) if mode == 'two' else (cp, t, None, None))
        if mode == 'two':
            vs.append((cp, ctx.pick('u%d' % k, ctx.cfg['types']), None, 'nv'))
        if mode == 'other':
            vs.append(((other,), 'blocked', None, None))
        for v, t, w, nw in vs:
            l.add_variant(list(cp), list(v), t, when=w, not_when=nw)
        ents.append((cp, [v for v in vs if mode != 'other']))
    actions = make_actions(ctx, l, ctx.cfg['actions'], ctx.cfg['sets'])
    label = tuple(c for k in keys for c in k)
    res, parts, bad, disp, idx, log = l.test_label_eligible(label, collect_log=ctx.cfg.get('log', False))
    types, only, i = set(), True, 0
    for cp, vs in ents:
        hit = False
        for v, t, w, nw in vs:
            if ctx_ok(rules, w, nw, label, cp, i):
                types.add(t)
                hit = True
        only = only and hit
        i += len(cp)
    edisp, eidx = expected(rules, actions, label, types, only)
    ctx.check(disp == edisp, 'disposition of the first triggered action')
    ctx.check(idx == eidx, 'index of the first triggered action')
    ctx.check(res == (edisp != 'invalid'), 'eligible exactly when not invalid')
    ctx.observe([res, disp, idx])


def overlap(ctx):
    """Every entry that occurs in the label counts, also where several start at the same code point."""
    cfg = ctx.cfg
    l = lgr()
    rules = add_stub_rules(ctx, l, ['wv', 'ra0', 'ra1', 'ra2'])
    base = cps(ctx, 'c', 2)
    distinct(ctx, [(c,) for c in base])
    ents = []
    for name in ctx.pick('ents', cfg['ents']):
        cp = tuple(base['ab'.index(x)] for x in name)
        mode = ctx.pick('m_' + name, ['-', 'r', 'w'])
        t = ctx.pick('t_' + name, cfg['types']) if mode != '-' else None
        ents.append((cp, mode, t))
        l.add_cp(list(cp))
        if mode != '-':
            l.add_variant(list(cp), list(cp), t, when='wv' if mode == 'w' else None)
    actions = make_actions(ctx, l, cfg['actions'], cfg['sets'])
    res, parts, bad, disp, idx, log = l.test_label_eligible(base, collect_log=False)
    types, only = set(), True
    for cp, mode, t in ents:
        i = 0 if cp[0] is base[0] else 1
        hit = mode == 'r' or mode == 'w' and bool(ctx_ok(rules, 'wv', None, base, cp, i))
        if hit:
            types.add(t)
        only = only and hit
    edisp, eidx = expected(rules, actions, base, types, only)
    ctx.check(disp == edisp, 'disposition of the first triggered action')
    ctx.check(idx == eidx, 'index of the first triggered action')
    ctx.check(res == (edisp != 'invalid'), 'eligible exactly when not invalid')
    ctx.observe([res, disp, idx])


def reflexive(ctx):
    """Disposition of the labels made of reflexive and other variants, with or without types."""
    cfg = ctx.cfg
    l = lgr(db=StubDB(ctx))
    n = ctx.pick('n', cfg['lens'])
    rules = add_stub_rules(ctx, l, ['ra0', 'ra1', 'ra2'])
    cs, vs = cps(ctx, 'c', n), cps(ctx, 'v', n)
    distinct(ctx, [(c,) for c in cs + vs])
    opts = []
    for k in range(n):
        l.add_cp([cs[k]])
        l.add_cp([vs[k]])
        r = ctx.pick('r%d' % k, cfg['types'] + ['-'])
        t = ctx.pick('t%d' % k, cfg['types'] + ['-'])
        if r != '-':
            l.add_variant([cs[k]], [cs[k]], r)
        if t != '-':
            l.add_variant([cs[k]], [vs[k]], t)
        opts.append((r, t))
    actions = make_actions(ctx, l, 1, cfg['sets'])
    if not l.test_label_eligible(cs, collect_log=False)[0]:
        return
    out = [r[:6] for r in l.compute_label_disposition(cs, include_invalid=True, collect_log=False)]
    for lab, disp, bad, idx, dset, log in out:
        sub = [bool(a == b) for a, b in zip(lab, vs)]
        ctx.check(deep_eq(list(lab), [v if s else c for c, v, s in zip(cs, vs, sub)]), 'variant label built from variants')
        ts = {o[1] if s else o[0] for o, s in zip(opts, sub)} - {None, '-'}
        only = all(s or o[0] != '-' for o, s in zip(opts, sub))
        if opts[-1] == ('-', '-') and not any(sub):
            only = False                                # the label itself, tested as an original
        edisp, eidx = expected(rules, actions, lab, ts, only)
        ctx.check(disp == edisp, 'disposition of a variant label')
        ctx.check(idx == eidx, 'action index of a variant label')
    ctx.observe([[list(o[0]), o[1], o[3]] for o in out])


def variant(ctx):
    """Disposition of the variant labels of a label."""
    l = lgr(db=StubDB(ctx))
    n = ctx.pick('n', ctx.cfg['lens'])
    rules = add_stub_rules(ctx, l, ['ra0', 'ra1', 'ra2'])
    cs = cps(ctx, 'c', n)
    vs = cps(ctx, 'v', n)
    distinct(ctx, [(c,) for c in cs + vs])
    types = []
    for k in range(n):
        l.add_cp([cs[k]])
        l.add_cp([vs[k]])
        t = ctx.pick('t%d' % k, ctx.cfg['types'] + [''])
        types.append(t)
        if t is None or t:
            l.add_variant([cs[k]], [vs[k]], t)
    actions = make_actions(ctx, l, ctx.cfg['actions'], ctx.cfg['sets'])
    res = l.test_label_eligible(cs, collect_log=False)
    if not res[0]:
        return
    out = [r[:6] for r in l.compute_label_disposition(cs, include_invalid=True, collect_log=False)]
    for lab, disp, bad, idx, dset, log in out:
        sub = [bool(a == b) for a, b in zip(lab, vs)]
        ctx.check(deep_eq(list(lab), [v if s else c for c, v, s in zip(cs, vs, sub)]), 'variant label built from variants')
        ts = {t for t, s in zip(types, sub) if s and t is not None}      # a variant may have no type
        edisp, eidx = expected(rules, actions, lab, ts, all(sub))
        ctx.check(disp == edisp, 'disposition of a variant label')
        ctx.check(idx == eidx, 'action index of a variant label')
    ctx.observe([[list(o[0]), o[1], o[3]] for o in out])


Q = dict(lens=[1, 2], modes=['none', 'one', 'two', 'other'], types=['x', 'invalid', 'activated'], actions=1,
         sets=[('x',), ('x', 'activated'), ('invalid', 'blocked')])
HARNESSES = [
    Harness('original', original, 'labels of 1-2 symbolic code points (also one 2-code-point sequence), each entry with 0-2 '
            'reflexive variants under context rules of arbitrary truth, or a non-reflexive variant; 1 custom action over every '
            'combination of match/not-match x any/all/only variants x type sets, plus the five default actions',
            quick=dict(Q, types=['x', 'activated'], sets=[('x',), ('x', 'activated')], modes=['none', 'one', 'two']),
            thorough=Q, must_reach=['disposition of the first triggered action']),
    Harness('original-1', original, 'as above, labels of 1 code point, more types',
            quick=dict(Q, lens=[1], types=['x', None, 'activated']), thorough=dict(Q, lens=[1], types=['x', 'invalid', 'activated', 'blocked', 'allocatable', None], actions=2),
            must_reach=['disposition of the first triggered action']),
    Harness('original-2actions', original, 'as above with labels of 1 code point and 2 custom actions',
            quick=dict(Q, lens=[1], actions=2, modes=['one', 'none'], types=['x', 'invalid'], sets=[('x',), ('x', 'invalid')]),
            thorough=dict(Q, lens=[1], actions=3, modes=['one'], types=['x'], sets=[('x',), ('x', 'invalid')]),
            must_reach=['disposition of the first triggered action']),
    Harness('overlap', overlap, 'labels ab where any of a, b, ab and others are entries, each with or without a reflexive variant under a context rule of arbitrary truth; 1 custom action',
            quick=dict(ents=[('a', 'b', 'ab'), ('ab', 'a')], types=['x'], actions=1, sets=[('x',)], disps=['d']),
            thorough=dict(ents=[('a', 'b', 'ab'), ('ab', 'a'), ('ab', 'b')], types=['x', 'y', None], actions=1, sets=[('x',), ('x', 'y')])),
    Harness('reflexive', reflexive, 'labels of 1-2 symbolic code points, each with or without a reflexive variant and another variant, with or without type; 1 custom action',
            quick=dict(lens=[1, 2], types=['x', None], sets=[('x',)], disps=['d'], rms=['-']), thorough=dict(lens=[1, 2], types=['x', 'y', None], sets=[('x',), ('x', 'y')])),
    Harness('variant', variant, 'labels of 1-2 symbolic code points with one variant each; 1 custom action',
            quick=dict(lens=[1, 2], types=['x', None], actions=1, sets=[('x',), ('x', 'activated')], disps=['d', 'invalid']),
            thorough=dict(lens=[1, 2, 3], types=['x', 'activated', None], actions=1, sets=[('x',), ('x', 'activated')], disps=['d', 'invalid']),
            must_reach=['disposition of a variant label']),
    Harness('variant-2actions', variant, 'labels of 1 symbolic code point with one variant; 2 custom actions (thorough: also 2 code points)',
            quick=dict(lens=[1], types=['x'], actions=2, sets=[('x',), ('y',)], disps=['d', 'invalid']),
            thorough=dict(lens=[1, 2], types=['x'], actions=2, sets=[('x',), ('y',)], disps=['d', 'invalid']),
            must_reach=['disposition of a variant label']),
]
META = dict(assumptions=['rules answer an arbitrary function of the label; see P07'],
            outside='labels longer than 2, more custom actions')
