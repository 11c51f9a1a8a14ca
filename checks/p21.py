"""Union and intersection of two LGRs."""
from checks.common import *
from checks.p15 import RULES

TYPES = ['x', 'y']


def side(ctx, name, shape, targets, modes, ents_modes, rng, types=TYPES):
    """an LGR; the reference is [(cp, when, not_when, tags, [(target, type, when, not_when)])]"""
    l = lgr()
    ents = [cps(ctx, '%s%d' % (name, k), n) for k, n in enumerate(shape)]
    distinct(ctx, ents)
    ref = []
    for k, e in enumerate(ents):
        w, n = RULES[ctx.pick('w%s%d' % (name, k), ents_modes)]
        tags = ctx.pick('t%s%d' % (name, k), ctx.cfg['tags']) if len(e) == 1 else ()
        text = ctx.pick('k%s%d' % (name, k), ctx.cfg.get('comments', [None]))
        l.add_cp(list(e), when=w, not_when=n, tag=list(tags), comment=text)
        ref.append([e, w, n, tags, [], text])
    for k, e in enumerate(ents):
        m = ctx.pick('m%s%d' % (name, k), modes)
        if m is None:
            continue
        t = ctx.pick('g%s%d' % (name, k), targets)
        cp = ents[t] if isinstance(t, int) and t < len(ents) else cps(ctx, 'x%s%d' % (name, k), 1)
        ty = ctx.pick('y%s%d' % (name, k), types)
        for one in m:
            w, n = RULES[one]
            text = ctx.pick('vk%s%d' % (name, k), ctx.cfg.get('comments', [None]))
            l.add_variant(list(e), list(cp), ty, when=w, not_when=n, comment=text)
            ref[k][4].append((cp, ty, w, n, text))
    if rng:
        f = ctx.cp('f' + name)
        for e in ents:
            if len(e) == 1:
                ctx.assume(Or(e[0] < f, e[0] > f + 1))
        l.add_range(f, f + 1)
        ref += [[(f,), None, None, (), [], None], [(f + 1,), None, None, (), [], None]]
    for r in ('w', 'v', 'n', 'm'):
        l.rules.append(r)
        l.rules_xml.append('<rule name="%s"/>' % r)
    return l, ref


def snap(l):
    return [[c.cp, c.when, c.not_when, tuple(c.tags), [(v.cp, v.type, v.when, v.not_when, v.comment) for v in c.get_variants()], c.comment] for c in l.repertoire.all_repertoire()]


def find(ref, cp):
    for r in ref:
        if len(r[0]) == len(cp) and deep_eq(r[0], cp):
            return r
    return None


def vfind(vs, v):
    for x in vs:
        if len(x[0]) == len(v[0]) and deep_eq(x[0], v[0]) and (x[2], x[3]) == (v[2], v[3]):
            return x
    return None


def unchanged(l, ref):
    got = snap(l)
    return And(len(got) == len(ref), [Or([And(deep_eq(g[0], r[0]), g[1] == r[1], g[2] == r[2], set(g[3]) == set(r[3]), multiset_eq(g[4], r[4]), g[5] == r[5]) for g in got]) for r in ref])


def combine(ctx):
    from lgr.tools.compare.union import union_lgrs
    from lgr.tools.compare.intersect import intersect_lgrs
    cfg = ctx.cfg
    l1, a = side(ctx, 'a', ctx.pick('shape1', cfg['first']), cfg['targets'], cfg['modes'], cfg['ents'], cfg.get('range'), cfg['types'])
    l2, b = side(ctx, 'b', ctx.pick('shape2', cfg['second']), cfg['targets'], cfg['modes'], cfg['ents'], False, cfg['types'])
    op = ctx.pick('op', ['union', 'intersection'])
    f = union_lgrs if op == 'union' else intersect_lgrs
    swap = ctx.flag('swap')
    out = snap(f(l2, l1) if swap else f(l1, l2))
    if op == 'union':
        cpset = [r[0] for r in a] + [r[0] for r in b if find(a, r[0]) is None]
    else:
        cpset = [r[0] for r in a if find(b, r[0]) is not None]
    ctx.check(multiset_eq([o[0] for o in out], cpset), 'the entries are those of %s' % ('either' if op == 'union' else 'both'))
    for o in out:
        ra, rb = find(a, o[0]), find(b, o[0])
        if ra and rb:
            if op == 'union':
                want = ra[4] + [v for v in rb[4] if vfind(ra[4], v) is None]
                tags = set(ra[3]) | set(rb[3])
            else:
                want = [v for v in ra[4] if vfind(rb[4], v) is not None]
                tags = set(ra[3]) & set(rb[3])
            if ra[1:3] == rb[1:3]:
                ctx.check(o[1:3] == ra[1:3], 'a context rule both agree on is kept')
            else:
                ctx.check(o[1] is not None or o[2] is not None, 'a context rule one of them has is not lost')
                ctx.check(all(o[k] is not None and r[k] in o[k] for k in (1, 2) for r in (ra, rb) if r[k] is not None), 'different context rules of entries are all kept')
        else:
            r = ra or rb
            want, tags = r[4], set(r[3])
            ctx.check(o[1:3] == r[1:3], 'context rules of entries are kept')
        ctx.check(set(o[3]) == tags, 'tags follow the operands')
        ctx.check(multiset_eq([(v[0], v[2], v[3]) for v in o[4]], [(v[0], v[2], v[3]) for v in want]), 'the variants are those of %s, with their rules' % ('either' if op == 'union' else 'both'))
        for v in o[4]:
            held = [x for r in (ra, rb) if r for x in [vfind(r[4], v)] if x is not None]
            types = {x[1] for x in held}
            ctx.check(len(types) != 1 or v[1] in types, 'a type both agree on is kept')
            if op == 'intersection':
                types -= {None}
                ctx.check(len(types) != 1 or v[1] in types, 'a type one of them has is kept')
            texts = {x[4] for x in held}
            ctx.check(op == 'intersection' or len(texts) != 1 or v[4] in texts, 'a comment both agree on is kept')
        for text in {r[5] for r in (ra, rb) if r and r[5] is not None}:
            ctx.check(o[5] is not None and text in o[5], 'comments of entries are kept')
    ctx.check(unchanged(l1, a), 'the first operand keeps its content')
    ctx.check(unchanged(l2, b), 'the second operand keeps its content')
    ctx.observe([len(out)])


def lists(ctx):
    """actions, rules, classes, references, scopes, languages, versions"""
    from lgr.tools.compare.union import union_lgrs
    from lgr.tools.compare.intersect import intersect_lgrs
    from lgr.action import Action
    cfg = ctx.cfg
    ls = []
    for k in (1, 2):
        l = lgr()
        acts = ctx.pick('acts%d' % k, cfg['actions'])
        for d in acts:
            l.actions.append(Action(d, match='r'))
            l.actions_xml.append('<action disp="%s" match="r"/>' % d)
        names = ctx.pick('names%d' % k, cfg['names'])
        for n in names:
            for names_, xml in ((l.rules, l.rules_xml), (l.classes, l.classes_xml)):
                names_.append(n)
                xml.append('<e name="%s">%s</e>' % (n, 'x' if n == 'same' else 'body%d' % k))
        refs = ctx.pick('refs%d' % k, cfg['refs'])
        for r in refs:
            l.add_reference(r)
        langs = ctx.pick('langs%d' % k, cfg['langs'])
        l.metadata.languages = list(langs)
        l.metadata.scopes = list(langs)
        ls.append((l, acts, names, refs, langs))
    (l1, a1, n1, r1, g1), (l2, a2, n2, r2, g2) = ls
    op = ctx.pick('op', ['union', 'intersection'])
    u = op == 'union'
    out = (union_lgrs if u else intersect_lgrs)(l1, l2)
    want = list(a1) + [x for x in a2 if x not in a1] if u else [x for x in a1 if x in a2]
    ctx.check([x.disp for x in out.actions] == want, 'actions are those of the operands, in order')
    ctx.check([x.split('"')[1] for x in out.actions_xml] == want, 'actions keep their text')
    ctx.check(set(str(x['value']) for x in out.reference_manager.values()) == (set(r1) | set(r2) if u else set(r1) & set(r2)), 'references are those of the operands')
    ctx.check(set(out.metadata.languages) == (set(g1) | set(g2) if u else set(g1) & set(g2)), 'languages are those of the operands')
    ctx.check(set(out.metadata.scopes) == (set(g1) | set(g2) if u else set(g1) & set(g2)), 'scopes are those of the operands')
    names = []
    for n in set(n1) | set(n2):
        if n in n1 and n in n2:
            names += [(n, 'x')] if n == 'same' else [(n + '_1', 'body1'), (n + '_2', 'body2')]
        elif u:
            names.append((n, 'x' if n == 'same' else 'body1' if n in n1 else 'body2'))
    for nm, xml, what in ((out.rules, out.rules_xml, 'rules'), (out.classes, out.classes_xml, 'classes')):
        ctx.check(sorted(nm) == sorted(n for n, _ in names), what + ' are those of the operands')
        ctx.check(sorted(xml) == sorted('<e name="%s">%s</e>' % n for n in names), what + ' keep their text')
        ctx.check([x.split('"')[1] for x in xml] == list(nm), what + ': names and texts correspond')
    ctx.observe([sorted(out.rules), [x.disp for x in out.actions]])


def action_kinds(ctx):
    """actions that differ in one attribute are different actions"""
    from lgr.tools.compare.union import union_lgrs
    from lgr.tools.compare.intersect import intersect_lgrs
    from lgr.action import Action
    keys = ['match', 'not_match', 'any_variant', 'all_variants', 'only_variants']
    base = ctx.pick('base', ctx.cfg['bases'])
    ls, kws = [], []
    for k in (1, 2):
        l = lgr()
        kw = dict(base)
        if k == 2:
            ch = ctx.pick('change', ['none', 'disp'] + keys)
            if ch == 'disp':
                kw['disp'] = 'other'
            elif ch in kw:
                if ctx.flag('drop'):
                    del kw[ch]
                else:
                    kw[ch] = ['z'] if isinstance(kw[ch], list) else 'z'
            elif ch != 'none':
                if ch in ('match', 'not_match') and ('match' in kw or 'not_match' in kw):
                    return
                kw[ch] = 'z' if ch in ('match', 'not_match') else ['z']
        l.actions.append(Action(**kw))
        l.actions_xml.append('<action k="%d"/>' % k)
        ls.append(l)
        kws.append(kw)
    l1, l2 = ls if ctx.flag('swap') else ls[::-1]
    op = ctx.pick('op', ['union', 'intersection'])
    out = (union_lgrs if op == 'union' else intersect_lgrs)(l1, l2)
    same = kws[0] == kws[1]
    ctx.check((l1.actions[0] == l2.actions[0]) == same, 'actions are equal exactly when their attributes are')
    if op == 'intersection':
        ctx.check(len(out.actions) == (1 if same else 0), 'shared actions are those with the same attributes')
    ctx.observe([len(out.actions)])


def dates(ctx):
    """versions, descriptions, validity and Unicode version"""
    from lgr.tools.compare.union import union_lgrs
    from lgr.tools.compare.intersect import intersect_lgrs
    from lgr.metadata import Version, Description
    cfg = ctx.cfg
    l1, l2 = lgr(), lgr()
    vals = {}
    for k, l in ((1, l1), (2, l2)):
        v = ctx.pick('v%d' % k, cfg['versions'])
        d = ctx.pick('d%d' % k, cfg['descriptions'])
        s = ctx.pick('s%d' % k, cfg['dates'])
        e = ctx.pick('e%d' % k, cfg['dates'])
        if v:
            l.metadata.version = Version(*v)
        if d:
            l.metadata.description = Description(*d)
        if s:
            l.metadata.validity_start = s
        if e:
            l.metadata.validity_end = e
        u = ctx.pick('u%d' % k, cfg.get('unicode', ['6.3.0']))
        l.metadata.unicode_version = u
        vals[k] = (v, d, s, e, u)
    op = ctx.pick('op', ['union', 'intersection'])
    out = (union_lgrs if op == 'union' else intersect_lgrs)(l1, l2).metadata
    (v1, d1, s1, e1, u1), (v2, d2, s2, e2, u2) = vals[1], vals[2]
    one = lambda x, y, f: (x or y) if not (x and y) else f(x, y)
    ctx.check(out.validity_start == one(s1, s2, max), 'validity starts when both are valid')
    ctx.check(out.validity_end == one(e1, e2, min), 'validity ends when one is not')
    ctx.check(out.unicode_version == max(u1, u2, key=lambda v: [int(x) for x in v.split('.')]), 'the Unicode version is the latest')
    ctx.check((out.version is None) == (not v1 and not v2), 'a version is there when one of them has one')
    if out.version is not None:
        for v in (v1, v2):
            if v:
                ctx.check(v[0] in out.version.value, 'the version names both values')
                ctx.check(v[1] is None or v[1] in (out.version.comment or ''), 'the version has both comments')
    ctx.check((out.description is None) == (not d1 and not d2), 'a description is there when one of them has one')
    if out.description is not None:
        for d in (d1, d2):
            if d:
                ctx.check(d[0] in out.description.value, 'the description has both texts')
    ctx.observe([out.validity_start, out.validity_end])


def renamed(ctx):
    """rules of the same name in both LGRs with different definitions"""
    from lgr.tools.compare.union import union_lgrs
    from lgr.tools.compare.intersect import intersect_lgrs
    out = []
    c, d = ctx.cp('c'), ctx.cp('d')
    same = ctx.flag('same')
    for k in (1, 2):
        l = lgr()
        l.rules.append('w')
        l.rules_xml.append('<rule name="w">%s</rule>' % ('body' if same else 'body%d' % k))
        l.add_cp([c if k == 1 else d], when='w' if ctx.flag('when%d' % k) else None)
        out.append(l)
    res = (union_lgrs if ctx.flag('union') else intersect_lgrs)(*out)
    for ch in res.repertoire:
        ctx.check(ch.when is None or ch.when in res.rules, 'the rules entries refer to exist', known=('P21-renamed-rules', not same))
    ctx.observe([res.rules])


REACH = ['the entries are those of either', 'the entries are those of both', 'a context rule both agree on is kept']
HARNESSES = [
    Harness('entries', combine, 'two LGRs of 1-2 entries (code points, pairs) coinciding in every way, each with one variant mapping to an entry or to any code point, typed, with or without rules',
            quick=dict(first=[(1, 1), (2,), (3,)], second=[(1, 1), (3,)], targets=[0, 'x'], modes=[None, '-'], ents=['-'], tags=[()], types=['x']),
            thorough=dict(first=[(1, 1), (2, 1)], second=[(1, 1), (1, 2)], targets=[0, 1, 'x'], modes=[None, '-', 'wn'], ents=['-'], tags=[()], types=['x']), must_reach=REACH),
    Harness('rules', combine, 'entries and variants under when and not-when rules, tags',
            quick=dict(first=[(1,)], second=[(1,)], targets=['x'], modes=[None, '-', 'w', 'wn', '-w'], ents=['-', 'w', 'n'], tags=[()], types=['x', None]),
            thorough=dict(first=[(1,), (1, 1)], second=[(1,)], targets=[0, 'x'], modes=[None, '-', 'w', 'wn', '-w'], ents=['-', 'w', 'n', 'v'], tags=[(), ('t',)], types=['x', 'y', None]), must_reach=REACH),
    Harness('contexts', combine, 'entries under different when and not-when rules', quick=dict(first=[(1,)], second=[(1,)], targets=['x'], modes=[None], ents=['-', 'w', 'v', 'n', 'm'], tags=[()], types=['x']),
            thorough=dict(first=[(1,), (1, 2)], second=[(1,), (1, 2)], targets=['x'], modes=[None, '-'], ents=['-', 'w', 'v', 'n', 'm'], tags=[()], types=['x']), must_reach=['different context rules of entries are all kept']),
    Harness('tags', combine, 'tags and ranges', quick=dict(first=[(1,)], second=[(1,), (1, 1)], targets=['x'], modes=[None], ents=['-'], tags=[(), ('t',), ('u', 't')], range=True, types=['x']),
            thorough=dict(first=[(1,), (1, 1)], second=[(1, 1)], targets=['x'], modes=[None, '-'], ents=['-'], tags=[(), ('t',), ('u', 't')], range=True, types=['x'])),
    Harness('comments', combine, 'comments of entries and variants', quick=dict(first=[(1,)], second=[(1,)], targets=['x'], modes=[None, '-'], ents=['-'], tags=[()], types=['x', None], comments=[None, 'p']),
            thorough=dict(first=[(1,), (3,), (1, 3)], second=[(1,), (3,)], targets=['x', 0], modes=[None, '-', 'w'], ents=['-', 'w'], tags=[()], types=['x', None], comments=[None, 'p', 'q']), must_reach=['comments of entries are kept', 'a comment both agree on is kept']),
    Harness('lists', lists, 'actions, rules, classes, references, languages and scopes: up to 2 per LGR, equal or not',
            quick=dict(actions=[(), ('p', 'q'), ('q', 'p', 's')], names=[(), ('same', 'k', 'l', 'm'), ('k',)], refs=[('r',), ('s', 'r', 't')], langs=[(), ('und-Latn',), ('und-Cyrl', 'und-Latn')]),
            thorough=dict(actions=[(), ('p', 'q'), ('q', 'p', 's'), ('s',)], names=[(), ('same', 'k'), ('k',), ('o', 'same')], refs=[(), ('r',), ('s', 'r')], langs=[(), ('und-Latn',), ('und-Cyrl', 'und-Latn')])),
    Harness('renamed', renamed, 'a rule of the same name in both LGRs, with the same or another definition', quick=dict(), thorough=dict(), must_reach=['the rules entries refer to exist']),
    Harness('versions', dates, 'versions and descriptions present in either', quick=dict(versions=[None, ('1', None), ('2', 'c'), ('1', 'd')], descriptions=[None, ('a', 'text/plain'), ('b', 'text/html')], dates=[None]),
            thorough=dict(versions=[None, ('1', None), ('2', 'c'), ('1', 'd'), ('1', 'c')], descriptions=[None, ('a', 'text/plain'), ('b', 'text/html'), ('c', 'text/html')], dates=[None])),
    Harness('action-kinds', action_kinds, 'one action each, equal or different in any one attribute',
            quick=dict(bases=[dict(disp='d'), dict(disp='d', match='r'), dict(disp='d', any_variant=['a']), dict(disp='d', not_match='r', all_variants=['a', 'b']), dict(disp='d', only_variants=['a'])]),
            must_reach=['shared actions are those with the same attributes']),
    Harness('dates', dates, 'validity dates present in either, Unicode versions', quick=dict(versions=[None], descriptions=[None], dates=[None, '2020-01-01', '2021-01-01'], unicode=['6.3.0', '10.0.0']),
            thorough=dict(versions=[None, ('1', None)], descriptions=[None], dates=[None, '2020-01-01', '2019-12-31', '2021-01-01'], unicode=['6.3.0', '10.0.0', '9.0.0'])),
]
META = dict(assumptions=[], outside='over 2 entries and one variant target per entry in each operand; references of entries (union and intersection drop them)')
