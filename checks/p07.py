from checks.common import *
from checks.icu import *

# A rule definition as a tree, from which both the implementation's objects and the reference semantics are built:
# ('c', cps, count) literal   ('k', cps, neg, count) class   ('any', count)   ('start',)   ('end',)
# ('or', [item...], count)    ('ref', rule, count)   ('sub', [items], count)  ('ahead', [items]) ('behind', [items]) ('anchor',)


def counts(c):
    if c is None:
        return 1, 1
    if ':' in c:
        a, b = c.split(':')
        return int(a), int(b)
    if c.endswith('+'):
        return int(c[:-1]), None
    return int(c), int(c)


class Ref:
    """reference semantics: ends(item, i) = {j: condition that the item denotes the stretch i..j}"""

    def __init__(self, label, rules, anchor=None, index=None):
        self.t, self.n, self.rules = label, len(label), rules
        self.anchor, self.index = anchor, index

    def seq(self, items, i):
        cur = {i: True}
        for it in items:
            nxt = {}
            for p, c in cur.items():
                for j, d in self.ends(it, p).items():
                    nxt[j] = Or(nxt.get(j, False), And(c, d))
            cur = nxt
        return cur

    def repeat(self, f, i, count):
        lo, hi = counts(count)
        cur, out, r = {i: True}, {}, 0
        while True:
            if r >= lo:
                for j, c in cur.items():
                    out[j] = Or(out.get(j, False), c)
            if r == hi or r > lo + self.n + 1:
                return out
            r += 1
            nxt = {}
            for p, c in cur.items():
                for j, d in f(p).items():
                    nxt[j] = Or(nxt.get(j, False), And(c, d))
            cur = nxt

    def ends(self, it, i):
        k = it[0]
        if k == 'c':
            def lit(p):
                return {p + len(it[1]): seq_eq(self.t[p:p + len(it[1])], it[1])} if p + len(it[1]) <= self.n else {}
            return self.repeat(lit, i, it[2])
        if k == 'k':
            def cls(p):
                if p >= self.n:
                    return {}
                m = Or([self.t[p] == c for c in it[1]])
                return {p + 1: Not(m) if it[2] else m}
            return self.repeat(cls, i, it[3])
        if k == 'any':
            return self.repeat(lambda p: {p + 1: True} if p < self.n else {}, i, it[1])
        if k == 'start':
            return {0: True} if i == 0 else {}
        if k == 'end':
            return {i: True} if i == self.n else {}
        if k == 'anchor':
            return {i + len(self.anchor): True} if i == self.index else {}
        if k == 'or':
            def alt(p):
                out = {}
                for x in it[1]:
                    for j, c in self.ends(x, p).items():
                        out[j] = Or(out.get(j, False), c)
                return out
            return self.repeat(alt, i, it[2])
        if k == 'ref':
            return self.repeat(lambda p: self.seq(self.rules[it[1]], p), i, it[2])
        if k == 'sub':
            return self.repeat(lambda p: self.seq(it[1], p), i, it[2])
        if k == 'ahead':
            return {i: Or(list(self.seq(it[1], i).values()))}
        if k == 'behind':
            return {i: Or([self.seq(it[1], p).get(i, False) for p in range(i + 1)])}
        raise AssertionError(it)


def build_item(it, classes, names):
    from lgr import matcher as M
    from lgr.classes import Class, ComplementClass
    from lgr.rule import Rule
    k = it[0]
    if k == 'c':
        return M.CharMatcher(list(it[1]), count=it[2])
    if k == 'k':
        c = Class(codepoints=it[1])
        if it[2]:
            comp = ComplementClass()
            comp.add_child(c)
            c = comp
        if len(it) > 4:            # by reference to a named class
            nm = 'k%d' % len(names)
            names.append(nm)
            c.name = nm
            classes[nm] = c
            c = Class(by_ref=nm)
        return M.ClassMatcher(c, count=it[3])
    if k == 'any':
        return M.AnyMatcher(count=it[1])
    if k == 'start':
        return M.StartMatcher()
    if k == 'end':
        return M.EndMatcher()
    if k == 'anchor':
        return M.AnchorMatcher()
    if k == 'or':
        m = M.ChoiceMatcher(count=it[2])
    elif k == 'ref':
        return M.RuleMatcher(Rule(by_ref=it[1]), count=it[2])
    elif k == 'sub':
        r = Rule()
        for x in it[1]:
            r.add_child(build_item(x, classes, names))
        return M.RuleMatcher(r, count=it[2])
    elif k == 'ahead':
        m = M.LookAheadMatcher()
    elif k == 'behind':
        m = M.LookBehindMatcher()
    for x in it[1]:
        m.add_child(build_item(x, classes, names))
    return m


def label_cps(ctx, name, n):
    out = []
    for k in range(n):
        c = ctx.cp('%s%d' % (name, k))
        # not code points no IDNA label contains: line terminators (which '.' and '$' treat specially) and surrogates
        ctx.assume(Not(Or([c == x for x in (10, 11, 12, 13, 0x85, 0x2028, 0x2029)])), Or(c < 0xD800, c > 0xDFFF))
        out.append(c)
    return tuple(out)


COUNTS = [None, '2', '1+', '0+', '0:1', '1:2']


def leaf(ctx, nm, kinds, cnts):
    k = ctx.pick(nm + 'k', kinds)
    n = ctx.pick(nm + 'n', cnts) if k not in ('start', 'end') else None
    if k == 'c1':
        return ('c', label_cps(ctx, nm, 1), n)
    if k == 'c2':
        return ('c', label_cps(ctx, nm, 2), n)
    if k == 'k2':
        return ('k', label_cps(ctx, nm, 2), False, n)
    if k == 'k0':
        return ('k', (), False, n)
    if k == 'kr':
        return ('k', label_cps(ctx, nm, 2), False, n, 'ref')
    if k == 'kn':
        return ('k', label_cps(ctx, nm, 1), True, n)
    if k == 'any':
        return ('any', n)
    return (k,)


def item(ctx, nm, cfg, rules):
    k = ctx.pick(nm, cfg['items'])
    L, C = cfg['leaves'], cfg['counts']
    S = cfg.get('inner', L)
    if k == 'leaf':
        return leaf(ctx, nm, L, C)
    if k == 'or':
        return ('or', [leaf(ctx, nm + 'a', S, C[:2]), leaf(ctx, nm + 'b', S, C[:1])], ctx.pick(nm + 'n', C))
    if k == 'or2':
        return ('or', [('sub', [leaf(ctx, nm + 'a', ['c1', 'any'], [None]), leaf(ctx, nm + 'b', ['c1', 'end'], [None])], None),
                       ('c', label_cps(ctx, nm + 'c', 1), None)], ctx.pick(nm + 'n', C))
    if k == 'sub':
        return ('sub', [leaf(ctx, nm + 'a', S, C[:2]), leaf(ctx, nm + 'b', ['c1', 'k2'], [None])], ctx.pick(nm + 'n', C))
    if k == 'ref':
        nr = 'r%d' % len(rules)
        rules[nr] = [leaf(ctx, nm + 'a', S, C[:2]), leaf(ctx, nm + 'b', ['c1', 'end', 'k2'], [None])]
        return ('ref', nr, ctx.pick(nm + 'n', C))
    if k == 'ahead':
        return ('ahead', [leaf(ctx, nm + 'a', S, C)])
    if k == 'behref':
        nr = 'r%d' % len(rules)
        rules[nr] = [leaf(ctx, nm + 'a', ['c1', 'any'], ['1+', '0+', None]), leaf(ctx, nm + 'b', ['c1'], [None])]
        inner = ('ref', nr, ctx.pick(nm + 'n', [None, '1+']))
        return ('behind', [inner if ctx.flag(nm + 'direct') else ('sub', [inner], None)])
    if k == 'behor':
        return ('behind', [('or', [leaf(ctx, nm + 'a', ['c1', 'k0', 'any'], ['1+', None]), leaf(ctx, nm + 'b', ['c1'], [None])], ctx.pick(nm + 'n', [None, '1+']))])
    if k == 'behind':
        return ('behind', [leaf(ctx, nm + 'a', S, C)])
    raise AssertionError(k)


def run(ctx, items, rules, label, anchor=None, index=0):
    from lgr.rule import Rule
    db = database(ctx, percent=ctx.cfg.get('percent', False))
    classes, names = {}, []
    lookup = {}
    for nm, its in list(rules.items()):
        r = Rule(name=nm)
        for x in its:
            r.add_child(build_item(x, classes, names))
        lookup[nm] = r
    rule = Rule(name='top')
    for x in items:
        rule.add_child(build_item(x, classes, names))
    lookup['top'] = rule
    rule.validate([], lookup, classes)
    for _ in range(2):
        got = rule.matches(label, lookup, classes, db, anchor=anchor, index=index)
    got = bool(got)
    ref = Ref(label, rules, anchor, index)
    if anchor is not None and uses_anchor(items):
        want = Or(list(ref.seq(items, index).values()))
    else:
        want = Or([c for i in range(len(label) + 1) for c in ref.seq(items, i).values()])
    ctx.check(Iff(got, want), 'the rule matches exactly the labels containing a denoted stretch')
    ctx.observe(got)


def uses_anchor(items):
    return any(it[0] == 'anchor' or (it[0] in ('or', 'sub') and uses_anchor(it[1])) for it in items)


def elements(ctx):
    cfg = ctx.cfg
    rules = {}
    items = [item(ctx, 'i%d' % k, cfg, rules) for k in range(ctx.pick('m', cfg['len']))]
    label = label_cps(ctx, 'l', ctx.pick('n', cfg['labels']))
    run(ctx, items, rules, label)


def empty(ctx):
    """a rule without elements matches nothing, also as a context rule"""
    from lgr.rule import Rule
    db = database(ctx)
    lookup, r = {}, Rule(name='top')
    lookup['top'] = r
    label = label_cps(ctx, 'l', ctx.pick('n', [1, 2]))
    kind = ctx.pick('kind', ['none', 'ref'])
    if kind == 'ref':
        lookup['e'] = Rule(name='e')
        r.add_child(build_item(('ref', 'e', None), {}, []))
    i = ctx.pick('i', len(label))
    ctx.check(not r.matches(label, lookup, {}, db, anchor=label[i:i + 1] if ctx.flag('anchor') else None, index=i), 'a rule without elements matches nothing')


def far(ctx):
    """look-behind over most of a label of maximal length"""
    cfg = ctx.cfg
    a, b = label_cps(ctx, 'l', 2)
    n = ctx.pick('n', cfg['sizes'])
    cnt = ctx.pick('count', cfg['counts'])
    label = (b,) + (a,) * n + (b,)
    items = [('behind', [('start',), ('c', (b,), None), ('c', (a,), cnt)]), ('anchor',)]
    run(ctx, items, {}, label, anchor=(b,), index=n + 1)


def looks(ctx):
    """look-around elements next to other elements"""
    cfg = ctx.cfg
    L, C = cfg['leaves'], cfg['counts']
    items = []
    if ctx.flag('lb'):
        items.append(('behind', [leaf(ctx, 'lb0', L, C)] + ([leaf(ctx, 'lb1', cfg['lb2'], [None])] if ctx.flag('lb2') else [])))
    items.append(leaf(ctx, 'mid', cfg['mid'], [None]))
    if ctx.flag('la'):
        items.append(('ahead', [leaf(ctx, 'la0', L, C)]))
    run(ctx, items, {}, label_cps(ctx, 'l', ctx.pick('n', cfg['labels'])))


def anchored(ctx):
    """context rules: look-behind, anchor, look-ahead, evaluated at every position"""
    cfg = ctx.cfg
    L, C = cfg['leaves'], cfg['counts']
    label = label_cps(ctx, 'l', ctx.pick('n', cfg['labels']))
    alen = ctx.pick('alen', cfg['anchor'])
    if alen > len(label):
        return
    index = ctx.pick('index', len(label) - alen + 1)
    anchor = label[index:index + alen]
    shape = ctx.pick('shape', cfg['shapes'])
    items = []
    if 'b' in shape:
        items.append(('behind', [leaf(ctx, 'lb', L, C)]))
    if 'o' in shape:
        items.append(('or', [('sub', [('anchor',), ('ahead', [leaf(ctx, 'o1', ['c1', 'end'], [None])])], None),
                             ('sub', [('behind', [leaf(ctx, 'o2', ['c1', 'start'], [None])]), ('anchor',)], None)], None))
    elif 's' in shape:
        items.append(('sub', [('anchor',)], None))
    elif 'n' not in shape:
        items.append(('anchor',))
    if 'a' in shape:
        items.append(('ahead', [leaf(ctx, 'la', L, C)]))
    run(ctx, items, {}, label, anchor=anchor, index=index)


LEAVES = ['c1', 'c2', 'k2', 'kr', 'kn', 'k0', 'any', 'start', 'end']
HARNESSES = [
    Harness('elements', elements, 'rules of one element (literals of 1-2 code points, classes, complements, empty and referenced classes, any, start, end, choice, nested and '
            'referenced rules, look-ahead, look-behind; counts of the forms n, n+, n:m up to 2, and 10 and above) with symbolic code points; labels of 1-4 symbolic code points',
            quick=dict(len=[1], items=['leaf', 'or', 'or2', 'sub', 'ref', 'ahead', 'behind', 'behor', 'behref'], leaves=LEAVES, inner=['c1', 'k0', 'end'], counts=[None, '2', '1+', '0:1', '1:2', '0+', '1', '1:1', '10+', '10:12', '10'], labels=[3]),
            thorough=dict(len=[1], items=['leaf', 'or', 'or2', 'sub', 'ref', 'ahead', 'behind', 'behor', 'behref'], leaves=LEAVES, counts=COUNTS, labels=[1, 2, 4]),
            must_reach=['the rule matches exactly the labels containing a denoted stretch']),
    Harness('empty', empty, 'rules without elements, alone and referenced, at every position of labels of 1-2', must_reach=['a rule without elements matches nothing']),
    Harness('far', far, 'labels of up to 63 code points over 2 symbolic ones, look-behind of the whole label', quick=dict(sizes=[2, 3, 8, 40, 61], counts=['1+', '0+', '9+', '1:2', '2']),
            thorough=dict(sizes=[1, 2, 3, 8, 20, 40, 50, 60, 61], counts=['1+', '0+', '9+', '1:2', '2', '1:61', '61'])),
    Harness('pairs', elements, 'rules of two elements; labels of 1-4 symbolic code points',
            quick=dict(len=[2], items=['leaf'], leaves=['c1', 'k0', 'any', 'start', 'end'], counts=[None, '2', '1+', '0:1'], labels=[3]),
            thorough=dict(len=[2], items=['leaf', 'or2', 'sub', 'ref', 'behind'], leaves=['c1', 'k2', 'k0', 'any', 'start', 'end'], inner=['c1', 'any', 'end'], counts=[None, '2', '0+'], labels=[2, 4])),
    Harness('looks', looks, 'optional look-behind of 1-2 elements, an element, optional look-ahead; labels of 1-4',
            quick=dict(leaves=['c1', 'kn', 'start', 'end'], counts=[None, '1+'], labels=[3], lb2=['c1'], mid=['c1']),
            thorough=dict(lb2=['c1', 'k2'], mid=['c1', 'k2', 'any'], leaves=['c1', 'c2', 'kn', 'any', 'start', 'end'], counts=[None, '2', '1+', '0:1'], labels=[1, 2, 4])),
    Harness('anchored', anchored, 'context rules with optional look-behind and look-ahead around an anchor of 1-2 code points (also inside choices and nested rules, or absent), labels of '
            '1-4 symbolic code points, every position',
            quick=dict(leaves=['c1', 'kn', 'start', 'end'], counts=[None, '1+'], labels=[2, 3], anchor=[1, 2], shapes=['', 'b', 'a', 'ba', 'o', 's', 'bn'], percent=True),
            thorough=dict(leaves=['c1', 'c2', 'k2', 'k0', 'kn', 'any', 'start', 'end'], counts=[None, '1+', '2'], labels=[1, 2, 3, 4], anchor=[1, 2],
                          shapes=['', 'b', 'a', 'ba', 'o', 's', 'bs', 'bn', 'n'], percent=True),
            must_reach=['the rule matches exactly the labels containing a denoted stretch']),
]
META = dict(assumptions=['ICU regular expressions and code point sets behave as modelled in checks/icu.py (sampled paths are compared with the real ICU library)',
                         'labels contain no line terminators or surrogate code points (no IDNA label does)'],
            outside='labels over 4 code points; nesting deeper than 2; property classes inside rules (P08)')
