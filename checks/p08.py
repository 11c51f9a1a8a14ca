from checks.common import *
from checks.icu import *

# A class expression: ('list', cps) ('tag', name) ('prop', value) ('byref', name) ('not', e) ('or', e...) ('and', a, b) ('sub', a, b) ('xor', a, b)


def leaf(ctx, nm, kinds):
    k = ctx.pick(nm, kinds)
    if k[0] == 'l':
        return ('list', cps(ctx, nm + 'c', int(k[1])))
    if k == 'tag':
        return ('tag', ctx.pick(nm + 't', ['t', 'none']))
    if k == 'prop':
        return ('prop', ctx.pick(nm + 'p', ['Han', 'Latn']))
    return ('byref', ctx.pick(nm + 'r', ['n0', 'n1']))


def expr(ctx, nm, ops, kinds, depth):
    op = ctx.pick(nm + 'o', ops if depth else ['leaf'])
    if op == 'leaf':
        return leaf(ctx, nm, kinds)
    if op == 'not':
        return ('not', expr(ctx, nm + 'a', ops, kinds, depth - 1))
    n = 3 if op == 'or3' else 2
    return (op[:2] if op == 'or3' else op,) + tuple(expr(ctx, nm + 'abc'[j], ops if j == 0 else ['leaf'] + [o for o in ops if o in ('not', 'and')][:2],
                                                         kinds, depth - 1) for j in range(n))


def build_cls(e, name=None):
    from lgr import classes as K
    k = e[0]
    if k == 'list':
        return K.Class(name=name, codepoints=e[1])
    if k == 'tag':
        return K.Class(name=name, from_tag=e[1])
    if k == 'prop':
        return K.Class(name=name, unicode_property='sc:' + e[1])
    if k == 'byref':
        return K.Class(by_ref=e[1])
    c = {'not': K.ComplementClass, 'or': K.UnionClass, 'and': K.IntersectionClass, 'sub': K.DifferenceClass, 'xor': K.SymmetricDifferenceClass}[k](name=name)
    for x in e[1:]:
        c.add_child(build_cls(x))
    return c


class Sem:
    def __init__(self, db, named, tags):
        self.db, self.named, self.tags = db, named, tags

    def has(self, e, c):
        k = e[0]
        if k == 'list':
            return Or([c == x for x in e[1]])
        if k == 'tag':
            return Or([c == x for x in self.tags.get(e[1], ())])
        if k == 'prop':
            return self.db.prop('sc_' + e[1], c)
        if k == 'byref':
            return self.has(self.named[e[1]], c)
        if k == 'not':
            return Not(self.has(e[1], c))
        v = [self.has(x, c) for x in e[1:]]
        if k == 'or':
            return Or(v)
        if k == 'and':
            return And(v)
        if k == 'sub':
            return And(v[0], Not(v[1]))
        return Or(And(v[0], Not(v[1])), And(v[1], Not(v[0])))


def uses(e, kind):
    return e[0] == kind or any(uses(x, kind) for x in e[1:] if isinstance(x, tuple) and x and isinstance(x[0], str))


def copies(e):
    ch = [x for x in e[1:] if isinstance(x, tuple) and x and isinstance(x[0], str)]
    return e[0] in ('not', 'or') and any(uses(x, 'byref') or uses(x, 'not') for x in ch) or any(copies(x) for x in ch)


def algebra(ctx):
    from lgr import classes as K
    cfg = ctx.cfg
    named = {'n0': leaf(ctx, 'n0', cfg['named']), 'n1': expr(ctx, 'n1', cfg['named_ops'], ['l1'], 1)}
    e = expr(ctx, 'e', cfg['ops'], cfg['leaves'], cfg['depth'])
    if e[0] == 'byref':          # not a definition
        return
    tagged = cps(ctx, 'tag', 2)
    everything = list(named.values()) + [e]
    # (the real library takes seconds to copy a complement)
    slow = any(copies(x) for x in everything)
    db = ModelDB(ctx) if slow or any(uses(x, 'prop') for x in everything) else database(ctx)
    lookup = {nm: build_cls(x, nm) for nm, x in named.items()}
    lookup[K.TAG_CLASSNAME_PREFIX + 't'] = K.Class(name='t', codepoints=tagged, implicit=True)
    cls = build_cls(e, 'top')
    cls.validate([], {}, lookup)
    sem = Sem(db, named, {'t': tagged})
    c = ctx.cp('c')
    ctx.assume(Or(c < 0xD800, c > 0xDFFF))
    early = [(x, lookup[nm].get_pattern({}, lookup, db, as_set=True)) for nm, x in named.items()]
    first = cls.get_pattern({}, lookup, db, as_set=True)
    cls.get_pattern({}, lookup, db)
    cls.get_pattern({}, lookup, db, is_look_behind=True)
    second = cls.get_pattern({}, lookup, db, as_set=True)
    ctx.check(Iff(c in first if not ctx.symbolic else first.has(c), sem.has(e, c)), 'membership is the set operation on the operands')
    ctx.check(Iff(c in second if not ctx.symbolic else second.has(c), sem.has(e, c)), 'a second evaluation gives the same set')
    for x, s in early + [(x, lookup[nm].get_pattern({}, lookup, db, as_set=True)) for nm, x in named.items()]:
        ctx.check(Iff(c in s if not ctx.symbolic else s.has(c), sem.has(x, c)), 'evaluation leaves the operands alone')
    tc = lookup[K.TAG_CLASSNAME_PREFIX + 't'].codepoints
    ctx.check(Iff(member(c, list(tc)), member(c, tagged)), 'evaluation leaves the operands alone')
    ctx.observe([bool(c in second if not ctx.symbolic else second.has(c)), bool(sem.has(e, c))])


def edits(ctx):
    """explicit classes after additions and deletions of code points, single or several at a time"""
    from lgr import classes as K
    xs = cps(ctx, 'x', ctx.pick('nx', ctx.cfg['init']))
    cls = K.Class(name='k', codepoints=xs)
    comp = K.ComplementClass(name='c')
    comp.add_child(K.Class(by_ref='k'))
    lookup = {'k': cls, 'c': comp}
    c = ctx.cp('c')
    ctx.assume(Or(c < 0xD800, c > 0xDFFF))
    want = Or([c == x for x in xs])
    db = database(ctx)
    for k in range(ctx.cfg['steps']):
        op = ctx.pick('op%d' % k, ['add', 'del', 'add2', 'del2', 'eval'])
        ys = cps(ctx, 'y%d' % k, 2 if op[-1] == '2' else 1)
        m = Or([c == y for y in ys])
        if op.startswith('add'):
            cls.add_codepoint(list(ys) if op[-1] == '2' else ys[0])
            want = Or(want, m)
        elif op.startswith('del'):
            cls.del_codepoint(list(ys) if op[-1] == '2' else ys[0])
            want = And(want, Not(m))
        s, t = cls.get_pattern({}, lookup, db, as_set=True), comp.get_pattern({}, lookup, db, as_set=True)
        ctx.check(Iff(c in s if not ctx.symbolic else s.has(c), want), 'an explicit class contains what was added and not deleted')
        ctx.check(Iff(c in t if not ctx.symbolic else t.has(c), Not(want)), 'the complement follows its operand')
    ctx.observe(bool(want))


HARNESSES = [
    Harness('algebra', algebra, 'class expressions of depth up to 2 (union of 2-3, intersection, difference, symmetric difference, complement) over explicit lists of 0-2 symbolic code '
            'points, tag classes (defined or not), properties (arbitrary predicates), references to named classes; membership of an arbitrary symbolic code point',
            quick=dict(ops=['leaf', 'not', 'or', 'or3', 'and', 'sub', 'xor'], leaves=['l0', 'l1', 'tag', 'prop', 'ref'], depth=1, named=['l1'], named_ops=['leaf', 'not']),
            thorough=dict(ops=['leaf', 'not', 'or', 'and', 'sub', 'xor'], leaves=['l0', 'l2', 'tag', 'prop', 'ref'], depth=2, named=['l1', 'prop'], named_ops=['not', 'sub']),
            must_reach=['membership is the set operation on the operands', 'evaluation leaves the operands alone']),
    Harness('nested', algebra, 'the same, nested, over smaller leaves',
            quick=dict(ops=['not', 'or', 'and', 'sub', 'xor'], leaves=['l1', 'ref'], depth=2, named=['l1'], named_ops=['not']),
            thorough=dict(ops=['not', 'or', 'or3', 'and', 'sub', 'xor'], leaves=['l1', 'ref'], depth=3, named=['l1'], named_ops=['not'])),
    Harness('edits', edits, 'explicit classes of 0-2 code points, then 3 (4) additions and deletions of 1-2 symbolic code points, evaluated after each',
            quick=dict(init=[0, 2], steps=2), thorough=dict(init=[0, 1, 2], steps=3)),
]
META = dict(assumptions=['code point sets of ICU behave as modelled in checks/icu.py (sampled paths are compared with the real ICU library)',
                         'Unicode properties are arbitrary predicates'],
            outside='expressions nested deeper than 2 (thorough 3); lists of more than 2 code points')
