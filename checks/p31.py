"""Definitions of rules, classes and actions."""
from checks.common import *
from checks.history import attempt

LEAF = [97]


class Model:
    """the names defined so far"""

    def __init__(self):
        self.names = {'rule': [], 'class': []}

    def defined(self, kind, ref):
        return Or([name == ref for name in self.names[kind]])


class Maker:
    """builds definitions as a history chooses them, with the condition under which each is well formed"""

    def __init__(self, ctx, model, tag):
        self.ctx, self.model, self.tag, self.n = ctx, model, tag, 0
        self.good = []
        self.refused = False

    def text(self, what):
        self.n += 1
        return symtext(self.ctx, '%s%s%d' % (what, self.tag, self.n), 1)[0]

    def name(self, opts, top):
        """a name or none: exactly the direct definitions have one"""
        kind = self.ctx.pick('named%s%d' % (self.tag, self.n), opts) if len(opts) > 1 else opts[0]
        self.n += 1
        self.good.append((kind == 'named') == top)
        return self.text('name') if kind == 'named' else None

    def ref(self, kind):
        r = self.text('ref')
        self.good.append(self.model.defined(kind, r))
        return r

    def cls(self, shape, top=False, names=None):
        from lgr import classes as c
        if shape in ('ref', 'leaf', 'tag'):
            if shape == 'ref':
                self.good.append(not top)
                return c.Class(by_ref=self.ref('class'))
            kw = dict(codepoints=LEAF) if shape == 'leaf' else dict(from_tag='t')
            return c.Class(name=self.name(names or ['named' if top else None], top), **kw)
        op, children = shape
        k, lo, hi = {'union': (c.UnionClass, 2, 99), 'intersection': (c.IntersectionClass, 2, 2), 'difference': (c.DifferenceClass, 2, 2),
                     'symdiff': (c.SymmetricDifferenceClass, 2, 2), 'complement': (c.ComplementClass, 1, 1)}[op]
        o = k(name=self.name(names or ['named' if top else None], top))
        self.good.append(len(children) >= lo)
        for n, x in enumerate(children):
            x = self.cls(*x) if isinstance(x, list) else self.cls(x)
            ok, e = attempt(o.add_child, x)
            self.ctx.check(ok == (n < hi), 'a combination of classes takes as many operands as its definition allows')
            self.refused = self.refused or not ok
        return o

    def rule(self, shape, top=False, names=None):
        from lgr.rule import Rule
        if shape == 'ref':
            self.good.append(not top)
            return Rule(by_ref=self.ref('rule'))
        r = Rule(name=self.name(names or ['named' if top else None], top))
        for x in shape:
            r.add_child(self.matcher(x))
        return r

    def matcher(self, shape):
        from lgr import matcher as m
        if shape == 'char':
            return m.CharMatcher(LEAF)
        if shape in ('any', 'start', 'end', 'anchor'):
            return {'any': m.AnyMatcher, 'start': m.StartMatcher, 'end': m.EndMatcher, 'anchor': m.AnchorMatcher}[shape]()
        what, x = shape[0], shape[1]
        if what == 'rule':
            return m.RuleMatcher(self.rule(x, names=shape[2] if len(shape) > 2 else None))
        if what == 'class':
            return m.ClassMatcher(self.cls(x, names=shape[2] if len(shape) > 2 else None))
        o = {'choice': m.ChoiceMatcher, 'behind': m.LookBehindMatcher, 'ahead': m.LookAheadMatcher}[what]()
        for y in x:
            o.add_child(self.matcher(y))
        return o


def held(l):
    return [list(l.rules), list(l.classes), list(l.rules_lookup.items()), list(l.classes_lookup.items())]


def same(a, b):
    return And([deep_eq([x[0] if isinstance(x, tuple) else x for x in p], [x[0] if isinstance(x, tuple) else x for x in q]) for p, q in zip(a, b)]
               + [all(x[1] is y[1] for x, y in zip(p, q)) and len(p) == len(q) for p, q in list(zip(a, b))[2:]])


def definitions(ctx):
    """a history of definitions: each is refused, changing nothing, unless well formed or forced"""
    from lgr.exceptions import LGRException
    cfg = ctx.cfg
    l, m = lgr(), Model()
    for k, ops in enumerate(cfg['ops']):
        kind, shape = ctx.pick('op%d' % k, ops)
        mk = Maker(ctx, m, chr(97 + k))
        d = (mk.rule if kind == 'rule' else mk.cls)(shape, True, cfg['names'] if shape != 'ref' else None)
        force = k in cfg['forced'] and ctx.flag('force%d' % k)
        before = held(l)
        ok, e = attempt(l.add_rule if kind == 'rule' else l.add_class, d, force=force)
        good = And(mk.good)
        if force:
            ctx.check(ok, 'a forced definition is accepted')
        else:
            ctx.check(Iff(good, ok), 'a definition is accepted exactly when it refers to earlier ones and has a name exactly when on its own')
        if not ok:
            ctx.check(isinstance(e, LGRException), 'a refused definition raises an LGR error')
            ctx.check(same(before, held(l)), 'a refused definition changes nothing')
            continue
        table, names = (l.rules_lookup, l.rules) if kind == 'rule' else (l.classes_lookup, l.classes)
        ctx.check(table[d.name] is d, 'an accepted definition is found by its name')
        ctx.check(names[-1] == d.name, 'definitions are kept in order')
        m.names[kind] = m.names[kind] + [d.name]
        other = held(l)
        n = 2 if kind == 'rule' else 3
        ctx.check(And(len(names) == len(before[0 if kind == 'rule' else 1]) + 1,
                      And([Or(x == d.name, Or([And(x == y, a is b) for y, b in other[n]])) for x, a in before[n]]),
                      And([Or(x == d.name, Or([And(x == y, a is b) for y, b in before[n]])) for x, a in other[n]])), 'other definitions are as before')
    ctx.observe([len(l.rules), len(l.classes)])


def constructed(ctx):
    """combinations that are never allowed are refused when made"""
    from lgr.action import Action
    from lgr.classes import Class
    from lgr.exceptions import LGRException
    from lgr.rule import Rule
    from lgr.matcher import CharMatcher
    t = lambda what: symtext(ctx, what, 1)[0] if ctx.flag('has_' + what) else None
    what = ctx.pick('what', ['rule', 'class', 'action'])
    if what == 'rule':
        name, ref = t('name'), t('by')
        ok, e = attempt(Rule, name=name, by_ref=ref)
        ctx.check(ok == (name is None or ref is None), 'a reference to a rule has no name')
        if ok:
            r = e
            ok, e = attempt(r.add_child, CharMatcher(LEAF))
            ctx.check(ok == (ref is None), 'a reference to a rule has no content')
            ctx.check(len(r.children) == int(ok), 'a reference to a rule has no content')
    elif what == 'class':
        name, ref, tag, prop = t('name'), t('by'), t('tag'), t('prop')
        refs = [symtext(ctx, 'ref', 1)[0]] if ctx.flag('has_ref') else []
        ok, e = attempt(Class, name=name, by_ref=ref, from_tag=tag, unicode_property=prop, ref=refs)
        ctx.check(ok == (ref is None or (name is None and tag is None and prop is None and not refs)), 'a reference to a class has nothing else')
    else:
        match, nm = t('match'), t('nm')
        ok, e = attempt(Action, disp='d', match=match, not_match=nm)
        ctx.check(ok == (match is None or nm is None), 'an action has at most one of match and not-match')
    ctx.check(ok or isinstance(e, LGRException), 'a refused definition raises an LGR error')
    ctx.observe(ok)


LEAFS = [('rule', ['char']), ('class', 'leaf')]
RULES = [('rule', x) for x in (['char'], [['rule', 'ref']], [['class', 'ref']], [['rule', ['char'], ['named', None]]], [['class', 'leaf', ['named', None]]], 'ref')]
NESTED = [('rule', [[w, [['rule', 'ref']]]]) for w in ('choice', 'behind', 'ahead')] + [('rule', [[w, ['char', ['class', 'ref']]]]) for w in ('choice', 'behind', 'ahead')] \
    + [('rule', [['rule', [['class', 'ref'], ['rule', 'ref']]], 'anchor']), ('rule', ['char', 'any', ['rule', 'ref'], 'end']), ('rule', [['class', ('union', ['leaf', 'ref'])]])]
CLASSES = [('class', 'leaf'), ('class', 'ref'), ('class', 'tag')] + [('class', (op, ['leaf'] * n)) for op in ('union', 'intersection', 'difference', 'symdiff', 'complement') for n in (0, 1, 2, 3)]
CREFS = [('class', (op, ['leaf', 'ref'] if op != 'complement' else ['ref'])) for op in ('union', 'intersection', 'difference', 'symdiff', 'complement')] \
    + [('class', ('union', [[('complement', ['ref'])], ['leaf', False, ['named', None]]])), ('class', ('intersection', [['leaf', False, ['named', None]], 'ref'])), ('class', ('complement', [[('union', ['leaf'])]]))]

HARNESSES = [
    Harness('definitions', definitions, 'histories of 3 definitions, the last of any shape: rules and classes (references, nested definitions, combinations of 0-3 operands), arbitrary one-character names or none, forced or not',
            quick=dict(ops=[LEAFS, [('rule', ['char']), ('rule', [['rule', 'ref']]), ('class', ('complement', ['ref']))], RULES + NESTED + CLASSES + CREFS], names=['named', None], forced=[1, 2]),
            thorough=dict(ops=[LEAFS, RULES + CLASSES[:3] + CREFS[:5], RULES + NESTED + CLASSES + CREFS], names=['named', None], forced=[0, 1, 2]),
            must_reach=['a refused definition changes nothing', 'a forced definition is accepted', 'other definitions are as before', 'a combination of classes takes as many operands as its definition allows']),
    Harness('constructed', constructed, 'rules, classes and actions made with any combination of name, reference, tag, property and references, of one arbitrary character each', quick=dict(),
            must_reach=['a reference to a rule has no content', 'a reference to a class has nothing else', 'an action has at most one of match and not-match']),
]
META = dict(assumptions=[], outside='names of more than one character, uniqueness of names (not required by add_rule and add_class), actions citing undefined rules (not checked by add_action), look-around and anchor placement (not checked)')
