"""Rules evaluated in between edits."""
import copy
import pickle
from checks.common import *
from checks.history import Model, attempt
from checks.icu import database, ModelDB
from checks.p08 import build_cls, Sem
from lgr.exceptions import RuleError

HAN = ('prop', 'Han')
# name: (parts of the rule, what it needs); a part is a class expression or a rule
PLAIN = {'tag': ('tag', 't'), 'other': ('tag', 'u'), 'comp': ('not', ('tag', 't')), 'named': ('byref', 'c'), 'late': ('byref', 'k'), 'prop': ('and', ('not', ('tag', 't')), HAN)}
VIA = {'ref': 'tag', 'ref2': 'ref', 'later': 'new'}            # rules that are references to other rules


def anonymous(part):
    from lgr import rule as R, matcher as M
    r = R.Rule()
    r.add_child(M.StartMatcher())
    r.add_child(part)
    return r


def make(name):
    from lgr import rule as R, matcher as M
    r = R.Rule(name=name)
    if name in VIA:
        r.add_child(M.RuleMatcher(R.Rule(by_ref=VIA[name])))
    elif name == 'nested':
        c = M.ChoiceMatcher()
        c.add_child(M.RuleMatcher(anonymous(M.ClassMatcher(build_cls(('tag', 't'))))))
        c.add_child(M.ClassMatcher(build_cls(('tag', 'u'))))
        r.add_child(c)
    elif name == 'look':
        m = M.LookAheadMatcher()
        m.add_child(M.ClassMatcher(build_cls(('tag', 't'))))
        r.add_child(m)
        r.add_child(M.AnyMatcher())
    else:
        r.add_child(M.ClassMatcher(build_cls(PLAIN[name])))
    return r


class DB(ModelDB):
    """the n-th Unicode database, with properties of its own"""

    def __init__(self, ctx, nm, c):
        super().__init__(ctx)
        self.nm, self.c = nm, c

    def prop(self, name, cp):
        return self.ctx.uf('prop_%s_%s' % (self.nm, name), [cp])

    def prop_generic(self, name):
        if name not in self.generic:
            self.generic[name] = g = self.ctx.bool('generic_%s_%s' % (self.nm, name))
            self.ctx.assume(Or(g, Not(self.prop(name, self.c))))
        return self.generic[name]


class World:
    def __init__(self, l, model, named, rules, db):
        self.l, self.model, self.named, self.rules, self.db = l, model, named, rules, db
        self.plain = dict(PLAIN)

    def truth(self, name, c):
        """None when the rule cannot be evaluated"""
        if name not in self.rules:
            return None
        if name in VIA:
            return self.truth(VIA[name], c)
        tags = {t: [m[0] for e in self.model.entries if t in e.tags for m in e.members()] for t in 'tu'}
        sem = Sem(self.db, self.named, tags)
        if self.plain.get(name) == 'nothing':
            return False
        if name in ('nested', 'look', 'new'):
            return Or([c == x for x in tags['t'] + (tags['u'] if name == 'nested' else [])])
        expr = self.plain[name]
        if expr[0] == 'byref' and expr[1] not in self.named:
            return None
        return sem.has(expr, c)

    def evaluate(self, ctx, names, c):
        for name in names:
            rule = self.l.rules_lookup.get(name)
            if rule is None:
                continue
            ok, got = attempt(rule.matches, [c], self.l.rules_lookup, self.l.classes_lookup, self.l.unicode_database)
            want = self.truth(name, c)
            if want is None:
                ctx.check(not ok and isinstance(got, RuleError), 'a rule without its definitions cannot be evaluated')
            else:
                ctx.check(ok and Iff(got, want), 'a rule is evaluated on the current LGR')


def start(ctx, names, c):
    l = lgr()
    db = DB(ctx, 'a', c)
    l.unicode_database = db
    from lgr import classes as K
    l.add_class(build_cls(('or', ('tag', 't'), ('tag', 'u')), 'c'), force=True)
    for n in names:
        l.add_rule(make(n), force=True)
    return World(l, Model(), {'c': ('or', ('tag', 't'), ('tag', 'u'))}, set(names), db)


def edit(ctx, w, op, nm, xs):
    """one edit of a world; xs: code points used so far"""
    l, m = w.l, w.model
    if op[:3] == 'add':
        tags = {'add': ['t'], 'addu': ['u', 't'], 'add0': []}[op]
        c = cps(ctx, nm, 1)
        ok, exc = attempt(l.add_cp, list(c), tag=list(tags))
        ctx.check(Iff(ok, m.add(c, tags=tags)), 'edits are done')
        xs.append(c[0])
    elif op == 'range':
        f = ctx.cp(nm)
        ctx.assume(f < 0x10FFFF)
        ok, exc = attempt(l.add_range, f, f + 1, tag=['t'])
        ctx.check(Iff(ok, m.add_range(f, 2, tags=['t'])), 'edits are done')
        xs.append(f)
    elif op == 'del':
        if not xs:
            return
        c = xs[ctx.pick(nm + 'x', list(range(len(xs))))] + ctx.pick(nm + 'y', [0, 1])
        ok, exc = attempt(l.del_cp, [c])
        ctx.check(Iff(ok, m.delete((c,)) is not None), 'edits are done')
    elif op == 'delrange':
        for e in m.entries:
            if e.rng:
                l.del_range(e.rng[0], e.rng[1])
                m.entries.remove(e)
                return
    elif op == 'expand':
        l.expand_ranges()
        for e in [e for e in m.entries if e.rng]:
            m.expand(e.rng[0], e.rng[1])
    elif op == 'deltag':
        l.del_tag('t')
        for e in m.entries:
            e.tags = [x for x in e.tags if x != 't']
    elif op == 'class':
        if 'k' not in w.named:
            l.add_class(build_cls(('tag', 't'), 'k'))
            w.named['k'] = ('tag', 't')
    elif op == 'rule':
        if 'new' not in w.rules:
            from lgr import rule as R, matcher as M
            r = R.Rule(name='new')
            r.add_child(M.ClassMatcher(build_cls(('tag', 't'))))
            l.add_rule(r)
            w.rules.add('new')
    elif op == 'reclass':
        l.add_class(build_cls(('tag', 'u'), 'c'))
        w.named['c'] = ('tag', 'u')
    elif op == 'rerule':
        if 'tag' in w.rules:
            from lgr import rule as R, matcher as M
            r = R.Rule(name='tag')
            r.add_child(M.ClassMatcher(build_cls(('tag', 'u'))))
            l.add_rule(r)
            w.plain['tag'] = ('tag', 'u')
    elif op == 'child':
        if 'tag' in w.rules and not w.rules & set(VIA):         # (rules referring to it are behind its back)
            from lgr import matcher as M
            l.rules_lookup['tag'].add_child(M.AnyMatcher())
            w.plain['tag'] = 'nothing'          # for labels of one code point
    elif op == 'db':
        w.db = DB(ctx, nm, w.db.c)
        l.unicode_database = w.db


def history(ctx):
    cfg = ctx.cfg
    names = ctx.pick('rules', cfg['rules'])
    c = ctx.cp('c')
    ctx.assume(Or(c < 0xD800, c > 0xDFFF))
    w = start(ctx, names, c)
    worlds, xs = [w], []
    for k, ops in enumerate(cfg['ops']):
        op = ctx.pick('op%d' % k, ops)
        if op == 'copy':
            l2 = copy.deepcopy(w.l) if ctx.symbolic or ctx.pick('how', [0, 1]) else pickle.loads(pickle.dumps(w.l))
            l2.unicode_database = w.db
            m2 = copy.deepcopy(w.model)
            worlds.append(World(l2, m2, dict(w.named), set(w.rules), w.db))
            worlds[-1].plain = dict(w.plain)
        elif op == 'eval':
            w.evaluate(ctx, names, c)
        elif op == 'swap':
            w = worlds[-1] if w is worlds[0] else worlds[0]
        else:
            edit(ctx, w, op, 'x%d' % k, xs)
    for x in worlds:
        x.evaluate(ctx, list(names) + ['new'], c)
    ctx.observe([[sorted(map(str, x.named)), len(x.model.entries)] for x in worlds])


def labels(ctx):
    """labels evaluated before and after edits"""
    from lgr.action import Action
    cfg = ctx.cfg
    e, d = cps(ctx, 'e', 1), cps(ctx, 'd', 1)
    distinct(ctx, [e, d])
    w = start(ctx, ('tag', 'ref'), e[0])
    l, m = w.l, w.model
    how = ctx.pick('how', ['when', 'not', '-'])
    l.add_cp(list(e), **({'when': 'ref'} if how == 'when' else {'not_when': 'tag'} if how == 'not' else {}))
    m.add(e)
    l.add_variant(list(e), list(d), 'blocked', when='tag')
    act = ctx.pick('action', [None, 'match', 'not_match'])
    if act:
        l.add_action(Action('x', **{act: 'tag'}))
    for k, ops in enumerate(cfg['ops']):
        op = ctx.pick('op%d' % k, ops)
        if op in ('tagged', 'plain'):
            tags = ['t'] if op == 'tagged' else []
            ok, exc = attempt(l.add_cp, list(d), tag=list(tags))
            ctx.check(Iff(ok, m.add(d, tags=tags)), 'edits are done')
        elif op == 'del':
            ok, exc = attempt(l.del_cp, list(d))
            ctx.check(Iff(ok, m.delete(d) is not None), 'edits are done')
        elif op == 'deltag':
            l.del_tag('t')
            for x in m.entries:
                x.tags = [y for y in x.tags if y != 't']
        elif op == 'eval':
            label = e + d if ctx.pick('long%d' % k, [False, True]) else e
            there, tagged = m.find(d) is not None, bool([x for x in m.entries if x.tags])
            fits = len(label) == 1 or there
            hit = tagged and len(label) == 2
            ok = fits and (how == '-' or hit == (how == 'when'))
            res = l.test_label_eligible(list(label), collect_log=False)
            disp = 'x' if act and hit == (act == 'match') else 'valid'
            ctx.check(res[0] == ok, 'a label is evaluated on the current LGR')
            if ok:
                ctx.check(res[3] == disp, 'a label is evaluated on the current LGR')
                got = [tuple(v.cp) for v in l.get_variants(list(e))]
                ctx.check(len(got) == 1, 'edits are done')
    ctx.observe([how, act, len(m.entries)])


EDITS = ['add', 'addu', 'add0', 'range', 'del', 'delrange', 'expand', 'deltag', 'class', 'rule', 'db', 'reclass', 'rerule', 'child']
TAGGED = [('tag', 'other', 'comp'), ('ref', 'tag', 'nested', 'look')]
RULES = TAGGED + [('named', 'late', 'later', 'ref2', 'ref', 'tag'), ('prop',)]
EVAL = 'a rule is evaluated on the current LGR'
HARNESSES = [
    Harness('edit', history, 'an edit, an evaluation, an edit', quick=dict(rules=RULES, ops=[['add', 'addu', 'range', 'add0'], ['eval'], EDITS]),
            must_reach=[EVAL, 'a rule without its definitions cannot be evaluated']),
    Harness('edits', history, 'two edits with or without evaluations in between', quick=dict(rules=TAGGED, ops=[['add', 'range'], ['eval', '-'], EDITS, ['eval'], ['add', 'del', 'deltag', 'expand', 'delrange', 'addu']]),
            thorough=dict(rules=RULES, ops=[['add', 'range', 'addu'], ['eval', '-'], EDITS, ['eval', '-'], EDITS, ['eval'], EDITS]),
            must_reach=[EVAL]),
    Harness('copies', history, 'edits and evaluations of an LGR and of a copy', quick=dict(rules=[('tag', 'comp', 'ref', 'nested')], ops=[['add', 'range'], ['eval', '-'], ['copy'], ['eval', '-'], ['-', 'swap'], ['add', 'del', 'deltag', 'rule', 'db']]),
            thorough=dict(rules=RULES, ops=[['add', 'range'], ['eval', '-'], ['copy'], ['eval', '-'], ['-', 'swap'], EDITS, ['eval'], ['-', 'swap'], EDITS]),
            must_reach=[EVAL]),
    Harness('labels', labels, 'labels of 1-2 code points with context rules and actions, 3 edits with evaluations in between',
            quick=dict(ops=[['tagged', 'plain'], ['eval', '-'], ['del', 'deltag'], ['eval'], ['tagged', 'plain', 'del'], ['eval']]),
            must_reach=['a label is evaluated on the current LGR']),
]
META = dict(
    assumptions=['The Unicode database is the model of checks/icu.py: property values are arbitrary functions of the code point, regular expressions are matched by the model.'],
    outside='Changes made to rule and class objects behind the back of the LGR; sequences with tags; more than 3 edits; other rules than those listed (their meaning is P07 and P08).')
