"""Shared pieces of the harnesses: environment stubs and repertoire builders."""
from symex.sym import And, Or, Not, Implies, Iff, Ite, Sum, deep_eq, lex_lt, is_sym  # noqa
from symex.runner import Harness  # noqa


class RuleStub:
    """A whole-label rule whose answer is an arbitrary function of (label, evaluated code point, position):
    the contract the rest of the system relies on.  What real rules answer is P07's subject."""

    def truth(self, label, anchor=None, index=0):
        label = list(label)
        anchor = list(anchor) if anchor is not None else []
        return self.ctx.uf('%s_%d_%d' % (self.name, len(label), len(anchor)), label + anchor + [index])

    def matches(self, label, rules_lookup=None, classes_lookup=None, unicode_database=None, anchor=None, index=0):
        return self.truth(label, anchor, index)

    def validate(self, *a, **k):
        pass

    def iter_children(self):
        return iter(())

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return '<stub %s>' % self.name


def StubRule(ctx, name):
    """a RuleStub that is a rule for everything but its answer"""
    from lgr.rule import Rule
    r = type('StubRule', (RuleStub, Rule), {})(name)
    r.ctx = ctx
    return r


class StubDB:
    """A Unicode database whose answers are arbitrary functions of the code point."""

    def __init__(self, ctx, scripts=None, idna=False, version='6.3.0', props=('PVALID', 'CONTEXTJ', 'DISALLOWED')):
        self.ctx = ctx
        self.scripts = scripts
        self.idna = idna
        self.version = version
        self.props = list(props)

    def get_unicode_version(self):
        return self.version

    def get_idna_prop(self, cp):
        if not self.idna:
            return 'PVALID'
        return self.ctx.uf_choice('idna', [cp], self.props)

    def idna_valid(self, cp):
        if not self.idna:
            return True
        p = self.get_idna_prop(cp)
        return Or([p == x for x in self.props if x in ('PVALID', 'CONTEXTJ', 'CONTEXTO')])

    def get_script(self, cp, alpha4=False):
        if self.scripts is None:
            raise NotImplementedError
        return self.ctx.uf_choice('script', [cp], self.scripts)

    def get_char_name(self, cp):
        return 'NAME'

    def get_prop_value(self, cp, prop_name, prop_type=None):
        raise NotImplementedError


def cps(ctx, name, n):
    return tuple(ctx.cp('%s_%d' % (name, k)) for k in range(n))


def distinct(ctx, entries):
    """assume the tuples are pairwise different"""
    for i in range(len(entries)):
        for j in range(i):
            if len(entries[i]) == len(entries[j]):
                ctx.assume(Not(deep_eq(entries[i], entries[j])))


def lgr(db=None, **kw):
    from lgr.core import LGR
    return LGR(name='t', unicode_database=db, **kw)


def add_stub_rules(ctx, l, names):
    rules = {}
    for n in names:
        r = StubRule(ctx, n)
        l.rules_lookup[n] = r
        l.rules.append(n)
        rules[n] = r
    return rules


def ctx_ok(rules, when, not_when, label, anchor, index):
    """condition: the context rule (at most one of when / not_when) of an entry is satisfied"""
    if when is not None:
        return rules[when].truth(label, anchor, index)
    if not_when is not None:
        return Not(rules[not_when].truth(label, anchor, index))
    return True


def multiset_eq(a, b, eq=deep_eq):
    """condition: two lists are equal as multisets (sizes small); elements compared by eq"""
    if len(a) != len(b):
        return False
    conds = []
    for x in list(a) + list(b):
        conds.append(Sum([eq(x, y) for y in a]) == Sum([eq(x, y) for y in b]))
    return And(conds)


def set_eq(a, b, eq=deep_eq):
    return And([Or([eq(x, y) for y in b]) for x in a] + [Or([eq(x, y) for y in a]) for x in b])


def member(x, xs, eq=deep_eq):
    return Or([eq(x, y) for y in xs])


def seq_eq(a, b):
    return deep_eq(list(a), list(b))


# ------------------------------------------------------------------ reference semantics of labels
class Ent:
    """A repertoire entry of a reference repertoire."""

    def __init__(self, cp, when=None, not_when=None, variants=()):
        self.cp, self.when, self.not_when = tuple(cp), when, not_when
        self.variants = list(variants)


class Var:
    def __init__(self, cp, type=None, when=None, not_when=None):
        self.cp, self.type, self.when, self.not_when = tuple(cp), type, when, not_when


def build(l, ents):
    """add the reference repertoire to an LGR through its public API"""
    for e in ents:
        l.add_cp(list(e.cp), when=e.when, not_when=e.not_when)
    for e in ents:
        for v in e.variants:
            l.add_variant(list(e.cp), list(v.cp), v.type, when=v.when, not_when=v.not_when)


def ref_eligible(ents, rules, label):
    """longest match first scan; forks on what the path has not decided"""
    i = 0
    while i < len(label):
        took = 0
        for e in sorted(ents, key=lambda e: -len(e.cp)):
            if len(e.cp) > len(label) - i or not deep_eq(e.cp, label[i:i + len(e.cp)]):
                continue
            if ctx_ok(rules, e.when, e.not_when, label, e.cp, i):
                took = len(e.cp)
                break
        if not took:
            return False
        i += took
    return True


def ref_permutations(parts, rules):
    return [c[:3] for c in ref_choices(parts, rules)]


def ref_choices(parts, rules, i=0, prefix=()):
    """[(label, set of types, only variants, chosen code points per entry)] for one partition of the label into entries; a variant is usable when
    its context rule holds in the label made of the chosen prefix, the variant and the unchanged rest"""
    if i == len(parts):
        return [((), frozenset(), True, ())]
    e = parts[i]
    rest = tuple(c for p in parts[i + 1:] for c in p.cp)
    opts = []
    reflexive = False
    for v in e.variants:
        if ctx_ok(rules, v.when, v.not_when, prefix + v.cp + rest, v.cp, len(prefix)):
            if deep_eq(v.cp, e.cp):
                reflexive = True
            opts.append((v.cp, frozenset() if v.type is None else frozenset([v.type]), True))
    if not reflexive:
        opts.append((e.cp, frozenset(), False))
    out = []
    for cp, t, isv in opts:
        for lab, ts, only, chosen in ref_choices(parts, rules, i + 1, prefix + cp):
            out.append((cp + lab, t | ts, isv and only, (cp,) + chosen))
    return out


def shape_ents(ctx, shapes, types, distinct_cps=True):
    """Entries of one of the shapes.  A shape lists, per entry, its variants (target, context modes...): target 'v' a
    fresh code point, 's' a fresh pair, 't' a fresh triple, 'r' the entry itself, a digit that entry; mode '-' no rule, 'w' when, 'n'
    not-when; a trailing 'W' gives the entry the context rule 'we'."""
    shape = ctx.pick('shape', shapes)
    ents = []
    for k, vs in enumerate(shape):
        we = 'we' if vs and vs[-1] == 'W' else None
        ents.append(Ent(cps(ctx, 'e%d' % k, 1), when=we))
    if distinct_cps:
        distinct(ctx, [e.cp for e in ents])
    for k, vs in enumerate(shape):
        seen = []
        for j, spec in enumerate(x for x in vs if x != 'W'):
            tgt, modes = spec[0], spec[1:]
            m = ctx.pick('m%d_%d' % (k, j), modes) if modes else '-'
            cp = ents[k].cp if tgt == 'r' else ents[int(tgt)].cp if tgt.isdigit() else \
                cps(ctx, 'v%d_%d' % (k, j), {'s': 2, 't': 3}.get(tgt, 1))
            t = ctx.pick('t%d_%d' % (k, j), types)
            v = Var(cp, t, 'w' if m == 'w' else None, 'n' if m == 'n' else None)
            for o in seen:       # the LGR refuses the same variant twice
                if (o.when, o.not_when) == (v.when, v.not_when):
                    ctx.assume(Not(deep_eq(o.cp, v.cp)))
            seen.append(v)
            ents[k].variants.append(v)
    return ents


def seq_ents(ctx, names, variants, nvar=1):
    """Any subset of the entries a, b, c, ab, bc, abc over three distinct symbolic code points; each has, as picked from
    `variants`: '-' none, 'v' a symbolic variant, 'w' one with a when rule, 'W' none but the entry has a when rule"""
    base = cps(ctx, 'b', 3)
    distinct(ctx, [(c,) for c in base])
    ents = []
    for name, cp in (('a', base[:1]), ('b', base[1:2]), ('c', base[2:3]), ('ab', base[:2]), ('bc', base[1:3]), ('abc', base)):
        if name not in names or not ctx.flag('has_' + name):
            continue
        m = ctx.pick('v_' + name, variants)
        e = Ent(cp, when='we' if m == 'W' else None)
        if m in ('v', 'w'):
            e.variants.append(Var(cps(ctx, 'v_' + name, nvar), 'x', 'w' if m == 'w' else None))
        ents.append(e)
    return base, ents


def ref_partitions(ents, rules, label, i=0):
    """every way to divide the label into entries whose context rule holds"""
    if i == len(label):
        return [[]]
    return [[e] + p for e in ents if len(e.cp) <= len(label) - i and deep_eq(e.cp, label[i:i + len(e.cp)])
            and ctx_ok(rules, e.when, e.not_when, label, e.cp, i)
            for p in ref_partitions(ents, rules, label, i + len(e.cp))]


def symtext(ctx, name, n, lo=1, hi=0x10FFFF):
    """(text, codes): a text of n arbitrary characters"""
    codes = [ctx.int('%s%d' % (name, k), lo, hi) for k in range(n)]
    for c in codes:
        if hi >= 0xD800:
            ctx.assume(Or(c < 0xD800, c > 0xDFFF))
    if ctx.symbolic:
        from symex.strs import SymStr
        return SymStr.of(codes), codes
    return ''.join(map(chr, codes)), codes
