"""Merging a set of LGRs."""
import re
from checks.common import *
from checks.p15 import where, RULES
from checks.p20 import PART


def Stub(name, references=(), cls=False):
    if cls:
        from lgr.classes import Class
        return Class(name=name, codepoints=[0x61], ref=list(references))
    from lgr.rule import Rule
    return Rule(name=name, ref=list(references))


def merge(ctx, members, real=True):
    """merge_lgr_set up to the LGR it serializes; that writing and reading it back preserves it is P25's subject.
    A replay writes and reads it."""
    import lgr.tools.merge_set as m
    if real and not ctx.symbolic:
        return m.merge_lgr_set(list(members), 'merged')
    saved = m.serialize_lgr_xml, m.XMLParser, m.BytesIO

    class Parser:
        def __init__(self, source, filename):
            self.source = source

        def parse_document(self):
            return self.source
    m.serialize_lgr_xml, m.XMLParser, m.BytesIO = (lambda l: l), Parser, (lambda x: x)
    try:
        return m.merge_lgr_set(list(members), 'merged')
    finally:
        m.serialize_lgr_xml, m.XMLParser, m.BytesIO = saved


SCRIPTS = ['und-Latn', 'und-Cyrl', 'und-Grek']       # sorted by script when merged: Cyrl, Grek, Latn


class Member:
    pass


def member_lgr(ctx, k, shapes):
    cfg = ctx.cfg
    l = lgr()
    m = Member()
    m.lgr, m.script = l, cfg.get('scripts', SCRIPTS)[k]
    l.metadata.languages = [m.script]
    for r in cfg['rules']:
        l.rules.append(r)
        l.rules_lookup[r] = Stub(r)
        l.rules_xml.append('<rule name="%s"/>' % r)
    m.refs = {}
    for value in ctx.pick('refs%d' % k, cfg['refs']):
        m.refs[l.add_reference(value)] = value
    shape = ctx.pick('shape%d' % k, shapes)
    m.ents = [cps(ctx, '%s%d' % ('abc'[k], j), n) for j, n in enumerate(shape)]
    distinct(ctx, m.ents)
    if cfg.get('linked') and len(shape) > 2:         # the entries are interchangeable
        for a, b in zip(m.ents, m.ents[1:]):
            ctx.assume(a[0] < b[0])
    cls = (0,) * len(shape) if cfg.get('linked') else ctx.pick('cls%d' % k, PART[len(shape)])
    m.rules, m.tags, m.cites, m.vars, m.comments = [], [], [], [], []
    ids = sorted(m.refs)
    for j, e in enumerate(m.ents):
        rule = RULES[ctx.pick('w%d_%d' % (k, j), cfg['ents'])]
        tags = ctx.pick('t%d_%d' % (k, j), cfg['tags']) if len(e) == 1 else ()
        cite = [i for i in ids if ctx.flag('c%d_%d_%s' % (k, j, i))] if cfg.get('cite') else []
        comment = ctx.pick('k%d_%d' % (k, j), cfg.get('comments', [None]))
        l.add_cp(list(e), when=rule[0], not_when=rule[1], tag=list(tags), ref=cite, comment=comment)
        m.comments.append(comment)
        m.rules.append(rule)
        m.tags.append(tags)
        m.cites.append([m.refs[i] for i in cite])
    both = {}
    for i, a in enumerate(m.ents):
        for j, b in enumerate(m.ents):
            if i == j or cls[i] != cls[j]:
                continue
            if i < j:
                both[i, j] = ctx.pick('v%d_%d_%d' % (k, i, j), cfg['modes'])
            for one in both[min(i, j), max(i, j)]:
                w, n = RULES[one]
                cite = ids[:1] if cfg.get('cite') else []
                l.add_variant(list(a), list(b), 'allocatable', when=w, not_when=n, ref=cite)
                m.vars.append((a, b, w, n, [m.refs[x] for x in cite]))
    r = ctx.pick('refl%d' % k, cfg['refl'])
    if r:
        for one in r:
            w, n = RULES[one]
            l.add_variant(list(m.ents[0]), list(m.ents[0]), 'r', when=w, not_when=n)
            m.vars.append((m.ents[0], m.ents[0], w, n, []))
    m.actions = ctx.pick('acts%d' % k, cfg.get('actions', [()]))
    from lgr.action import Action
    for d, rule, neg, kind in m.actions:
        sets = {kind.replace('-', '_'): ['x', 'y']} if kind else {}
        l.actions.append(Action(d, **{'not_match' if neg else 'match': rule}, **sets))
        l.actions_xml.append('<action disp="%s"%s%s/>' % (d, ' %smatch="%s"' % ('not-' * neg, rule) if rule else '', ' %s="x y"' % kind if kind else ''))
    return m


def index_of(ents, cp):
    return where(ents, cp)


def merged(ctx):
    from lgr.exceptions import CharInvalidContextRule
    from checks.history import attempt
    cfg = ctx.cfg
    ms = [member_lgr(ctx, k, s) for k, s in enumerate(cfg['members'])]
    order = sorted(ms, key=lambda m: m.script)
    nodes = []
    for m in ms:
        for e in m.ents:
            if where(nodes, e) is None:
                nodes.append(e)
    cls = list(range(len(nodes)))
    for m in ms:
        for a, b, _, _, _ in m.vars:
            x, y = cls[where(nodes, a)], cls[where(nodes, b)]
            cls = [min(x, y) if c in (x, y) else c for c in cls]
    # entries with different context rules in two members cannot be merged
    conflict = False
    for e in nodes:
        held = [m.rules[where(m.ents, e)] for m in ms if where(m.ents, e) is not None]
        if len({r[0] for r in held if r[0]}) > 1 or len({r[1] for r in held if r[1]}) > 1:
            conflict = True
        if any(r[0] for r in held) and any(r[1] for r in held):
            conflict = True
    ok, out = attempt(merge, ctx, [m.lgr for m in ms])
    if conflict:
        ctx.check(not ok and isinstance(out, CharInvalidContextRule), 'entries with different rules are refused')
        return
    if not ok:
        raise out
    chars = list(out.repertoire.all_repertoire())
    ctx.check(multiset_eq([c.cp for c in chars], nodes), 'the entries are those of the members')
    value = lambda ids: [str(out.reference_manager[i]['value']) if i in out.reference_manager else None for i in ids]
    pairs = []
    for c in chars:
        k = where(nodes, c.cp)
        e = nodes[k]
        hold = [(m, where(m.ents, e)) for m in order if where(m.ents, e) is not None]
        ctx.check(set(c.tags) == {m.script + '-' + t for m, j in hold for t in m.tags[j]}, 'tags say where they come from')
        ctx.check(set(value(c.references)) == {x for m, j in hold for x in m.cites[j]}, 'references of entries are those of the members')
        ctx.check(set((c.comment or '').split('|')) - {''} == {m.comments[j] for m, j in hold} - {None}, 'comments are those of the members')
        rules = [(m, m.rules[j]) for m, j in hold if m.rules[j] != (None, None)]
        if not rules:
            ctx.check(c.when is None and c.not_when is None, 'no rule is made up')
        else:
            name = rules[0][1][0] or rules[0][1][1]
            want = '-'.join([m.script for m, _ in reversed(rules)] + [name])
            ctx.check((c.when, c.not_when) == ((want, None) if rules[0][1][0] else (None, want)), 'rules of entries say where they come from')
            ctx.check(want in out.rules, 'the rule of an entry exists')
        for v in c.get_variants():
            pairs.append((e, v.cp, v.when, v.not_when, value(v.references)))
            ctx.check(v.type == 'blocked', 'variants are blocked')
    for i, p in enumerate(pairs):
        ctx.check(Not(Or([And(deep_eq(p[0], q[0]), deep_eq(p[1], q[1]), p[2] == q[2], p[3] == q[3]) for q in pairs[:i]])), 'each variant once')
    pre = lambda m, r: None if r is None else m.script + '-' + r
    theirs = [(a, b, pre(m, w), pre(m, n), r) for m in ms for a, b, w, n, r in m.vars]
    for t in theirs:
        ctx.check(Or([And(deep_eq(p[0], t[0]), deep_eq(p[1], t[1]), p[2] == t[2], p[3] == t[3]) for p in pairs]), 'variants of the members are there under their rule')
    for p in pairs:
        src = Or([And(deep_eq(p[0], t[0]), deep_eq(p[1], t[1]), p[2] == t[2], p[3] == t[3], set(p[4]) <= set(t[4])) for t in theirs])
        added = And(p[2] is None, p[3] is None, p[4] == [], Not(deep_eq(p[0], p[1])),
                    len(ms) > 2 or Not(Or([And(deep_eq(p[0], t[0]), deep_eq(p[1], t[1])) for t in theirs])))
        ctx.check(Or(src, added), 'other variants are unconditional and new')
    want = [(a, b) for i, a in enumerate(nodes) for j, b in enumerate(nodes) if i != j and cls[i] == cls[j]]
    refl = [t[:2] for t in theirs if len(t[0]) == len(t[1]) and deep_eq(t[0], t[1])]
    ctx.check(set_eq([p[:2] for p in pairs], want + refl), 'the relation is the smallest symmetric and transitive one')
    ctx.check({str(x['value']) for x in out.reference_manager.values()} == {v for m in ms for v in m.refs.values()}, 'the references are those of the members')
    want = [(d, pre(m, r) if not neg else None, pre(m, r) if neg else None, kind) for m in order for d, r, neg, kind in m.actions]
    kinds = lambda x: [k for k, v in (('any-variant', x.any_variant), ('all-variants', x.all_variants), ('only-variants', x.only_variants)) if v == {'x', 'y'}] or [None]
    ctx.check([(x.disp, x.match, x.not_match, kinds(x)[0]) for x in out.actions] == want, 'actions are those of the members in order')
    attrs = lambda x: sorted(re.findall(r'([-\w]+)="([^"]*)"', x))
    ctx.check([attrs(x) for x in out.actions_xml] == [sorted([('disp', d)] + [(a, v) for a, v in (('match', r), ('not-match', n), (k, 'x y')) if v and a]) for d, r, n, k in want] and
              all(x.startswith('<action ') for x in out.actions_xml), 'actions are written with their rule')
    for m in ms:
        ctx.check(set_eq([c.cp for c in m.lgr.repertoire.all_repertoire()], m.ents), 'members keep their entries')
    ctx.observe([len(pairs), sorted(out.rules)])


def metadata(ctx):
    from lgr.metadata import Version, Description, Scope
    cfg = ctx.cfg
    ms = []
    for k in range(len(cfg['langs'])):
        l = lgr()
        m = Member()
        m.lgr, md = l, l.metadata
        p = lambda n: ctx.pick('%s%d' % (n, k), cfg.get(n, [None]))
        m.langs, m.scopes = ctx.pick('langs%d' % k, cfg['langs'][k]), p('scopes') or ()
        md.languages, md.scopes = list(m.langs), [Scope(x) for x in m.scopes]
        m.version, m.desc, m.start, m.end, m.unicode = p('version'), p('desc'), p('start'), p('end'), p('unicode') or '6.3.0'
        if m.version is not None:
            md.version = Version(*m.version)
        if m.desc is not None:
            md.description = Description(*m.desc)
        md.validity_start, md.validity_end, md.unicode_version = m.start, m.end, m.unicode
        l.add_cp([0x61 + k])
        ms.append(m)
    out = merge(ctx, [m.lgr for m in ms]).metadata
    ctx.check(set(out.languages) == {x for m in ms for x in m.langs} and len(set(out.languages)) == len(out.languages), 'languages are those of the members')
    ctx.check({x.value for x in out.scopes} == {x for m in ms for x in m.scopes} and len(set(out.scopes)) == len(out.scopes), 'scopes are those of the members')
    both = lambda vs, f: f([v for v in vs if v is not None], default=None)
    ctx.check(out.validity_start == both([m.start for m in ms], max), 'validity starts when all members are valid')
    ctx.check(out.validity_end == both([m.end for m in ms], min), 'validity ends when one member is not')
    ctx.check(out.unicode_version == max((m.unicode for m in ms), key=lambda v: [int(x) for x in v.split('.')]), 'the Unicode version is the latest')
    version = out.version or Version('')
    parts = lambda i: {m.version[i] for m in ms if m.version is not None and m.version[i] is not None}
    ctx.check(set((version.value or '').split('|')) - {''} == parts(0) and set((version.comment or '').split('|')) - {''} == parts(1), 'versions are those of the members')
    text = out.description.value if out.description is not None else ''
    ctx.check(all(text.count(m.desc[0]) >= 1 for m in ms if m.desc is not None), 'descriptions are those of the members')
    if any(m.desc is not None for m in ms) and all(m.desc is None or m.desc[1] == 'text/html' for m in ms):
        ctx.check(out.description.description_type == 'text/html', 'descriptions that are all HTML stay HTML')
    ctx.observe([list(out.languages), out.unicode_version, version.value or '', text])


PARTS = ['', '<class by-ref="c"/>', '<class from-tag="t_1"/>', '<class property="sc:Latn" ref="0"/>', '<rule by-ref="r"/>', '<char cp="0061"/>', '<union ref="1"><class by-ref="d"/></union>', '<class from-tag="sc:Latn"/>']
HEADS = ['', ' ref="0"', ' ref="1 0"', ' comment="name"']


def rewritten(text, script, refs):
    """every name, reference to a name and tag of the member prefixed, every citation replaced by the cited text"""
    def one(m):
        key, v = m.group(1), m.group(2)
        if key in ('name', 'by-ref') or key == 'from-tag' and ':' not in v:
            v = script + '-' + v
        elif key == 'ref':
            v = ' '.join(refs[x] for x in v.split())
        return ' %s="%s"' % (key, v)
    return re.sub(r' ([-\w]+)="([^"]*)"', one, text)


def texts(ctx):
    cfg = ctx.cfg
    ms = []
    for k in range(2):
        l = lgr()
        m = Member()
        m.lgr, m.script = l, SCRIPTS[k]
        l.metadata.languages = [m.script]
        m.refs = {l.add_reference(v): v for v in ctx.pick('refs%d' % k, cfg['refs'])}
        name = ctx.pick('name%d' % k, cfg['names'])
        head, part, more = [ctx.pick('%s%d' % (x, k), cfg[x][k]) for x in ('head', 'part', 'more')]
        ctx.assume('by-ref="r"' not in part + more or name == 'r')
        text = lambda tag: '<%s name="%s"%s>%s%s</%s>' % (tag, name, head, part, more, tag)
        m.name = name
        m.rule, m.cls = text('rule'), text('class')
        l.rules.append(name)
        l.rules_lookup[name] = Stub(name, re.findall(r' ref="(\d)', m.rule)[:1])
        l.rules_xml.append(m.rule)
        l.classes.append(name)
        l.classes_lookup[name] = Stub(name, cls=True)
        l.classes_xml.append(m.cls)
        ms.append(m)
    out = merge(ctx, [m.lgr for m in ms], False)
    order = sorted(ms, key=lambda m: m.script)
    cited = {k: str(x['value']) for k, x in out.reference_manager.items()}
    names = [m.script + '-' + m.name for m in order]
    ctx.check(list(out.rules) == names and list(out.classes) == names, 'rules and classes are there under the name of their member')
    got = lambda text: re.sub(r' ref="([^"]*)"', lambda m: ' ref="%s"' % ' '.join(cited.get(x, '?') for x in m.group(1).split()), text)
    ctx.check([got(x) for x in out.rules_xml] == [rewritten(m.rule, m.script, m.refs) for m in order], 'rules refer to the names and references of their member')
    ctx.check([got(x) for x in out.classes_xml] == [rewritten(m.cls, m.script, m.refs) for m in order], 'classes refer to the names and references of their member')


ACTIONS = [(), (('d', 'w', 0, None), ('e', 'n', 1, None)), (('w', 'w', 1, 'only-variants'), ('d', None, 0, 'any-variant'))]
BASE = dict(rules=('w', 'n', 'v', 'm'), refs=[()], ents=['-'], tags=[()], modes=['-'], refl=[None])
REACH = ['the entries are those of the members', 'the relation is the smallest symmetric and transitive one', 'variants of the members are there under their rule']
HARNESSES = [
    Harness('relations', merged, 'two LGRs of 1-3 entries coinciding in every way, each with every symmetric and transitive relation',
            quick=dict(BASE, members=[[(1, 1)], [(1, 1), (2, 1), (1, 1, 1)]]),
            thorough=dict(BASE, members=[[(1, 1), (2, 1), (1, 1, 1)], [(1, 1), (2, 1), (1, 1, 1)]]), must_reach=REACH),
    Harness('large', merged, 'two LGRs of 3-4 entries that are variants of each other, coinciding in every way', quick=dict(BASE, members=[[(1, 1, 1, 1)], [(1, 1, 1)]], linked=True),
            thorough=dict(BASE, members=[[(1, 1, 1, 1)], [(1, 1, 1), (1, 1, 1, 1)]], linked=True), must_reach=REACH),
    Harness('three', merged, 'three LGRs of 2 entries (quick: variants of each other)', quick=dict(BASE, members=[[(1, 1)], [(1, 1)], [(1, 1)]], linked=True),
            thorough=dict(BASE, members=[[(1, 1), (2, 1)], [(1, 1)], [(1, 1), (1, 2)]]), must_reach=REACH),
    Harness('rules', merged, 'variants and entries under context rules', quick=dict(BASE, members=[[(1, 1)], [(1, 1)]], modes=['-', 'w', 'wn']),
            thorough=dict(BASE, members=[[(1, 1)], [(1, 1), (1, 1, 1)]], modes=['-', 'w', 'v', 'wn', '-w']), must_reach=REACH),
    Harness('entry rules', merged, 'entries under context rules, equal or not', quick=dict(BASE, members=[[(1,)], [(1,)], [(1,)]], ents=['-', 'w', 'v', 'n']),
            thorough=dict(BASE, members=[[(1,), (1, 1)], [(1,)], [(1,)]], ents=['-', 'w', 'v', 'n', 'm']), must_reach=['entries with different rules are refused', 'rules of entries say where they come from']),
    Harness('reflexive', merged, 'reflexive variants', quick=dict(BASE, members=[[(1, 1)], [(1, 1)]], refl=[None, '-', 'wn']),
            thorough=dict(BASE, members=[[(1, 1)], [(1, 1), (1, 1, 1)]], refl=[None, '-', 'w', 'wn']), must_reach=REACH),
    Harness('references', merged, 'references of entries and variants, tags and actions',
            quick=dict(BASE, members=[[(1,)], [(1,)]], refs=[('p',), ('q', 'p')], tags=[(), ('t',)], cite=True, actions=ACTIONS),
            thorough=dict(BASE, members=[[(1,), (1, 1)], [(1,), (1, 1)]], refs=[('p',), ('q', 'p'), ()], tags=[(), ('t',), ('u', 't')], cite=True, actions=ACTIONS),
            must_reach=['references of entries are those of the members', 'tags say where they come from', 'actions are those of the members in order']),
    Harness('comments', merged, 'comments of entries', quick=dict(BASE, members=[[(1,)], [(1,)], [(1,)]], comments=[None, 'x', 'y']),
            thorough=dict(BASE, members=[[(1, 1)], [(1,)], [(1,)]], comments=[None, 'x', 'y']), must_reach=['comments are those of the members']),
    Harness('metadata', metadata, 'versions, descriptions, dates and Unicode versions of two LGRs', quick=dict(langs=[[('und-Latn',)], [('und-Cyrl',)]], version=[None, ('1', None), ('2', 'c')], desc=[None, ('p', 'text/html'), ('q', 'text/plain')], start=[None, '2020-01-01', '2021-01-01'], end=['2022-01-01']),
            thorough=dict(langs=[[('und-Latn',)], [('und-Cyrl',)]], version=[None, ('1', None), ('2', 'c'), ('1', 'd')], desc=[None, ('p', 'text/html'), ('q', 'text/plain')], start=[None, '2020-01-01', '2021-01-01'], end=[None, '2022-01-01', '2023-01-01']), must_reach=['versions are those of the members']),
    Harness('dates', metadata, 'end of validity, Unicode versions, languages and scopes of up to three LGRs', quick=dict(langs=[[('und-Latn',), ('und-Latn', 'en')], [('und-Cyrl',), ('und-Cyrl', 'en', 'fr')]], scopes=[(), ('p',), ('q', 'p')], end=[None, '2022-01-01', '2023-01-01'], unicode=['6.3.0', '10.0.0', '5.2.0']),
            thorough=dict(langs=[[('und-Latn',), ('und-Latn', 'en')], [('und-Cyrl',), ('und-Cyrl', 'en', 'fr')], [('und-Grek',)]], end=[None, '2022-01-01', '2023-01-01'], unicode=['6.3.0', '10.0.0', '9.0.0']), must_reach=['the Unicode version is the latest']),
    Harness('texts', texts, 'one rule and one class of two members, of 1-2 parts, with references', quick=dict(names=['r', 'c'], refs=[('p', 'q'), ('q', 'p'), ('x', 'p')], head=[HEADS, HEADS[1:2]], part=[PARTS, PARTS[6:7]], more=[['', PARTS[1]], ['']]),
            thorough=dict(names=['r', 'c'], refs=[('p', 'q'), ('q', 'p'), ('x', 'p')], head=[HEADS, HEADS[1:]], part=[PARTS, PARTS[4:]], more=[PARTS, ['']]),
            must_reach=['rules refer to the names and references of their member', 'classes refer to the names and references of their member']),
]
META = dict(assumptions=['every member is symmetric and transitive', 'the merged LGR is written and read back unchanged; see P25'], outside='over 3 members or 3 entries per member; rules named leading-combining-mark')
