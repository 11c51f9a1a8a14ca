"""The textual comparison of two LGRs."""
import re
from checks.common import *
from checks.p15 import where, RULES
from checks.p20 import PART

COMMENTS = [None, 'x', 'y']


class Side:
    pass


def one_side(ctx, k, shapes):
    cfg = ctx.cfg
    s = Side()
    s.lgr = l = lgr()
    shape = ctx.pick('shape%d' % k, shapes)
    s.ents = [cps(ctx, '%s%d' % ('ab'[k], j), n) for j, n in enumerate(shape) if n != 'r']
    single = len(s.ents)
    if 'r' in shape:
        f = ctx.cp('f%d' % k)
        l.add_range(f, f + 1)
        s.ents += [(f,), (f + 1,)]
    distinct(ctx, s.ents)
    add_stub_rules(ctx, l, 'wnvm')
    s.comment, s.tags, s.rule, s.vars = [], [], [], []
    for j, e in enumerate(s.ents):
        if j >= single:
            s.comment.append(None)
            s.tags.append(())
            s.rule.append((None, None))
            continue
        s.comment.append(ctx.pick('c%d_%d' % (k, j), cfg['comments']))
        s.tags.append(ctx.pick('t%d_%d' % (k, j), cfg['tags']) if len(e) == 1 else ())
        s.rule.append(RULES[ctx.pick('r%d_%d' % (k, j), cfg['rules'])])
        l.add_cp(list(e), comment=s.comment[j], tag=list(s.tags[j]), when=s.rule[j][0], not_when=s.rule[j][1])
    for j, e in enumerate(s.ents):
        s.vars.append([])
        if j >= single:
            continue
        for i in range(ctx.pick('nv%d_%d' % (k, j), cfg['nvars'])):
            tgt = cps(ctx, 'v%d_%d_%d' % (k, j, i), ctx.pick('vn%d_%d_%d' % (k, j, i), cfg['targets']))
            kind, rule, comment = ctx.pick('vk%d_%d_%d' % (k, j, i), cfg['vars'])
            w, n = RULES[rule]
            for t, _, (w0, n0), _ in s.vars[j]:
                ctx.assume(Or(Not(deep_eq(t, tgt)), (w0, n0) != (w, n)))
            l.add_variant(list(e), list(tgt), variant_type=kind, when=w, not_when=n, comment=comment, force=True)
            s.vars[j].append((tgt, kind, (w, n), comment))
    return s


def compared(ctx):
    import lgr.tools.compare.diff as d
    import lgr.tools.compare.utils as u
    cfg = ctx.cfg
    a, b = [one_side(ctx, k, cfg['shapes'][k]) for k in (0, 1)]
    if cfg.get('few'):
        ctx.assume(sum(len(v) for s in (a, b) for v in s.vars) <= cfg['few'])
    nodes = []
    for s in (a, b):
        for e in s.ents:
            if where(nodes, e) is None:
                nodes.append(e)
    targets = []
    for s in (a, b):
        for vs in s.vars:
            for t, _, _, _ in vs:
                if where(targets, t) is None:
                    targets.append(t)

    def node(cp):
        k = where(nodes, cp)
        return 'E%d' % k if k is not None else 'T%d' % where(targets, cp)
    target = lambda cp: 'T%d' % where(targets, cp)
    show = ctx.flag('show_same')
    saved = d.format_cp, u.format_cp
    d.format_cp, u.format_cp = node, target
    try:
        out = d.diff_lgrs(a.lgr, b.lgr, show_same=show)
    finally:
        d.format_cp, u.format_cp = saved
    part = re.split(r'\*\* Compare (?:repertoire|common code points in repertoire|WLE) \*\*', out)
    ctx.check(len(part) == 4, 'the comparison has its parts')
    at = lambda s, e: where(s.ents, e)
    only1 = {'E%d' % k for k, e in enumerate(nodes) if at(b, e) is None}
    only2 = {'E%d' % k for k, e in enumerate(nodes) if at(a, e) is None}
    both = {'E%d' % k for k, e in enumerate(nodes)} - only1 - only2
    m = re.search(r'only in first LGR: (.*)\.\n.*only in second LGR: (.*)\.\n', part[1])
    got = [x.split() for x in (m.groups() if m else ('', ''))]
    ctx.check(sorted(got[0]) == sorted(only1) and sorted(got[1]) == sorted(only2), 'entries of one LGR only are listed')
    ctx.check(bool(m) == bool(only1 or only2), 'says so when the repertoires differ')
    secs = dict(re.findall(r'\+ Compare code point (\w+)((?:(?!\n    \+ ).)*)', part[2], re.S))
    ctx.check(len(re.findall(r'\+ Compare code point', part[2])) == len(secs), 'each entry is compared once')
    same = 0
    for k, e in enumerate(nodes):
        if 'E%d' % k not in both:
            ctx.check('E%d' % k not in secs, 'only common entries are compared')
            continue
        i, j = at(a, e), at(b, e)
        sec = secs.get('E%d' % k, '')
        differ = {
            'Comment': a.comment[i] != b.comment[j],
            'Tags': a.tags[i] != b.tags[j],
            'When': a.rule[i][0] != b.rule[j][0],
            'Not-when': a.rule[i][1] != b.rule[j][1],
        }
        for what, yes in differ.items():
            ctx.check((('\n%s values differ' % what) in sec) == yes, 'differences of the entry are listed')
        text = lambda v: 'Variant %s: type=%s - when=%s - not-when=%s - comment=%s' % (target(v[0]), v[1], v[2][0], v[2][1], v[3])
        v1, v2 = sorted(map(text, a.vars[i])), sorted(map(text, b.vars[j]))
        m = re.search(r'\nVariants values differ:\nValues only in first LGR: (.*)\.\nValues only in second LGR: (.*)\.\n', sec)
        got = [sorted(x for x in g.split(', ') if x) for g in (m.groups() if m else ('', ''))]
        ctx.check(got == [[x for x in v1 if x not in v2], [x for x in v2 if x not in v1]], 'variants of one LGR only are listed')
        ctx.check(bool(m) == (v1 != v2), 'says so when variants differ')
        equal = v1 == v2 and not any(differ.values())
        same += equal
        ctx.check(show or bool(sec) != equal, 'identical entries are not reported as different')
    m = re.search(r'\n(\d+) code points are identical', part[2])
    ctx.check((int(m.group(1)) if m else 0) == (0 if show else same), 'identical entries are counted')
    ctx.observe([sorted(only1), sorted(only2), same])


def rest(ctx):
    """metadata, references and the names of rules, classes and dispositions"""
    import lgr.tools.compare.diff as d
    from lgr.metadata import Metadata, Version, Description, Scope
    from lgr.action import Action
    cfg = ctx.cfg
    sides = []
    for k in (0, 1):
        l = lgr()
        s = Side()
        s.lgr = l
        l.metadata = md = Metadata()
        p = lambda n: ctx.pick('%s%d' % (n, k), cfg.get(n, [None]))
        s.version, s.vcomment, s.desc, s.dtype = p('version'), p('vcomment'), p('desc'), p('dtype')
        if s.version is not None:
            md.version = Version(s.version, s.vcomment)
        if s.desc is not None:
            md.description = Description(s.desc, s.dtype)
        s.scopes, s.langs, s.refs, s.rules, s.classes, s.disps = [p(n) or () for n in ('scopes', 'langs', 'refs', 'rules', 'classes', 'disps')]
        md.scopes = [Scope(x) for x in s.scopes]
        md.languages = list(s.langs)
        s.dates = [p(n) for n in ('date', 'start', 'end', 'unicode')]
        md.date, md.validity_start, md.validity_end, md.unicode_version = s.dates
        for x in s.refs:
            l.add_reference(x)
        l.rules, l.classes = list(s.rules), list(s.classes)
        l.actions = [Action(x) for x in s.disps]
        sides.append(s)
    a, b = sides
    out = d.diff_lgrs(a.lgr, b.lgr, show_same=False)
    says = lambda what: ('\n%s values differ:' % what) in out

    def sets(what, x, y, label):
        m = re.search(r'\n%s values differ:\nValues only in first LGR: (.*)\.\nValues only in second LGR: (.*)\.\n' % what, out)
        ctx.check(bool(m) == (set(x) != set(y)), label)
        if m:
            got = [sorted(x for x in re.findall(r'\w+', g) if x != 'None') for g in m.groups()]
            ctx.check(got == [sorted(set(x) - set(y)), sorted(set(y) - set(x))], label)
    sets('Scopes', a.scopes, b.scopes, 'differences of scopes are listed')
    sets('Languages', a.langs, b.langs, 'differences of languages are listed')
    sets('References', a.refs, b.refs, 'differences of references are listed')
    sets('Rules', a.rules, b.rules, 'differences of rule names are listed')
    sets('Classes', a.classes, b.classes, 'differences of class names are listed')
    sets('Actions', a.disps, b.disps, 'differences of dispositions are listed')
    both = a.version is not None and b.version is not None
    ctx.check(says('Version') == (both and a.version != b.version) and says('Version comment') == (both and a.vcomment != b.vcomment), 'differences of version are listed')
    ctx.check(('First LGR has no version' in out) == (a.version is None) and ('Second LGR has no version' in out) == (b.version is None), 'missing versions are listed')
    both = a.desc is not None and b.desc is not None
    ctx.check(says('Description') == (both and a.desc != b.desc) and says('Description type') == (both and a.dtype != b.dtype), 'differences of description are listed')
    ctx.check(('First LGR has no description' in out) == (a.desc is None) and ('Second LGR has no description' in out) == (b.desc is None), 'missing descriptions are listed')
    for k, what in enumerate(['Date', 'Validity start', 'Validity end', 'Unicode version']):
        m = re.search(r"\n%s values differ:\nFirst LGR: '(.*)'\.\nSecond LGR: '(.*)'\.\n" % what, out)
        ctx.check((m.groups() if m else None) == ((str(a.dates[k]), str(b.dates[k])) if a.dates[k] != b.dates[k] else None), 'differences of dates are listed')
    ctx.observe(len(out))


def compared_sets(ctx):
    """two sets of LGRs, compared by script"""
    import lgr.tools.compare.diff as d
    cfg = ctx.cfg
    sets = []
    for k in (0, 1):
        members = []
        for j, langs in enumerate(ctx.pick('set%d' % k, cfg['one' if k == 0 else 'two'])):
            l = lgr()
            l.name = '%s%d' % ('ab'[k], j)
            l.metadata.languages = list(langs)
            members.append(l)
        merged = lgr()
        merged.name = 'set%d' % k
        merged.metadata.date = ctx.pick('date%d' % k, [None, '2020-01-01'])
        sets.append((merged, members))
    (m1, s1), (m2, s2) = sets
    show = ctx.flag('show_same')
    calls = []
    saved = d.diff_lgrs
    d.diff_lgrs = lambda x, y, show_same=True: calls.append((x.name, y.name, show_same)) or '<%s-%s>' % (x.name, y.name)
    try:
        out = d.diff_lgr_sets(m1, m2, s1, s2, show_same=show)
    finally:
        d.diff_lgrs = saved
    script = lambda l: (l.metadata.languages or [None])[0]
    want = sorted((x.name, y.name) for x in s1 for y in s2 if script(x) is not None and script(x) == script(y))
    got = re.findall(r"### Compare LGRs for script (\S+): (\S+) - (\S+) ###\s*<(\S+)-(\S+)>", out)
    ctx.check(sorted(x[1:3] for x in got) == want and all(x[1:3] == x[3:5] for x in got) and len(calls) == len(want), 'every two LGRs of one script are compared')
    ctx.check(all(c[2] == show for c in calls), 'identical values are shown when asked for')
    ctx.check(all(x[0] == script(l) for x in got for l in s1 if l.name == x[1]), 'every two LGRs of one script are compared')
    for mine, other, a, b in ((s1, s2, m1, m2), (s2, s1, m2, m1)):
        names = {}
        for l in mine:
            if script(l) is not None and script(l) not in map(script, other):
                names.setdefault(script(l), []).append(l.name)
        found = {x: y.split("', '") for x, y in re.findall(r"Script '(\S+)' is available in LGR set '%s' with LGR '(.*)' but not in LGR set '%s'" % (a.name, b.name), out)}
        ctx.check(found == names, 'scripts of one set only are named')
        twice = sorted({script(l) for l in mine if script(l) is not None and [script(x) for x in mine].count(script(l)) > 1})
        ctx.check(sorted(re.findall(r"More than one LGR in set '%s' match script '(\S+?)'" % a.name, out)) == twice, 'scripts with several LGRs are named')
    ctx.check(('Date values differ' in out) == (m1.metadata.date != m2.metadata.date), 'metadata of the sets are compared')
    ctx.observe([got, calls])


SETS_OF = [((),), (('und-Latn',),), (('und-Latn', 'en'), ('und-Cyrl',)), (('und-Cyrl',), ('und-Latn',)), (('und-Cyrl',), ('und-Cyrl',)), (('fr',), ())]
BASE = dict(comments=[None], tags=[()], rules=['-'], nvars=[0], targets=[1], vars=[(None, '-', None)])
V = [('a', '-', None), (None, '-', None), ('a', 'w', None), ('a', 'n', None), ('a', 'y', None), ('a', '-', 'c')]
SETS = dict(scopes=[(), ('p',), ('p', 'q'), ('q',)], langs=[(), ('en',), ('fr', 'en')], refs=[(), ('r',), ('s', 'r')])
HARNESSES = [
    Harness('entries', compared, 'two LGRs of up to 3 entries coinciding in every way, with or without comments, tags and rules',
            quick=dict(BASE, shapes=[[(1, 1), (2,)], [(1,), (2, 1)]], comments=[None, 'x'], rules=['-', 'w']),
            thorough=dict(BASE, shapes=[[(1, 1), (2, 1)], [(), (1,), (2, 1), (1, 1)]], comments=COMMENTS[:2], tags=[(), ('t',)], rules=['-', 'w', 'n', 'v']), must_reach=['entries of one LGR only are listed', 'differences of the entry are listed', 'identical entries are counted']),
    Harness('attributes', compared, 'one entry each, with every comment, tags and rule',
            quick=dict(BASE, shapes=[[(1,)], [(1,)]], comments=COMMENTS, tags=[(), ('t',), ('u',), ('t', 'u')], rules=['-', 'w', 'n', 'x']),
            thorough=dict(BASE, shapes=[[(1,), (2,)], [(1,), (2,)]], comments=COMMENTS, tags=[(), ('t',), ('u',), ('t', 'u')], rules=['-', 'w', 'n', 'v', 'm', 'x', 'y']), must_reach=['differences of the entry are listed']),
    Harness('variants', compared, 'one entry each, with up to 2 variants of every type, rule and comment',
            quick=dict(BASE, shapes=[[(1,)], [(1,)]], nvars=[0, 1, 2], vars=V, few=3), thorough=dict(BASE, shapes=[[(1,), (2,)], [(1,), (2,)]], nvars=[0, 1, 2], targets=[1, 2], vars=V), must_reach=['variants of one LGR only are listed', 'says so when variants differ']),
    Harness('ranges', compared, 'a range in either LGR', quick=dict(BASE, shapes=[[('r',), (1, 'r')], [('r',), (1,)]]), thorough=dict(BASE, shapes=[[('r',), (1, 'r'), (2, 'r')], [('r',), (1,), (1, 1), (2, 'r')]], comments=COMMENTS[:2]), must_reach=['entries of one LGR only are listed']),
    Harness('sets', compared_sets, 'two sets of 1-2 LGRs of every language', quick=dict(one=SETS_OF, two=SETS_OF), thorough=dict(one=SETS_OF, two=SETS_OF), must_reach=['scripts of one set only are named', 'every two LGRs of one script are compared']),
    Harness('metadata', rest, 'version and description', quick=dict(version=[None, '1', '2'], vcomment=[None, 'c', ''], desc=[None, 'd', 'e'], dtype=['text/plain', 'text/html']),
            thorough=dict(version=[None, '1', '2'], vcomment=[None, 'c', ''], desc=[None, 'd', 'e'], dtype=['text/plain', 'text/html'], date=[None, '2020-01-01'], start=[None, '2020-01-01']), must_reach=['differences of version are listed']),
    Harness('dates', rest, 'the dates and Unicode version', quick=dict(date=[None, '2020'], start=[None, '2020'], end=[None, '2020', '2021'], unicode=['6.3.0', '10.0.0']), thorough=dict(date=[None, '2020', '2021'], start=[None, '2020'], end=[None, '2020', '2021'], unicode=['6.3.0', '10.0.0']), must_reach=['differences of dates are listed']),
    Harness('scopes', rest, 'scopes, languages and references', quick=SETS, thorough=dict(SETS, langs=[(), ('en',), ('fr',), ('fr', 'en')], disps=[(), ('d',)]), must_reach=['differences of scopes are listed']),
    Harness('names', rest, 'names of rules, classes and dispositions', quick=dict(rules=[(), ('p',), ('p', 'q')], classes=[(), ('c',), ('d',)], disps=[(), ('x',), ('y', 'x')]), thorough=dict(rules=[(), ('p',), ('q',), ('p', 'q')], classes=[(), ('c',), ('d',), ('c', 'd')], disps=[(), ('x',), ('y',), ('y', 'x')]), must_reach=['differences of rule names are listed']),
]
META = dict(assumptions=['code points are shown by distinct names; see P27'], outside='more than 3 entries, or 2 variants of an entry; the order of tags; references of entries and variants; the content of rules, classes and actions')
