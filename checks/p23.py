"""Collisions, annotation and differences of lists of labels."""
import re
from checks.common import *

NAMES = ['aa', 'ab', 'ba', 'bb', 'cc']
code = lambda name: tuple(map(ord, name))


class Table:
    """An LGR known by what it says of a few labels: their index (equal or not as the solver chooses), whether it has
    them, and the disposition of each as a variant of each other one with its index"""
    unicode_database = None
    plain = False
    effective_actions = ['first', 'second']

    def __init__(self, ctx, tag='', names=NAMES, missing=True, disps=('valid', 'blocked')):
        self.ctx, self.tag, self.names, self.disps = ctx, tag, names, disps
        self.index = {n: (ctx.cp('i%s_%s' % (tag, n)),) for n in names}
        self.has = {n: ctx.flag('h%s_%s' % (tag, n)) if missing else True for n in names}
        self.d = {}

    def name(self, cp):
        return ''.join(map(chr, cp))

    def same(self, a, b):
        return bool(deep_eq(self.index[a], self.index[b]))

    def disp(self, primary, n):
        if self.disps is None:
            return primary + '>' + n
        if (primary, n) not in self.d:
            self.d[primary, n] = self.ctx.pick('d%s_%s_%s' % (self.tag, primary, n), self.disps)
        return self.d[primary, n]

    def generate_index_label(self, cp, max_recursion=0):
        from lgr.exceptions import NotInLGR
        n = self.name(cp)
        if not self.has[n]:
            raise NotInLGR(cp[0])
        return self.index[n]

    def variants(self, n):
        return [x for x in self.names if self.has[x] and self.same(n, x)]

    def compute_label_disposition(self, cp, include_invalid=False, collect_log=True, with_labels=None, **kw):
        n = self.name(cp)
        for x in self.variants(n):
            if with_labels is None or any(tuple(w) == code(x) for w in with_labels):
                yield code(x), self.disp(n, x), [], 0, None, 'log'

    def _test_preliminary_eligibility(self, cp, generate_chars=False):
        return self.has[self.name(cp)], [], [], []

    def test_label_eligible(self, cp, collect_log=True, **kw):
        n = self.name(cp)
        ctx = self.ctx
        if not self.has[n]:
            return False, [cp[1]], [(cp[0], None)], 'invalid', -1, ''
        if self.plain:
            return ctx.flag('e%s_%s' % (self.tag, n)), list(cp), [], self.disp(n, n), 1, ''
        parts = ctx.pick('parts%s_%s' % (self.tag, n), [[], [(cp[0], ['r'])]])
        action = ctx.pick('act%s_%s' % (self.tag, n), [0, 1, -1])
        return ctx.flag('e%s_%s' % (self.tag, n)), list(cp), parts, self.disp(n, n), action, ''


def given(ctx, name, names, lines):
    """a list of labels with repetitions, blank lines and comments"""
    return [names[k] if isinstance(k, int) else k for k in ctx.pick(name, lines)]


def labels_in(lines, names):
    return [n for n in names if any(l.split('#')[0].strip() == n for l in lines)]


def groups(ctx):
    """_generate_indexes and get_collisions"""
    from lgr.tools import diff_collisions as m
    cfg = ctx.cfg
    lgr_ = Table(ctx, names=cfg['names'], disps=None)
    lines = given(ctx, 'lines', cfg['names'], cfg['lines'])
    labels = labels_in(lines, cfg['names'])
    quiet, cached = ctx.flag('quiet'), [n for n in cfg['names'] if ctx.flag('cached_' + n)]
    for n in cached:
        ctx.assume(lgr_.has[n])
    out = m.get_collisions(lgr_, iter(lines), quiet=quiet, cached_indexes={n: lgr_.index[n] for n in cached} if cached else None)
    pool = [n for n in labels + [n for n in cached if n not in labels] if lgr_.has[n]]
    want = {}
    for n in pool:
        together = [x for x in pool if lgr_.same(n, x)]
        if len(together) > 1:
            want[n] = together
    reported = []
    for key, group in out.items():
        names = [e['label'] for e in group]
        ctx.check(And([n in want and sorted(want[n]) == sorted(names) for n in names]), 'groups are the labels with the same index')
        ctx.check(And([deep_eq(key, lgr_.index[n]) for n in names]), 'groups are under their index')
        ctx.check(all(e['cp'] == code(e['label']) and e['cat'] == m.PRIMARY for e in group), 'members are the labels listed')
        reported += names
        if not quiet:
            for e in group:
                ctx.check(e['disp'] == {p: lgr_.disp(p, e['label']) for p in names}, 'members have their disposition from every other')
    ctx.check(sorted(reported) == sorted(want), 'each colliding label in one group')
    ctx.observe([sorted(reported), quiet])


def reported_pairs(lines, pattern):
    out = []
    for l in lines:
        m = re.search(pattern, l, re.S)
        if m:
            out.append((m.group(1), m.group(2)))
    return out


def pairs_listed(ctx):
    """the reports of collision and basic_collision"""
    from lgr.tools import diff_collisions as m
    cfg = ctx.cfg
    lgr_ = Table(ctx, names=cfg['names'], missing=cfg.get('missing', True))
    lines = given(ctx, 'lines', cfg['names'], cfg['lines'])
    tlines = given(ctx, 'tlds', cfg['names'], cfg['tlds'])
    labels, tlds = labels_in(lines, cfg['names']), labels_in(tlines, cfg['names'])
    kind = ctx.pick('kind', cfg['kinds'])
    saved = m.cp_to_ulabel
    if kind == 'dump':
        m.cp_to_ulabel = lambda cp: saved(cp) if all(type(c) is int for c in cp) else 'index'
    else:
        m.cp_to_ulabel = lambda cp: 'index'
    try:
        if kind == 'basic':
            out = list(m.basic_collision(lgr_, iter(lines), iter(tlines) if tlds else None))
        else:
            out = list(m.collision(lgr_, iter(lines), iter(tlines) if tlds else None, show_dump=kind == 'dump'))
    finally:
        m.cp_to_ulabel = saved
    has = [n for n in labels if lgr_.has[n]]
    want = sorted([tuple(sorted((a, b))) for i, a in enumerate(has) for b in has[i + 1:] if lgr_.same(a, b)])
    wtld = sorted([(a, b) for a in has for b in tlds if a != b and lgr_.has[b] and lgr_.same(a, b)])
    if kind == 'basic':
        got = reported_pairs(out, r'^(\w+): collides with label (\w+)\n$')
        gtld = reported_pairs(out, r'^(\w+): collides with TLD (\w+)\n$')
        is_tld = sorted(x.split(':')[0] for x in out if x.endswith(': is a TLD\n'))
        gone = sorted(x.split(':')[0] for x in out if x.endswith(': not in LGR\n'))
        none = 'No collision\n' in out
        ctx.check(none == (not want and not wtld and not is_tld), 'says so when nothing collides')
    else:
        at = lambda s: out.index(s) if s in out else len(out)
        mark = ['\n# Labels that are TLDs #\n\n', '\n# Labels not in LGR #\n\n', '\n# Collisions #\n\n', '\n# Summary #\n\n']
        part = lambda k, ends: out[at(mark[k]) + 1:min([at(mark[e]) for e in ends if at(mark[e]) > at(mark[k])], default=len(out))]
        is_tld = [x[6:-1] for x in part(0, (1, 2))] if mark[0] in out else []
        gone = [x[6:-1] for x in part(1, (2,))] if mark[1] in out else []
        body = part(2, (3,))
        pat = r"within the %s ###.*Label: +\t\S*'(\w+)'\S* +\| \S*'(\w+)'"
        got, gtld = reported_pairs(body, pat % 'input file'), reported_pairs(body, pat % 'existing TLDs')
        ctx.check(('No collision in the list of labels' in body) == (not want), 'says so when nothing collides')
        if kind == 'dump':
            checks_dump(ctx, lgr_, has, part(3, ()))
    ctx.check(sorted(tuple(sorted(p)) for p in got) == want, 'every pair of labels with the same index is reported once')
    ctx.check(sorted(gtld) == wtld, 'every pair of a label and a TLD with the same index is reported once')
    ctx.check(is_tld == sorted(set(labels) & set(tlds)), 'labels that are TLDs are listed')
    ctx.check(gone == sorted(n for n in labels if not lgr_.has[n]), 'labels not in the LGR are listed')
    ctx.observe([want, wtld])


def checks_dump(ctx, lgr_, has, body):
    from collections import Counter
    secs = re.split(r'\n## Dump for label ', ''.join(body))[1:]
    names = [re.match(r"\S*?'(\w+)'", x).group(1) for x in secs]
    ctx.check(sorted(names) == sorted(has), 'a dump for each label')
    for n, sec in zip(names, secs):
        v = lgr_.variants(n)
        got = re.findall(r"\w+ Label: \S*?'(\w+)'\S* \[.*?\]\n\tDisposition (\S+)\n", sec)
        ctx.check(sorted(got) == sorted((x, lgr_.disp(n, x)) for x in v if x != n), 'the dump of a label has its variants and their dispositions')
        ctx.check({a: int(b) for a, b in re.findall(r'\n - (\S+): (\d+)', sec)} == dict(Counter(lgr_.disp(n, x) for x in v)), 'the dump of a label counts its dispositions')


def annotated(ctx):
    from lgr.tools.annotate import annotate, lgr_set_annotate
    cfg = ctx.cfg
    script = Table(ctx, 's', names=cfg['names'])
    lines = given(ctx, 'lines', cfg['names'], cfg['lines'])
    wanted = []
    for l in lines:
        n = l.split('#')[0].strip()
        if n:
            wanted.append(n)
    memo = {}
    one = script.test_label_eligible
    script.test_label_eligible = lambda cp, **kw: memo.setdefault(script.name(cp), one(cp)) if script.name(cp) not in memo else memo[script.name(cp)]
    if cfg['set']:
        script.plain, script.disps = True, None
        common = Table(ctx, 'c', names=cfg['names'])
        for n in cfg['names']:
            ctx.assume(Or(not script.has[n], common.has[n]))         # the set holds the LGR of the script
        slines = given(ctx, 'set', cfg['names'], cfg['sets'])
        listed = labels_in(slines, cfg['names'])
        out = list(lgr_set_annotate(common, script, iter(slines), iter(lines)))
        k = out.index('# End of filtered set labels\n\n')
        ctx.check(sorted(out[1:k]) == sorted('%s: invalid\n' % n for l in slines for n in [l.split('#')[0].strip()] if n and not common.has[n]), 'labels not in the set are named')
        listed = [n for n in listed if common.has[n]]
        out = out[k + 1:]
    else:
        out = list(annotate(script, iter(lines)))
    want = []
    for n in wanted:
        ok, _, parts, disp, action, _ = script.test_label_eligible(code(n))
        text = disp
        if cfg['set'] and ok:
            # TODO-free reading: a label is reported as colliding when another label of the set has its index
            other = [x for x in listed if x != n and common.same(x, n)]
            if other:
                text = disp + ' - Label collides with the LGR set labels'
            elif n in listed:
                text = disp + ' - Label is in the LGR set labels'
        want.append('%s: %s\n' % (n, text))
        if not ok and action >= 0:
            want.append(' Rule %s: %s\n' % (action, script.effective_actions[action]))
        for cp, rules in parts:
            want.append(' Code point U+%04X %s\n' % (cp, 'not in repertoire' if rules is None else "does not comply with rules '%s'" % ','.join(rules)))
    ctx.check(out == want, 'every label has its own annotation')
    ctx.observe(out)


def differences(ctx):
    """diff: dispositions and variants that differ between two LGRs"""
    from lgr.tools import diff_collisions as m
    cfg = ctx.cfg
    one, two = Table(ctx, '1', names=cfg['names']), Table(ctx, '2', names=cfg['names'])
    if cfg.get('missing'):
        ctx.assume(sum(not l.has[n] for l in (one, two) for n in cfg['names']) <= cfg['missing'])
    lines = given(ctx, 'lines', cfg['names'], cfg['lines'])
    labels = labels_in(lines, cfg['names'])
    saved = m.cp_to_ulabel
    m.cp_to_ulabel = lambda cp: saved(cp) if all(type(c) is int for c in cp) else 'index'
    try:
        out = list(m.diff(one, two, iter(lines), show_collision=False, quiet=ctx.flag('quiet')))
    finally:
        m.cp_to_ulabel = saved
    text = ''.join(out)
    both = [n for n in labels if one.has[n] and two.has[n]]
    got = {}
    for sec in re.split(r'\n## Comparison on label ', text)[1:]:
        got[re.match(r"\S*?'(\w+)'", sec).group(1)] = sec
    ctx.check(sorted(got) == sorted(both), 'labels of both LGRs are compared')
    for k, l in enumerate((one, two), 1):
        mark = '# Labels not in LGR %d #\n\n' % k
        names = []
        if mark in out:
            rest = out[out.index(mark) + 1:]
            names = [x[6:-1] for x in rest[:rest.index('\n')]]
        ctx.check(sorted(names) == sorted(n for n in labels if not l.has[n]), 'labels not in one of the LGRs are named')
    for n in both:
        v1, v2 = one.variants(n), two.variants(n)
        sec = got[n]
        changed = sorted((x, two.disp(n, x), one.disp(n, x)) for x in v1 if x in v2 and two.disp(n, x) != one.disp(n, x))
        ctx.check(sorted((a, b, c) for a, b, c in re.findall(r"Change in disposition for \w+ \S*?'(\w+)'\S* \[.*?\] \(2->1\): (\w+) => (\w+)\n", sec)) == changed, 'every change of disposition is listed')
        ctx.check(('No changes in disposition.' in sec) == (not changed), 'says so when no disposition changes')
        new, old = [re.findall(r"%s \w+ in LGR2:\n\S*?'(\w+)'" % w, sec) for w in ('New', 'Removed')]
        ctx.check(sorted(new) == sorted(x for x in v2 if x not in v1), 'added variants are listed')
        ctx.check(sorted(old) == sorted(x for x in v1 if x not in v2), 'removed variants are listed')
        ctx.check(('No changes in number of variants.' in sec) == (sorted(v1) == sorted(v2)), 'says so when no variant changes')
    ctx.observe([both])


LINES = [(0, 1, 2), (2, '', 0, '# aa', 0, '  ab # x')]
HARNESSES = [
    Harness('groups', groups, 'lists of up to 4 labels of every index, present or not, with repetitions, comments and cached labels',
            quick=dict(names=NAMES[:4], lines=[(0, 1, 2, 3), (2, '', 0, '# aa', 0, '  ab # x')]), thorough=dict(names=NAMES, lines=[(0, 1, 2, 3, 4), (3, 2, 1), (2, '', 0, '# aa', 0, '  ab # x')]),
            must_reach=['groups are the labels with the same index', 'each colliding label in one group', 'members have their disposition from every other']),
    Harness('reports', pairs_listed, 'reports on up to 3 labels and 2 TLDs', quick=dict(names=NAMES[:4], lines=LINES, tlds=[(), (2, 3)], kinds=['basic', 'full']),
            thorough=dict(names=NAMES, lines=LINES + [(0, 1, 2, 3)], tlds=[(), (2, 3), (3, 4)], kinds=['basic', 'full']),
            must_reach=['every pair of labels with the same index is reported once', 'every pair of a label and a TLD with the same index is reported once']),
    Harness('dump', pairs_listed, 'dumps of up to 3 labels and 1 TLD', quick=dict(names=NAMES[:3], lines=[(0, 1), (0, 1, 2)], tlds=[(), (2,)], kinds=['dump'], missing=False),
            thorough=dict(names=NAMES[:3], lines=[(0, 1), (0, 1, 2)], tlds=[(), (2,)], kinds=['dump']),
            must_reach=['the dump of a label has its variants and their dispositions', 'the dump of a label counts its dispositions']),
    Harness('annotate', annotated, 'up to 2 labels, with every outcome of their test', quick=dict(names=NAMES[:2], lines=[(0, 1), (1, '#', 0, 0)], set=False), thorough=dict(names=NAMES[:3], lines=[(0, 1, 2), (1, '#', 0, 0)], set=False),
            must_reach=['every label has its own annotation']),
    Harness('annotate with a set', annotated, '1 label against sets of up to 3 labels', quick=dict(names=NAMES[:3], lines=[(0,)], set=True, sets=[(), (1, 2), (0, 1), (0, '', 0)]),
            thorough=dict(names=NAMES[:4], lines=[(0,)], set=True, sets=[(), (1, 2), (0, 1), (0, '', 0), (1, 2, 3)]), must_reach=['every label has its own annotation']),
    Harness('differences', differences, '2 labels and 1 variant under two LGRs', quick=dict(names=NAMES[:3], lines=[(0, 1)], missing=1), thorough=dict(names=NAMES[:3], lines=[(0, 1), (1,)]),
            must_reach=['every change of disposition is listed', 'added variants are listed', 'says so when no variant changes']),
]
META = dict(assumptions=['indexes, tests and dispositions of labels are those of an LGR that is a table; see P10-P14 for the real ones', 'labels are written as U-labels; see P26 and P27'],
            outside='more than 5 labels; A-labels')
