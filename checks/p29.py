"""Rebuilding and IDNA compliance."""
from checks.common import *
from checks.history import state, state_eq, attempt
from lgr.exceptions import CharInvalidIdnaProperty, NotInRepertoire, CharNotInScript, LGRException


class OtherDB(StubDB):
    """a database of another version, with answers of its own"""

    def get_idna_prop(self, cp):
        return self.ctx.uf_choice('idna2', [cp], self.props) if self.idna else 'PVALID'

    def get_script(self, cp, alpha4=False):
        return self.ctx.uf_choice('script2', [cp], self.scripts)

    def get_prop_value(self, cp, prop_name, prop_type=None):
        return 'Ll'

    def is_idna2003_disallowed(self, cp):
        return self.ctx.uf('idna2003', [cp])


SCRIPTS = ['Latn', 'Grek', 'Zyyy', 'Zinh']


def build_lgr(ctx, kinds, db, nvars):
    """[(cp or range, [variants])]"""
    l = lgr(db=None)
    l.raise_on_invalid_property = False
    l.unicode_database = db
    ents = []
    taken = []
    for k, kind in enumerate(kinds):
        if kind == 'range':
            f = ctx.cp('e%d' % k)
            ctx.assume(f < 0x10FFFF)
            ents.append(('range', (f, f + 1), []))
            taken += [(f,), (f + 1,)]
        else:
            cp = cps(ctx, 'e%d' % k, 2 if kind == 'seq' else 1)
            ents.append(('char', cp, []))
            taken.append(cp)
    distinct(ctx, taken)
    attrs, vattrs = {}, {}
    if ctx.pick('attributes', ctx.cfg.get('attributes', [False])):
        l.add_reference('a reference', ref_id='A-1')
        attrs, vattrs = dict(comment='c', ref=['A-1'], when='w'), dict(comment='d', ref=['A-1'], not_when='w')
    for k, (kind, cp, vs) in enumerate(ents):
        tag = {} if not attrs or kind == 'char' and len(cp) > 1 else {'tag': ['t']}
        if kind == 'range':
            l.add_range(*cp, **attrs, **tag)
            continue
        l.add_cp(list(cp), **attrs, **tag)
        for j in range(ctx.pick('nv%d' % k, nvars)):
            v = cps(ctx, 'v%d_%d' % (k, j), ctx.pick('vn%d_%d' % (k, j), ctx.cfg.get('vlens', [1])))
            for o in vs:
                ctx.assume(Not(deep_eq(o, v)))
            l.add_variant(list(cp), list(v), 'blocked', **vattrs)
            vs.append(v)
    return l, ents


def repertoire(ctx, kinds):
    if kinds is None:
        return None, lambda cp: True
    vr = lgr()
    members = []
    for k, kind in enumerate(kinds):
        c = ctx.cp('r%d' % k)
        if kind == 'range':
            ctx.assume(c < 0x10FFFF)
        for m in members:
            ctx.assume(And(m != c, m != c + 1))
        if kind == 'range':
            vr.add_range(c, c + 1)
            members += [c, c + 1]
        else:
            vr.add_cp([c])
            members.append(c)
    return vr, lambda cp: Or([cp == m for m in members])


def kinds_of(es):
    return [type(e).__name__ for e in es]


def rebuild(ctx):
    from lgr.validate.rebuild_lgr import rebuild_lgr
    cfg = ctx.cfg
    own = ctx.pick('own', cfg['own'])
    own_db = StubDB(ctx, scripts=SCRIPTS[:cfg['scripts']], idna=True) if own else None
    l, ents = build_lgr(ctx, ctx.pick('entries', cfg['entries']), StubDB(ctx), cfg['nvars'])
    l.metadata.languages = list(ctx.pick('languages', cfg['languages']))
    l._unicode_database = own_db
    vr, inside = repertoire(ctx, ctx.pick('vr', cfg['vr']))
    opts = {'validating_repertoire': vr}
    target = ctx.pick('target', cfg['target'])
    db = {'none': None, 'same': own_db, 'other': OtherDB(ctx, scripts=SCRIPTS[:cfg['scripts']], idna=True, version='12.0.0')}[target]
    if db is not None:
        opts['unidb'] = db
    if ctx.pick('version', cfg['version']):
        opts['unicode_version'] = '12.0.0'
    before = state(l), list(l.metadata.languages), l.metadata.unicode_version
    ok, res = attempt(rebuild_lgr, l, opts)
    ctx.check(ok, 'rebuilding always gives a report')
    if not ok:
        return
    ctx.check(And(state_eq(before[0], state(l)), before[1:] == (list(l.metadata.languages), l.metadata.unicode_version), l.unicode_database is own_db),
              'the LGR itself is unchanged')
    report = res[1]
    ctx.check(report['unicode_version'] == opts.get('unicode_version', l.metadata.unicode_version) and report['unidb_version'] == (db.get_unicode_version() if db is not None else None),
              'the report tells the versions used')
    scripts = {s for s in l.metadata.get_scripts()}

    def valid(cp):
        return db is None or all(bool(db.idna_valid(c)) for c in cp)

    def in_script(cp):
        if own_db is None or not scripts:
            return True
        return all(bool(Or([own_db.get_script(c) == s for s in scripts | {'Zyyy', 'Zinh'} if s in own_db.scripts])) for c in cp)
    left = dict(report['repertoire'])
    for kind, cp, vs in ents:
        members = [cp] if kind == 'char' else [(cp[0],), (cp[1],)]
        errors, warns, bad = [], 0, []
        for m in members:
            if not valid(m):
                errors.append('CharInvalidIdnaProperty')
            elif not all(bool(inside(c)) for c in m):
                errors.append('NotInRepertoire')
            if not in_script(m):
                warns += 1
        for v in vs:
            # nothing can be added to an entry that is refused
            if not valid(cp) or not valid(v):
                bad.append(v)
        char = None
        for c in list(left):
            if type(c).__name__ == 'RangeChar' if kind == 'range' else len(c.cp) == len(cp) and type(c).__name__ != 'RangeChar':
                if c.cp[0] == cp[0]:
                    char = c
        got = left.pop(char) if char is not None else {}
        ctx.check(kinds_of(got.get('errors', [])) == errors, 'the errors are those of the refused entries')
        ctx.check(kinds_of(got.get('warnings', [])) == ['CharNotInScript'] * warns, 'the warnings are those of entries in other scripts')
        gv = got.get('variants', {})
        ctx.check(len(gv) == len(bad) and all(kinds_of(e) == ['CharInvalidIdnaProperty'] for e in gv.values()), 'the variants with errors are those refused')
        ctx.check(set_eq([tuple(v.cp) for v in gv], bad), 'the variants with errors are those refused')
    ctx.check(not left, 'nothing else is reported')
    ctx.observe([kinds_of(e) for x in report['repertoire'].values() for e in (x.get('errors', []), x.get('warnings', []))])


def compliance(ctx):
    """code points that are not valid in IDNA 2008, except those marked as being out of the repertoire"""
    from lgr.tools.idna2008_compliance import check_idna2008_compliance
    cfg = ctx.cfg
    db = OtherDB(ctx, idna=True)
    l, ents = build_lgr(ctx, ctx.pick('entries', cfg['entries']), StubDB(ctx), [0])
    out = []
    for k, (kind, cp, vs) in enumerate(ents):
        if kind == 'char':
            t = ctx.pick('t%d' % k, cfg['types'])
            if t:
                l.add_variant(list(cp), list(cp), t)
            out.append(t in ('out-of-repertoire-var', 'Out-of-Repertoire'))
        else:
            out.append(False)
    l.unicode_database = db
    before = state(l)
    res = check_idna2008_compliance(l)
    want, total = [], 0
    for (kind, cp, vs), o in zip(ents, out):
        for m in [cp] if kind == 'char' else [(cp[0],), (cp[1],)]:
            total += 1
            if not o and not all(bool(db.idna_valid(c)) for c in m):
                want.append((m, not Or([db.is_idna2003_disallowed(c) for c in m])))
    got = [(tuple(d['cp']), d['idna2003_compliant']) for d in res['non_compliant']]
    ctx.check(len(got) == len(want) and multiset_eq(got, want), 'the entries reported are those invalid in IDNA 2008')
    ctx.check(res['contains_non_compliant'] == bool(want) and res['compliant_nbr'] == total - len(want), 'the totals agree')
    ctx.check(state_eq(before, state(l)), 'the LGR itself is unchanged')
    ctx.observe([len(got), res['compliant_nbr']])


ENTRIES = [('char',), ('seq',), ('range',), ('char', 'seq'), ('char', 'range')]
HARNESSES = [
    Harness('rebuild', rebuild, 'up to 2 entries (code point, sequence, range of 2) with a variant; validating repertoire of up to 2 entries', quick=dict(own=[True], entries=ENTRIES, nvars=[0, 1], languages=[()], vr=[None, (), ('char', 'range')], target=['none', 'same', 'other'], version=[False], scripts=1),
            thorough=dict(own=[True], entries=ENTRIES + [('seq', 'range'), ('char', 'char')], nvars=[0, 1, 2], languages=[()], vr=[None, (), ('char',), ('char', 'range')], target=['none', 'same', 'other'], version=[False], scripts=1),
            must_reach=['the errors are those of the refused entries', 'the variants with errors are those refused', 'nothing else is reported']),
    Harness('rebuild-attributes', rebuild, '1 entry with references, comments, rules and tags, and up to 2 variants of up to 2 code points',
            quick=dict(own=[True], entries=[('char',), ('seq',), ('range',)], nvars=[1], vlens=[1, 2], attributes=[True], languages=[()], vr=[None, ('char',)], target=['none', 'same'], version=[False], scripts=1),
            thorough=dict(own=[True], entries=[('char',), ('seq',), ('range',)], nvars=[1, 2], vlens=[1, 2], attributes=[False, True], languages=[()], vr=[None, ('char',), ('range',)], target=['none', 'same', 'other'], version=[False], scripts=1)),
    Harness('scripts', rebuild, 'languages and scripts', quick=dict(own=[True, False], entries=[('char',), ('seq',), ('range',)], nvars=[0], languages=[(), ('und-Latn',), ('und-Latn', 'el')], vr=[None], target=['none', 'same', 'other'], version=[False, True], scripts=4),
            thorough=dict(own=[True, False], entries=ENTRIES, nvars=[0, 1], languages=[(), ('und-Latn',), ('und-Latn', 'el')], vr=[None], target=['none', 'same', 'other'], version=[False, True], scripts=4),
            must_reach=['the warnings are those of entries in other scripts']),
    Harness('compliance', compliance, 'up to 2 entries', quick=dict(entries=ENTRIES, types=['', 'blocked', 'out-of-repertoire-var', 'Out-of-Repertoire']),
            must_reach=['the entries reported are those invalid in IDNA 2008']),
]
META = dict(
    assumptions=['The Unicode databases (of the LGR and of the target version) are arbitrary functions of the code point.',
                 'The validating repertoire has no Unicode database of its own; where entries have references, tags and rules, these are valid (P11 has others).'],
    outside='More than 2 entries; ranges of more than 2 code points; more than one variant per entry (2 in the thorough tier).')

