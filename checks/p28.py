"""Review of an IDN table against a reference LGR."""
from checks.common import *
from checks.history import state, state_eq, attempt
from checks.p15 import where, RULES as R15
RULES = dict(R15, r=('r', None), nr=(None, 'r'))
from checks.p08 import build_cls, Sem
from checks.icu import ModelDB

ORDER = ['MATCH', 'SUBSET', 'NOTE', 'MANUAL CHECK', 'REVIEW']
TYPES = ['activated', 'optionally-activated', 'allocatable', 'optionally-allocatable', 'blocked']


class DB(StubDB):
    def get_prop_value(self, cp, prop_name, prop_type=None):
        return 'Ll'

    def is_digit(self, cp):
        return self.ctx.uf('digit', [cp])

    def is_combining_mark(self, cp):
        return self.ctx.uf('mark', [cp])

    def is_rtl(self, cp):
        return self.ctx.uf('rtl', [cp])

    def is_script_rtl(self, script):
        return script in ('Arab', 'Hebr')


def table(ctx, name, kinds, rules, tags, db):
    """entries with their context rule and tags"""
    l = lgr()
    ents = []
    for k, kind in enumerate(kinds):
        w, n = RULES[ctx.pick('w%s%d' % (name, k), rules)]
        t = ctx.pick('t%s%d' % (name, k), tags) if not kind.startswith('seq') else ()
        if kind == 'range':
            f = ctx.cp('%s%d' % (name, k))
            ctx.assume(f < 0x10FFFF)
            new = [(f,), (f + 1,)]
            distinct(ctx, [e[0] for e in ents] + [new[0]])
            distinct(ctx, [e[0] for e in ents] + [new[1]])
            l.add_range(f, f + 1, when=w, not_when=n, tag=list(t))
        else:
            new = [cps(ctx, '%s%d' % (name, k), {'seq': 2, 'seq3': 3}.get(kind, 1))]
            distinct(ctx, [e[0] for e in ents] + new)
            l.add_cp(list(new[0]), when=w, not_when=n, tag=list(t))
        ents += [(e, (w, n), t) for e in new]
    l._unicode_database = db
    return l, ents


def compare(idn, ref):
    """the result for an entry that both have"""
    (_, ri, ti), (_, rr, tr) = idn, ref
    ti, tr = [{t for t in x if not t.startswith('sc:')} for x in (ti, tr)]
    tags = 'REVIEW' if tr - ti else 'NOTE' if ti - tr else 'MATCH'
    rules = 'MATCH' if ri == rr else 'NOTE' if rr == (None, None) else 'REVIEW'
    return max(tags, rules, key=ORDER.index)


def repertoire(ctx):
    from lgr.tools.idn_review.repertoire import generate_repertoire_report, generate_repertoire_core_report
    cfg = ctx.cfg
    db = DB(ctx, idna=True, props=('PVALID', 'CONTEXTJ', 'DISALLOWED'))
    idn, ei = table(ctx, 'a', ctx.pick('idn', cfg['idn']), cfg['rules'], cfg['tags'], db)
    ref, er = table(ctx, 'b', ctx.pick('ref', cfg['ref']), cfg['rules'], cfg['tags'], db)
    before = state(idn), state(ref)
    rep = generate_repertoire_report(idn, ref)
    rows = rep['reports']
    ctx.check(set_eq([r['cp'] for r in rows], [e[0] for e in ei + er]), 'every entry of either is reported')
    for a, b in zip(rows, rows[1:]):
        ctx.check(a['cp'] < b['cp'], 'in ascending order, once each')
    for r in rows:
        i, j = where([e[0] for e in ei], r['cp']), where([e[0] for e in er], r['cp'])
        ctx.check((r['idn_table'], r['reference_lgr']) == (i is not None, j is not None), 'it is told where the entry is')
        want = 'SUBSET' if i is None else 'MANUAL CHECK' if j is None else compare(ei[i], er[j])
        ctx.check(r['result'] == want, 'the result tells how the entries compare')
    want = []
    for s, _, _ in er:
        if len(s) < 2:
            continue
        for c in s:
            if where([e[0] for e in er], (c,)) is None and where([e[0] for e in ei], (c,)) is not None:
                want.append((c, s))
    ctx.check(set_eq([(r['idn_cp'][0], r['ref_cp']) for r in rep['cp_in_sequences']], want), 'code points of sequences of the reference')
    core = generate_repertoire_core_report(idn)
    good = [e for e, _, _ in ei if all(bool(db.get_idna_prop(c) == 'PVALID') for c in e)]
    ctx.check((core['pvalid_cp_nbr'], core['invalid_cp_nbr']) == (len(good), len(ei) - len(good)), 'the code points that are not PVALID are counted')
    ctx.check(set_eq([r['cp'] for r in core['report']], [e for e, _, _ in ei]), 'the core report has every entry')
    ctx.check(And(state_eq(before[0], state(idn)), state_eq(before[1], state(ref))), 'the LGRs are unchanged')
    ctx.observe([r['result'] for r in rows])


def relation(ctx, name, shapes, maps, attrs, same, db):
    """an LGR with variants: [(source, target, type, when, not-when)]"""
    l = lgr()
    shape = ctx.pick('shape' + name, shapes)
    ents = [cps(ctx, '%s%d' % (name, k), n) for k, n in enumerate(shape)]
    distinct(ctx, ents)
    for e in ents:
        l.add_cp(list(e))
    rel = []
    first = None
    for m in ctx.pick('maps' + name, maps):
        s, t = m
        if s >= len(ents) or isinstance(t, int) and t >= len(ents):
            continue
        if not isinstance(t, int):
            t = cps(ctx, '%s_x' % name, len(t))
            for e in ents:
                if len(e) == len(t):
                    ctx.assume(Not(deep_eq(e, t)))
        else:
            t = ents[t]
        if first is None or not same:
            first = ctx.pick('attr%s%d' % (name, len(rel)), attrs)
        typ, cond = first
        w, n = RULES[cond]
        l.add_variant(list(ents[s]), list(t), typ, when=w, not_when=n)
        rel.append((ents[s], t, typ, w, n))
    l._unicode_database = db
    return l, ents, rel


def conditions(ctx):
    """several variants to the same target under different conditions"""
    from lgr.tools.idn_review.variant_sets import generate_variant_sets_report
    cfg = ctx.cfg
    db = DB(ctx)
    e = [cps(ctx, 'e%d' % k, n) for k, n in enumerate(ctx.pick('shape', cfg['shapes']))]
    distinct(ctx, e)
    tables, content = [], []
    for side in 'ir':
        l, dirs = lgr(), []
        for x in e:
            l.add_cp(list(x))
        first = None
        for s, d in ((0, 1), (1, 0)):
            if first is not None and ctx.flag('mirror' + side):
                kinds = first
            else:
                kinds = [(c, ctx.pick('t%s%d%s' % (side, s, c), cfg['types'])) for c in ctx.pick('c%s%d' % (side, s), cfg['conditions'] if not s else cfg['reverse'])]
            first = kinds
            for c, t in kinds:
                w, n = RULES[c]
                l.add_variant(list(e[s]), list(e[d]), t, when=w, not_when=n)
            dirs.append(sorted((c, t or '') for c, t in kinds))
        l._unicode_database = db
        tables.append(l)
        content.append(dirs)
    before = [state(l) for l in tables]
    ok, rep = attempt(generate_variant_sets_report, *tables)
    ctx.check(ok, 'variants are always reported')
    if not ok:
        return
    rows = [r for x in rep['reports'] for r in x['report']]
    ctx.check(len(rows) == 1, 'every variant of the table is reported')
    for r in rows:
        back = deep_eq(r['source_cp'], e[1])
        for key, k in (('fwd', 0), ('rev', 1)):
            i, j = [c[1 - k if back else k] for c in content]
            ctx.check((r['result_' + key] == 'MATCH') == (i == j), 'exactly identical variants match')
            if [c for c, _ in i] == [c for c, _ in j] and any(TYPES.index(a) < TYPES.index(b) for (_, a), (_, b) in zip(i, j)):
                ctx.check(r['result_' + key] == 'REVIEW', 'less conservative types are to be reviewed')
            ctx.check((r[key + '_type_idn'], r[key + '_type_ref']) == tuple(' - '.join(sorted(t for _, t in x if t)) for x in (i, j)), 'types are reported')
    ctx.check(all(bool(state_eq(a, state(l))) for a, l in zip(before, tables)), 'the LGRs are unchanged')
    ctx.observe([r['result_fwd'] for r in rows])


def mapping(rel, s, d):
    for m in rel:
        if len(m[0]) == len(s) and len(m[1]) == len(d) and deep_eq(m[0], s) and deep_eq(m[1], d):
            return m[2:]
    return None


def verdict(i, r):
    """how a variant of the table compares with that of the reference"""
    (ti, wi, ni), (tr, wr, nr) = i, r
    if (wi or ni) and not wr and not nr:
        return 'REVIEW', False
    if i == r:
        return 'MATCH', False
    if (bool(wi), bool(ni)) == (bool(wr), bool(nr)) and ti != tr:
        if ti not in TYPES or tr not in TYPES or TYPES.index(ti) < TYPES.index(tr):
            return 'REVIEW', False
        more = 'NOTE'
    else:
        more = 'MATCH'
    if (wi, ni) != (wr, nr):
        return 'MANUAL CHECK', not wi and not ni
    return more, False


def component(rel, x):
    """the entries reached by variants in either direction"""
    out = [x]
    grown = True
    while grown:
        grown = False
        for s, d, _, _, _ in rel:
            a, b = where(out, s), where(out, d)
            if (a is None) != (b is None):
                out.append(s if a is None else d)
                grown = True
    return out


def components(rel):
    out = []
    for m in rel:
        if not any(where(x, m[0]) is not None for x in out):
            out.append(component(rel, m[0]))
    return out


def variants(ctx):
    from lgr.tools.idn_review.variant_sets import generate_variant_sets_report
    cfg = ctx.cfg
    db = DB(ctx)
    idn, ei, ri = relation(ctx, 'a', cfg['idn'], cfg['maps'], cfg['attrs'], cfg['same'], db)
    ref, er, rr = relation(ctx, 'b', cfg['ref'], cfg['refmaps'], cfg['attrs'], cfg['same'], db)
    if cfg.get('alike'):
        for x, y in zip(ei, er):
            ctx.assume(deep_eq(x, y))
    before = state(idn), state(ref)
    ok, rep = attempt(generate_variant_sets_report, idn, ref)
    ctx.check(ok, 'variants are always reported')
    if not ok:
        return
    rows = [(x, r) for x in rep['reports'] for r in x['report']]
    ci, cr = components(ri), components(rr)
    exact = all(mapping(rel, d, s) is not None for rel in (ri, rr) for s, d, _, _, _ in rel)
    for x in ci:
        touch = [y for y in cr if any(where(x, c) is not None for c in y)]
        back = [z for y in touch for z in ci if any(where(z, c) is not None for c in y)]
        if len(touch) > 1 or len(back) > 1 or touch and not (all(where(x, c) is not None for c in touch[0]) or all(where(touch[0], c) is not None for c in x)):
            exact = False
    inside = lambda cp: where(ei, cp) is not None
    for x, r in rows:
        s, d = r['source_cp'], r['dest_cp']
        for key, a, b in (('fwd', s, d), ('rev', d, s)):
            i, j = mapping(ri, a, b), mapping(rr, a, b)
            res = r['result_' + key]
            if i is None and j is None:
                ctx.check(not exact, 'only variants are reported')
                continue
            ctx.check(res != 'MATCH' or i is not None and i == j, 'only identical variants match')
            if not exact:
                continue
            if j is None:
                ctx.check(res == 'MANUAL CHECK', 'variants that the reference does not have are to be checked')
            elif i is None:
                ctx.check(res == 'REVIEW' if not r['dest_in_idn'] and inside(s) and inside(d) else res in ('REVIEW', 'NOTE'), 'variants missing from the table are reported')
            else:
                want, misses = verdict(i, j)
                ctx.check(res == want, 'the result tells how the variants compare')
                ctx.check(('misses the rule' in r['remark_' + key]) == misses, 'a missing rule is told')
            ctx.check(r[key + '_type_idn'] == ((i[0] if i else None) or '') and r[key + '_type_ref'] == ((j[0] if j else None) or ''), 'types are reported')
    pairs = [(r['source_cp'], r['dest_cp']) for _, r in rows]
    shown = lambda s, d: Or([Or(And(deep_eq(p[0], s), deep_eq(p[1], d)), And(deep_eq(p[0], d), deep_eq(p[1], s))) for p in pairs])
    for s, d, _, _, _ in ri:
        ctx.check(shown(s, d), 'every variant of the table is reported')
    for s, d, _, _, _ in rr:
        if any(inside(c) for c in component(rr, s)):
            ctx.check(shown(s, d), 'every variant of the reference is reported if code points of its set are in the table')
    for x in rep['reports']:
        if x['idn_table']:
            here = [m for m in ri if where(x['idn_table'], m[0]) is not None]
            if all(inside(c) for c in x['idn_table']):
                ctx.check(x['symmetry_check'] == all(mapping(ri, m[1], m[0]) is not None for m in here), 'symmetry of the set')
        for name, rel in (('idn_table', ri), ('ref_lgr', rr)):
            if x[name]:
                ctx.check(set_eq(x[name], component(rel, x[name][0])), 'the set is what variants lead to')
        ctx.check(set_eq([c for c in x['relevant_idn_table_repertoire'] if len(c) > 1], [c for c in ei if len(c) > 1 and where(list(x['idn_table']) + list(x['ref_lgr']), c) is not None]),
                  'the part of the table that the sets concern')
    others = [e for e in ei if where(er, e) is None and not any(where(m[:2], e) is not None for m in ri)]
    ctx.check(multiset_eq([r['cp'] for r in rep['additional']], others), 'the other code points that the reference does not have are listed')
    ctx.check(And(state_eq(before[0], state(idn)), state_eq(before[1], state(ref))), 'the LGRs are unchanged')
    ctx.observe([(r['result_fwd'], r['result_rev']) for _, r in rows])


def summary(ctx):
    from lgr.tools.idn_review.summary import generate_summary
    n = ctx.pick('n', ctx.cfg['rows'])
    res = [(ctx.pick('r%d' % k, ORDER), ctx.pick('s%d' % k, ctx.cfg['second'])) for k in range(n)]
    text = {'fwd': lambda r, k: 'about ' + r, 'rev': lambda r, k: 'about ' + r}
    rows = [{'result': r, 'remark': text['fwd'](r, k), 'result_fwd': r, 'remark_fwd': text['fwd'](r, k), 'result_rev': s, 'remark_rev': text['rev'](s, k)} for k, (r, s) in enumerate(res)]
    half = n // 2
    out = generate_summary({'language_tags': [{'comparison': rows[:half]}, {'comparison': rows[half:]}], 'repertoire': {'reports': rows},
                            'variant_sets': {'reports': [{'report': rows[:half]}, {'report': rows[half:]}]}, 'classes': rows,
                            'wle': {'comparison': rows}, 'actions': {'comparison': rows}})
    for key, s in out.items():
        all_ = [r for r, _ in res] + ([x for _, x in res] if key == 'variant_sets' else [])
        ctx.check(s['overall'] == max(all_ or ['MATCH'], key=ORDER.index), 'the overall result is the most severe one')
        ctx.check(sorted((x['result'], x['remark'], x['count']) for x in s['results']) == sorted((r, 'about ' + r, all_.count(r)) for r in set(all_)), 'remarks are counted')
    ctx.check(set(out) == {'language_tag', 'repertoire', 'variant_sets', 'classes', 'wle', 'actions'}, 'every part is summarized')


def classes(ctx):
    from lgr.tools.idn_review.classes import generate_classes_report
    cfg = ctx.cfg
    db = ModelDB(ctx)
    sides = []
    for name in 'ab':
        l = lgr()
        n = ctx.pick('n' + name, cfg['entries'])
        ents = cps(ctx, name, n)
        distinct(ctx, [(e,) for e in ents])
        members = {}
        for k, e in enumerate(ents):
            t = ctx.pick('t%s%d' % (name, k), cfg['tags'])
            l.add_cp([e], tag=list(t))
            for x in t:
                members.setdefault(x, []).append(e)
        e = ctx.pick('cls' + name, cfg['classes'])
        if e:
            e = ('list', cps(ctx, 'c' + name, int(e[1]))) if e[0] == 'l' else ('not', ('list', cps(ctx, 'c' + name, 1))) if e == 'not' else ('or', ('list', cps(ctx, 'c' + name, 1)), ('tag', 't'))
            c = build_cls(e, 'k')
            l.add_class(c, force=True)
            sem = Sem(db, {}, {'t': members.get('t', [])})
            members = {'k': [x for x in ents if bool(sem.has(e, x))]}
        else:
            members = {}
        l._unicode_database = db
        sides.append((l, list(ents), members))
    (li, ei, mi), (lr, er, mr) = sides
    out = generate_classes_report(li, lr)
    got = {x['name']: x for x in out}
    ctx.check(len(got) == len(out), 'each class once')
    inter = lambda xs, ys: any(bool(Or([x == y for y in ys])) for x in xs)
    minus = lambda xs, ys: [x for x in xs if not bool(Or([x == y for y in ys]))]
    for name in sorted(set(mi) | set(mr)):
        a, b = mi.get(name, []), mr.get(name, [])
        if not a and not inter(b, ei):
            ctx.check(name not in got, 'classes that do not concern the table are left out')
            continue
        ctx.check(name in got, 'every class that concerns the table is reported')
        if name not in got:
            continue
        only_a, only_b = minus(a, b), minus(b, a)
        if not only_a and not only_b:
            want = 'MATCH'
        elif not a or not b:
            want = 'MANUAL CHECK'
        elif inter(only_a, er) or inter(only_b, ei):
            want = 'REVIEW'
        else:
            want = 'MANUAL CHECK' if only_a else 'SUBSET'
        ctx.check(got[name]['result'] == want, 'the result tells how the members compare')
        if want == 'REVIEW':
            ctx.check(('extra member(s)' in got[name]['remark'], 'missing member(s)' in got[name]['remark']) == (inter(only_a, er), inter(only_b, ei)), 'extra and missing members are told')
        ctx.check(len(got[name]['idn_members']) == len(a) and len(got[name]['ref_members']) == len(b), 'members are those in the repertoire')
    ctx.check(set(got) <= set(mi) | set(mr), 'nothing else is reported')
    ctx.observe(sorted((k, v['result']) for k, v in got.items()))


ACTIONS = {'a': dict(disp='blocked', match='r'), 'b': dict(disp='valid', any_variant=['x']), 'c': dict(disp='blocked', not_match='r'), 'd': dict(disp='valid', all_variants=['x']),
           'e': dict(disp='valid', only_variants=['x']), 'f': dict(disp='invalid', match='r'), 'g': dict(disp='valid', any_variant=['x', 'y']), 'A': dict(disp='blocked', match='r', comment='other')}


def actions(ctx):
    from lgr.tools.idn_review.actions import generate_actions_report
    from lgr.action import Action
    cfg = ctx.cfg
    sides = []
    for name in 'ab':
        l = lgr()
        names = [ctx.pick('x%s%d' % (name, k), cfg['kinds']) for k in range(ctx.pick('n' + name, cfg['n']))]
        for x in names:
            l.actions.append(Action(**ACTIONS[x]))
        sides.append((l, names))
    (li, ni), (lr, nr) = sides
    same = lambda x: x.lower() if x == 'A' else x
    ki, kr = [same(x) for x in ni], [same(x) for x in nr]
    out = generate_actions_report(li, lr)
    rows = out['comparison']
    want = [(True, x in kr, 'MATCH' if x in kr else 'MANUAL CHECK') for x in ki] + [(False, True, 'MANUAL CHECK') for x in kr if x not in ki]
    ctx.check([(r['idn_table'], r['reference_lgr'], r['result']) for r in rows] == want, 'every action of either is compared')
    common = [x for x in ki if x in kr] == [x for x in kr if x in ki]
    if ki:
        ctx.check(out['sequence'] == ('MATCH' if common else 'MANUAL CHECK'), 'the order of common actions is compared')
    ctx.observe(rows)


def norm(e):
    """a rule is a sequence; the code points of literals follow each other"""
    out = []
    for x in e:
        if x[0] == 'class' and len(x[1]) == 1:
            x = ('char',) + x[1:]
        if x[0] == 'char' and x[2] is None:
            out += [('char', (c,), None) for c in x[1]]
        else:
            out.append(x)
    return out


def rule(ctx, name, parts):
    from lgr.rule import Rule
    from lgr.matcher import CharMatcher, AnyMatcher, ChoiceMatcher, LookAheadMatcher, LookBehindMatcher, StartMatcher, EndMatcher, AnchorMatcher, ClassMatcher, RuleMatcher
    from lgr.classes import Class
    r = Rule(name='r')
    e = []
    for k, p in enumerate(ctx.pick('parts' + name, parts)):
        kind, count = p if isinstance(p, tuple) else (p, None)
        nm = '%s%d' % (name, k)
        if kind[:4] == 'char':
            c = cps(ctx, nm, int(kind[4:]))
            m, d = CharMatcher(list(c), count=count), c
        elif kind == 'any':
            m, d = AnyMatcher(count=count), ()
        elif kind in ('choice', 'ahead', 'behind'):
            c = cps(ctx, nm, 2)
            m, d = {'choice': ChoiceMatcher, 'ahead': LookAheadMatcher, 'behind': LookBehindMatcher}[kind](), c
            for x in c:
                m.add_child(CharMatcher(x))
        elif kind[:5] == 'class':
            c = cps(ctx, nm, int(kind[5:]))
            distinct(ctx, [(x,) for x in c])
            m, d = ClassMatcher(Class(codepoints=list(c)), count=count), c
        elif kind == 'tag':
            m, d = ClassMatcher(Class(from_tag='t'), count=count), ('t',)
        elif kind == 'ref':
            m, d = ClassMatcher(Class(by_ref='t'), count=count), ('ref',)
        else:
            m, d = {'start': StartMatcher, 'end': EndMatcher, 'anchor': AnchorMatcher}[kind](), ()
        r.add_child(m)
        e.append((kind.rstrip('123'), d, count))
    return r, e


def same_rule(a, b):
    a, b = norm(a), norm(b)
    return And(len(a) == len(b), And([And(x[0] == y[0], x[2] == y[2], len(x[1]) == len(y[1]), (set_eq if x[0] == 'class' else deep_eq)(x[1], y[1]) if len(x[1]) == len(y[1]) else False) for x, y in zip(a, b)]))


def rules(ctx):
    from lgr.tools.idn_review.whole_label_evaluation_rules import generate_whole_label_evaluation_rules_report
    cfg = ctx.cfg
    db = DB(ctx)
    db.is_digit = db.is_combining_mark = db.is_rtl = lambda cp: False
    sides = []
    for name in 'ab':
        l, ents = table(ctx, name, ctx.pick('kinds' + name, cfg['entries']), cfg['when'], [()], db)
        r, e = None, None
        if ctx.pick('has' + name, cfg['has']):
            r, e = rule(ctx, name, cfg['parts'])
            l.rules.append('r')
            l.rules_lookup['r'] = r
        sides.append((l, ents, e))
    (li, ei, ri), (lr, er, rr) = sides
    ok, rep = attempt(generate_whole_label_evaluation_rules_report, li, lr)
    ctx.check(ok, 'rules are always reported')
    if not ok:
        return
    rows = {r['name']: r for r in rep['comparison']}
    ctx.check(set(rows) == ({'r'} if ri is not None or rr is not None else set()), 'every rule of either is reported')
    used = lambda ents: [e for e, w, _ in ents if 'r' in w]
    ctx.check(multiset_eq([r['cp'] for r in rep['additional_cp']], [e for e, w, _ in ei if w == (None, None) and where([x[0] for x in er], e) is None]),
              'code points that only the table has, without rule, are listed')
    if 'r' not in rows:
        return
    r = rows['r']
    ctx.check((r['idn_table'], r['reference_lgr']) == (ri is not None, rr is not None), 'it is told where the rule is')
    ui, ur = used(ei), used(er)
    if ri is None:
        clear = bool(ur) and not any(where([e for e, _, _ in ei], c) is not None for c in ur)
        ctx.check(r['result'] == ('SUBSET' if clear else 'MANUAL CHECK'), 'a missing rule matters if it applies to code points of the table')
    elif rr is None:
        ctx.check(r['result'] == 'MANUAL CHECK', 'additional rules are to be checked')
    else:
        contexts = set_eq(ui, ur)
        if r['result'] == 'MATCH':
            ctx.check(And(same_rule(ri, rr), contexts), 'only rules with the same content match')
        else:
            ctx.check(r['result'] == 'MANUAL CHECK', 'other rules are to be checked')
            plain = len(ri) == len(rr) and all(x[0] == y[0] and x[2] == y[2] and len(x[1]) == len(y[1]) for x, y in zip(ri, rr))
            if plain:
                ctx.check(Not(And(contexts, And([deep_eq(x[1], y[1]) for x, y in zip(ri, rr)]))), 'equal rules match')
    ctx.observe(r['result'])


def segment(ents, label):
    """can the label be written with the entries?"""
    if not label:
        return True
    return Or([And(And([x == y for x, y in zip(e, label)]), segment(ents, label[len(e):])) for e in ents if len(e) <= len(label)])


def general(ctx):
    """the labels used to find out about additional rules"""
    import lgr.tools.idn_review.whole_label_evaluation_rules as w
    from lgr.action import Action
    cfg = ctx.cfg
    db = DB(ctx)
    db.is_rtl = lambda cp: False
    l, ents = table(ctx, 'a', ctx.pick('kinds', cfg['entries']), ['-'], [()], db)
    l.metadata.languages = list(ctx.pick('languages', cfg['languages']))
    stub, = add_stub_rules(ctx, l, ['r']).values()
    l.actions.append(Action(disp='invalid', match='r'))
    ok, check = attempt(w.WholeLabelEvaluationRulesCheck, l, None)
    ctx.check(ok, 'the table can always be looked at')
    if not ok:
        return
    singles = [e[0] for e, _, _ in ents if len(e) == 1]
    digits = [c for c in singles if bool(db.is_digit(c))]
    ctx.check(Iff(check.combining_mark, Or([db.is_combining_mark(c) for c in singles])), 'combining marks are found')
    ctx.check(check.has_digits == bool(digits), 'digits are found')
    ctx.check(Iff(check.has_hyphen, Or([c == 0x2D for c in singles])), 'the hyphen is found')
    ctx.check(check.is_rtl == (check.language_tags != [] and any(s in ('Arab', 'Hebr') for s in l.metadata.get_scripts(allow_invalid=True))), 'right-to-left scripts are found')
    labels = [list(cps(ctx, 'l%d' % k, ctx.pick('n%d' % k, cfg['labels']))) for k in range(ctx.pick('n', cfg['n']))]
    check.language_tags = ['Latn']
    cond = ctx.pick('condition', [True, False])
    ok, rep = attempt(check.make_report, cond, {'Latn': labels})
    ctx.check(ok, 'a report is always made')
    if not ok:
        return
    want = None
    entries = [e for e, _, _ in ents]
    if cond:
        for x in labels:
            if not bool(segment(entries, x)):
                want = None
                break
            want = bool(stub.truth(tuple(x)))
            if not want:
                break
    ctx.check(rep == {'applicable': cond, 'exists': want}, 'a rule exists if no label of the code points is eligible')
    ctx.observe(rep)


BASE = [('blocked', '-')]
ATTRS = [(t, c) for t in ('blocked', 'allocatable', 'x', None) for c in ('-', 'w', 'v', 'n')]
SYM = [(), ((0, 1), (1, 0))]
ANY = [(), ((0, 1),), ((1, 0),), ((0, 1), (1, 0))]
OUT = ANY + [((0, 'x'),), ((0, 'xx'),), ((1, 'x'), (0, 1))]
PARTS = [('char1',), ('char2',), ('char1', 'char1'), ('char3',), (('char1', '2'),), (('char1', '2+'),), ('any',), (('any', '1:2'),), ('choice',), ('ahead',), ('behind',), ('class1',), ('class2',), ('tag',), ('ref',), ('anchor', 'char1'), ('start', 'char1'), ('char1', 'end')]
LANGUAGES = ['en', 'en-US', 'und-Latn', 'ja', 'und-Jpan', 'und-Hira', 'zh', 'zh-Hans', 'cmn', 'el', 'und-Grek', 'sr-Cyrl', 'xx', 'eng-Latn', 'ar', 'und']


def language_tags(ctx):
    """the language tags of a table, each against each of the reference"""
    from checks.p33 import TAGS
    from lgr.tools.idn_review.language_tag import generate_language_tag_report
    cfg = ctx.cfg
    more = dict({'xx': ('', '', ''), 'und-Hira': ('', 'Hira', 'Hira'), 'ar': ('ar', '', 'Arab')}, **{k: v[:3] for k, v in TAGS.items()})
    sides = [[ctx.pick('%s%d' % (s, k), LANGUAGES) for k in range(ctx.pick('n' + s, cfg['n' + s]))] for s in 'ir']
    ls = [lgr(), lgr()]
    for l, tags in zip(ls, sides):
        l.metadata.languages = list(tags)
    rep = generate_language_tag_report(*ls)
    idn, ref = sides
    ctx.check([r['idn_table_language_tag'] for r in rep] == (sorted(idn) or ['-']), 'every language tag of the table is reported')
    for r in rep:
        ctx.check([c['reference_lgr_language_tag'] for c in r['comparison']] == sorted(ref), 'every language tag is compared with every one of the reference')
        for c in r['comparison']:
            t, q = r['idn_table_language_tag'], more[c['reference_lgr_language_tag']]
            if t == '-':
                want = 'MANUAL CHECK'
            elif more[t][:2] == q[:2]:
                want = 'MATCH'
            elif t in ('xx', 'eng-Latn'):
                want = 'MANUAL CHECK'
            elif more[t][0] and more[t][0] == q[0]:
                want = 'MATCH'
            elif q[1] and {'en': 'Latn', 'ja': 'Jpan', 'el': 'Grek', 'ar': 'Arab'}.get(more[t][0]) == q[1]:
                want = 'MATCH'
            else:
                want = 'REVIEW'
            ctx.check(c['result'] == want, 'the result tells how the language tags compare')
    ctx.check(ls[0].metadata.languages == idn and ls[1].metadata.languages == ref, 'the LGRs are unchanged')


def whole(ctx):
    """the whole review of two tables, or of one against the core requirements"""
    import lgr.tools.idn_review.review as m
    cfg = ctx.cfg
    db = DB(ctx)
    db.is_digit = db.is_combining_mark = db.is_rtl = lambda cp: False
    db.get_set = ModelDB(ctx).get_set
    l, _ = table(ctx, 'a', ctx.pick('kinds', cfg['entries']), cfg['rules'], [('t',)], db)
    l.metadata.languages = ['und-Latn']
    o = l
    if not ctx.flag('self'):
        o, _ = table(ctx, 'b', ctx.pick('kindsb', cfg['others']), cfg['rules'], [()], db)
        o.metadata.languages = ['und-Cyrl']
    for k, x in enumerate((l, o)):
        add_stub_rules(ctx, x, ['r']) if 'r' not in x.rules else None
    l.name, o.name = 'table', 'reference' if o is not l else 'table'
    ok, rep = attempt(m.review_lgr, l, o)
    ctx.check(ok, 'a review is always made')
    if not ok:
        return
    ctx.check(set(rep) == {'header', 'language_tags', 'repertoire', 'variant_sets', 'classes', 'wle', 'actions', 'summary'}, 'the review has every part')
    ctx.check(rep['header']['idn_table'] == {'filename': l.name, 'version': None} and rep['header']['reference_lgr'] == {'name': o.name, 'version': None}, 'the review tells what was reviewed')
    same = m.generate_repertoire_report(l, o)
    ctx.check(And(deep_eq([r['cp'] for r in rep['repertoire']['reports']], [r['cp'] for r in same['reports']]), [r['result'] for r in rep['repertoire']['reports']] == [r['result'] for r in same['reports']]),
              'the parts are about the table and the reference')
    results = [s['overall'] for s in rep['summary'].values()]
    ctx.check(len(results) == 6, 'every part is summarized')
    if o is l:
        ctx.check(all(r == 'MATCH' for r in results), 'an LGR matches itself')
    else:
        ctx.check(rep['summary']['language_tag']['overall'] == 'REVIEW', 'the parts are about the table and the reference')
        ctx.check(rep['summary']['repertoire']['overall'] == max([r['result'] for r in same['reports']] or ['MATCH'], key=ORDER.index), 'the overall result is the most severe one')
    ok, core = attempt(m.review_with_core_requirements, l)
    ctx.check(ok, 'a review is always made')
    ctx.check(ok and set(core) == {'header', 'repertoire', 'variant_sets', 'wle'} and 'reference_lgr' not in core['header'] and core['header']['idn_table']['filename'] == 'table', 'the review has every part')
    ctx.observe(results)


def digits(ctx):
    """more than one set of digits"""
    from lgr.tools.idn_review.variant_sets import generate_variant_sets_core_report
    db = DB(ctx)
    l = lgr()
    n, other = ctx.pick('n', [0, 1, 9, 10, 11, 20]), ctx.pick('other', [0, 1, 5])
    f, g = ctx.cp('f'), ctx.cp('g')
    ctx.assume(And(f + 30 < g, g + 30 < 0x10FFFF))
    db.is_digit = lambda c: And(f <= c, c < f + n)
    for k in range(n - n // 2):
        l.add_cp([f + k])
    if n > 1:
        l.add_range(f + (n - n // 2), f + (n - 1))
    if other:
        l.add_range(g, g + other)
        l.add_cp([f + 25, f + 26])
    l._unicode_database = db
    ctx.check(generate_variant_sets_core_report(l)['report']['multiple_digit_sets'] == (n > 10), 'more than ten digits are more than one set')


HARNESSES = [
    Harness('language tags', language_tags, 'up to 1 (2) language tags in the table and in the reference, of %d' % len(LANGUAGES), quick=dict(ni=[0, 1], nr=[0, 1]), thorough=dict(ni=[0, 1, 2], nr=[1, 2]),
            must_reach=['the result tells how the language tags compare']),
    Harness('whole', whole, 'whole reviews of tables of one or two entries', quick=dict(entries=[('char',), ('seq',)], others=[('char',), ('range',)], rules=['-', 'r']), thorough=dict(entries=[('char',), ('char', 'seq')], others=[('char',), ('seq',), ('range',)], rules=['-', 'r']), must_reach=['an LGR matches itself', 'the overall result is the most severe one']),
    Harness('digits', digits, 'tables of up to 20 digits and 6 other code points', quick=dict()),
    Harness('repertoire', repertoire, 'tables of up to 3 entries (code points, sequences, ranges of 2)', quick=dict(idn=[(), ('char', 'seq'), ('range',)], ref=[(), ('char',), ('seq', 'char'), ('range',)], rules=['-'], tags=[()]),
            thorough=dict(idn=[(), ('char', 'seq'), ('range', 'char')], ref=[(), ('seq', 'char'), ('seq', 'char', 'char'), ('range', 'seq')], rules=['-'], tags=[()]),
            must_reach=['every entry of either is reported', 'code points of sequences of the reference', 'the code points that are not PVALID are counted']),
    Harness('long sequences', repertoire, 'a code point or two against a sequence of three', quick=dict(idn=[('char', 'char')], ref=[('seq3',), ('seq3', 'char')], rules=['-'], tags=[()]), must_reach=['code points of sequences of the reference']),
    Harness('entries', repertoire, 'one entry each, with tags and context rules', quick=dict(idn=[('char',)], ref=[('char',)], rules=['-', 'w', 'v', 'n', 'm'], tags=[(), ('t',), ('u', 'sc:Latn'), ('t', 'u')]),
            must_reach=['the result tells how the entries compare']),
    Harness('variants', variants, 'tables of 2 entries with any variants between them or to other code points', quick=dict(idn=[(1, 1)], ref=[(1, 1)], maps=OUT[:-1], refmaps=ANY + OUT[5:6], attrs=BASE, same=True),
            thorough=dict(idn=[(1, 1), (1, 2)], ref=[(1, 1), (2, 1)], maps=OUT, refmaps=OUT, attrs=BASE, same=True),
            must_reach=['only identical variants match', 'every variant of the table is reported', 'the other code points that the reference does not have are listed', 'symmetry of the set']),
    Harness('sequences', variants, 'tables with a sequence', quick=dict(idn=[(1, 2)], ref=[(1, 1)], maps=SYM, refmaps=SYM + OUT[5:6], attrs=BASE, same=True),
            must_reach=['every variant of the reference is reported if code points of its set are in the table']),
    Harness('sets', variants, 'tables of 3 entries with symmetric variants (quick: a few relations)', quick=dict(idn=[(1, 1, 1)], ref=[(1, 1)], maps=[((0, 1), (1, 0)), ((1, 0), (2, 0))], refmaps=SYM[1:], attrs=BASE, same=True),
            thorough=dict(idn=[(1, 1, 1)], ref=[(1, 1, 1)], maps=[((0, 1), (1, 0)), ((0, 2), (2, 0), (0, 1), (1, 0), (1, 2), (2, 1)), ((1, 0), (2, 0)), ((0, 1), (1, 2))], refmaps=[((0, 1), (1, 0)), ((0, 2), (2, 0), (0, 1), (1, 0), (1, 2), (2, 1))], attrs=BASE, same=True),
            must_reach=['the set is what variants lead to']),
    Harness('types', variants, 'the same two entries in both tables, variants of any type and condition', quick=dict(idn=[(1, 1)], ref=[(1, 1)], maps=SYM[1:], refmaps=SYM[1:], attrs=ATTRS, same=True, alike=True),
            thorough=dict(idn=[(1, 1)], ref=[(1, 1)], maps=SYM[1:], refmaps=SYM[1:], attrs=[(t, c) for t in ('blocked', 'allocatable', 'x') for c in '-wvn'], same=False, alike=True),
            must_reach=['the result tells how the variants compare', 'a missing rule is told']),
    Harness('conditions', conditions, 'the same two entries in both tables, each the variant of the other under up to 3 conditions of 5 in both tables',
            quick=dict(shapes=[(1, 1)], conditions=['w', 'v', 'wv', 'vw', 'nm', '-w', 'wn'], reverse=['w'], types=['blocked', 'allocatable']),
            thorough=dict(shapes=[(1, 2)], conditions=['w', '-', 'n', 'wv', 'vw', 'nm', '-w', 'wn', 'w-v', '-vn'], reverse=['w', 'vw'], types=['blocked', 'allocatable']), must_reach=['exactly identical variants match']),
    Harness('classes', classes, 'tables of up to 2 entries with tags and a class', quick=dict(entries=[1, 2], tags=[(), ('t',)], classes=['', 'l1', 'not']),
            thorough=dict(entries=[0, 1, 2], tags=[(), ('t',), ('t', 'u')], classes=['', 'l1', 'l2', 'not', 'or']),
            must_reach=['the result tells how the members compare', 'classes that do not concern the table are left out']),
    Harness('actions', actions, 'up to 2 actions each', quick=dict(n=[0, 1, 2], kinds=list('abcA')), thorough=dict(n=[0, 1, 2, 3], kinds=list('abcdA')),
            must_reach=['every action of either is compared', 'the order of common actions is compared']),
    Harness('kinds of actions', actions, 'one action each of every kind', quick=dict(n=[1], kinds=sorted(ACTIONS)), must_reach=['every action of either is compared']),
    Harness('rules', rules, 'a rule of 1-2 parts in each', quick=dict(entries=[()], when=['-'], has=[True], parts=PARTS), must_reach=['only rules with the same content match', 'equal rules match']),
    Harness('contexts', rules, 'entries under the rule', quick=dict(entries=[('char',), ('range',), ('char', 'seq')], when=['-', 'r', 'nr'], has=[True, False], parts=[('any',)]),
            must_reach=['a missing rule matters if it applies to code points of the table', 'only rules with the same content match']),
    Harness('general rules', general, 'up to 3 entries, 2 labels of up to 3 code points', quick=dict(entries=[('char',), ('char', 'seq')], languages=[(), ('ar',), ('und-Latn',)], labels=[1, 2], n=[1, 2]),
            thorough=dict(entries=[('char',), ('char', 'seq'), ('char', 'seq', 'char'), ('range',)], languages=[()], labels=[1, 2, 3], n=[1, 2]),
            must_reach=['a rule exists if no label of the code points is eligible']),
    Harness('summary', summary, 'up to 3 results', quick=dict(rows=[0, 1, 2, 3], second=['MATCH', 'NOTE', 'REVIEW']), must_reach=['the overall result is the most severe one', 'remarks are counted']),
]
META = dict(
    assumptions=['The Unicode database is an arbitrary function of the code point.'],
    outside='Language tags other than those listed, the HTML and text layout of the report; more than 3 entries per table; several variants of an entry to the same target under different conditions, other than in the harness conditions; how a set of one table that overlaps several sets of the other is paired.')
