"""Copies, results of operations on LGRs, and their operands."""
import copy
import pickle
from checks.common import *
from checks.history import attempt, vkey
from checks.xmldoc import install


def content(l, ranges=True):
    """everything an LGR says, code point by code point"""
    md = l.metadata
    pair = lambda x, a, b: None if x is None else (getattr(x, a), getattr(x, b))
    reps = [(tuple(c.cp), tuple(c.tags), tuple(c.references), c.when, c.not_when, c.comment, tuple(vkey(v) + (v.comment,) for v in c.get_variants()))
            for c in l.repertoire.all_repertoire()]
    return dict(reps=reps, ranges=[tuple(r) for r in l.repertoire.ranges] if ranges else None,
                classes={n: (tuple(c.codepoints), tuple(c.references), c.by_ref, c.comment, c.from_tag) for n, c in l.classes_lookup.items()},
                rules={n: (len(r.children), r.comment, tuple(r.references)) for n, r in l.rules_lookup.items()},
                names=(tuple(l.rules), tuple(l.classes), tuple(l.rules_xml), tuple(l.classes_xml), tuple(l.actions_xml)),
                actions=[(a.disp, a.match, a.not_match, a.any_variant, a.all_variants, a.only_variants, a.comment, tuple(a.references)) for a in l.actions],
                refs=[(k, v['value'], v.get('comment')) for k, v in l.reference_manager.items()],
                types=set(l.types),
                meta=(pair(md.version, 'value', 'comment'), md.date, tuple(md.languages), tuple((s.value, s.scope_type) for s in md.scopes),
                      md.validity_start, md.validity_end, md.unicode_version, pair(md.description, 'value', 'description_type')))


def entry_eq(x, y):
    return And(deep_eq(x[:6], y[:6]), multiset_eq(list(x[6]), list(y[6])))


def content_eq(a, b):
    return And(multiset_eq(a['reps'], b['reps'], entry_eq), a['ranges'] is None or multiset_eq(a['ranges'], b['ranges']),
               a['classes'].keys() == b['classes'].keys(),
               And([And(set_eq(a['classes'][n][0], b['classes'][n][0]), a['classes'][n][1:] == b['classes'][n][1:]) for n in a['classes'] if n in b['classes']]),
               And([a[k] == b[k] for k in ('rules', 'names', 'actions', 'refs', 'types', 'meta')]))


def make(ctx, tag, db=None, other=None):
    """an LGR with something of everything; code points in ascending order, above those of the other LGR if not shared with it"""
    from lgr import rule as R, matcher as M, classes as C
    from lgr.action import Action
    from lgr.metadata import Version, Scope, Description
    cfg = ctx.cfg
    l = lgr(db)
    for k in range(2):
        l.add_reference('value%s%d' % (tag if ctx.cfg.get('refs', True) else '', k), comment='c', ref_id=str(k))
    a, b = cps(ctx, 'a' + tag, 1), cps(ctx, 'b' + tag, 2 if ctx.pick('seq' + tag, cfg['seq']) else 1)
    ctx.assume(a[0] < b[0])
    if len(b) > 1:
        ctx.assume(b[0] < b[1])
    if other is not None:
        if ctx.pick('shared', cfg['shared']):
            a = other.a
        else:
            ctx.assume(other.top < a[0])
        ctx.assume(other.top < b[0])
    l.a, top = a, b[-1]
    l.add_cp(list(a), comment='ca', ref=['0', '1'], tag=['t'])
    l.add_cp(list(b), ref=['1'], tag=['t', 'u'] if len(b) == 1 else [])
    l.add_variant(list(a), list(b), 'blocked', comment='cv', ref=['1', '0'])
    l.add_variant(list(b), list(a), 'blocked', ref=['0'])
    if ctx.pick('range' + tag, cfg['range']):
        f = ctx.cp('f' + tag)
        ctx.assume(f + 2 <= 0x10FFFF)
        ctx.assume(top < f)
        top = f + 2
        l.add_range(f, f + 2, comment='cr', ref=['0'], tag=['t'])
    l.top = top
    r = R.Rule(name='r' + tag, comment='cr', ref=['0'])
    r.add_child(M.CharMatcher([0x61]))
    l.add_rule(r)
    l.add_class(C.Class(name='c' + tag, comment='cc', codepoints=[0x61], ref=['0']))
    l.add_action(Action(disp='d', comment='c', ref=['0'], match='r' + tag, any_variant=['blocked']))
    l.add_action(Action(disp='g', all_variants=['x', 'y'], ref=['1']))
    l.rules_xml.append('<rule name="r%s"/>' % tag)
    l.classes_xml.append('<class name="c%s">0061</class>' % tag)
    l.actions_xml.append('<action disp="d" match="r%s" any-variant="blocked"/>' % tag)
    l.actions_xml.append('<action disp="g" all-variants="x y"/>')
    md = l.metadata
    md.version = Version('1', 'first')
    md.description = Description('text', 'text/plain')
    md.languages = ['und-Latn']
    md.scopes = [Scope('example', 'domain')]
    md.date, md.validity_start, md.validity_end = '2001-01-01', '2002-01-01', '2003-01-01'
    md.unicode_version = '6.3.0'
    return l


def edit(ctx, l, what, x):
    """change one thing, whatever way it is stored"""
    from lgr import rule as R, matcher as M
    from lgr.action import Action
    from lgr.metadata import Scope
    reps = list(l.repertoire.all_repertoire())
    md = l.metadata
    if what == 'ref':
        ctx.assume('0' in l.reference_manager)
        l.del_reference('0')
    elif what == 'upref':
        ctx.assume('0' in l.reference_manager)
        l.reference_manager.update_reference('0', value='new', comment='new')
    elif what == 'addref':
        l.add_reference('other')
    elif what == 'tag':
        l.del_tag('t')
    elif what == 'del':
        ctx.assume(len(reps) > 0)
        l.del_cp(list(reps[0].cp))
    elif what == 'delvar':
        c = [c for c in reps if list(c.get_variants())]
        ctx.assume(len(c) > 0)
        v = list(c[0].get_variants())[0]
        l.del_variant(list(c[0].cp), list(v.cp), when=v.when, not_when=v.not_when)
    elif what == 'add':
        l.add_cp(list(x), tag=['t'], ref=['1'], force=True)
    elif what == 'addvar':
        ctx.assume(len(reps) > 0)
        l.add_variant(list(reps[-1].cp), list(x), 'other')
    elif what == 'expand':
        l.expand_ranges()
    elif what == 'populate':
        l.populate_variants()
    elif what == 'rule':
        r = R.Rule(name=(list(l.rules_lookup) or ['r'])[0])
        l.add_rule(r)
    elif what == 'child':
        ctx.assume(len(l.rules_lookup) > 0)
        list(l.rules_lookup.values())[0].add_child(M.AnyMatcher())
    elif what == 'clscp':
        for c in l.classes_lookup.values():
            c.add_codepoint(0x7A)
    elif what == 'action':
        l.add_action(Action(disp='e'))
    elif what == 'disp':
        for a in l.actions:
            a.disp = 'f'
            a.references.append('9')
    elif what == 'xml':
        for xs in (l.rules_xml, l.classes_xml, l.actions_xml, l.rules, l.classes):
            xs.append('more')
    elif what == 'lang':
        md.add_language('und-Cyrl')
    elif what == 'meta':
        md.scopes.append(Scope('more', 'domain'))
        for s in md.scopes:
            s.value = 'elsewhere'
        if md.version is not None:
            md.version.value, md.version.comment = '2', 'second'
        if md.description is not None:
            md.description.value = 'more'
        md.set_date('2011-01-01')
        md.set_unicode_version('7.0.0')
    elif what == 'char':
        for c in reps:
            c.references.append('9')
            c.tags.append('z')
            c.comment = 'z'
            for v in c.get_variants():
                v.references.append('9')
    else:
        raise ValueError(what)


def derive(ctx, op, l, o):
    """what an operation makes of one or two LGRs"""
    if op == 'copy' or (op == 'pickle' and ctx.symbolic):
        return [copy.deepcopy(l)]
    if op == 'pickle' and not ctx.symbolic:
        return [pickle.loads(pickle.dumps(l))]
    if op == 'union':
        from lgr.tools.compare.union import union_lgrs
        return [union_lgrs(l, o)]
    if op == 'intersection':
        from lgr.tools.compare.intersect import intersect_lgrs
        return [intersect_lgrs(l, o)]
    from lgr.tools.harmonize import harmonize
    ok, r = attempt(harmonize, l, o)
    ctx.assume(ok)
    return list(r[:2])


def everything_top(ls):
    return ls[-1].top


def results(ctx):
    """an operation, then an edit of its result or of an operand"""
    cfg = ctx.cfg
    op = ctx.pick('op', cfg['derive'])
    two = op not in ('copy', 'pickle')
    l = make(ctx, '')
    o = make(ctx, 'o', other=l) if two else None
    operands = [l] + ([o] if two else [])
    before = [content(x, False) for x in operands]
    whole = content(l)
    ok, res = attempt(derive, ctx, op, l, o)
    ctx.assume(ok)
    ctx.check(And([content_eq(b, content(x, False)) for b, x in zip(before, operands)]), 'an operation leaves its operands as they were')
    if not two:
        ctx.check(content_eq(whole, content(res[0])), 'a copy has the same content')
    what = ctx.pick('edit', cfg['edits'])
    x = cps(ctx, 'x', 1)
    ctx.assume(x[0] > everything_top(operands))
    everything = operands + res
    k = ctx.pick('who', list(range(len(everything))))
    before = [content(x) for x in everything]
    ok, e = attempt(edit, ctx, everything[k], what, x)
    for j, x in enumerate(everything):
        if j != k:
            ctx.check(content_eq(before[j], content(x)), 'an edit of one leaves the others as they were')
    ctx.observe([what, k, ok])


def reads(ctx):
    """an operation that only reads an LGR"""
    cfg = ctx.cfg
    install(ctx)
    db = StubDB(ctx)
    l = make(ctx, '', db)
    op = ctx.pick('op', cfg['ops'])
    o = make(ctx, 'o', other=l) if op in ('diff', 'sets', 'review') else None
    x = cps(ctx, 'l', 1)
    label = ctx.pick('label', [list(l.a) + list(l.a), list(l.a) + list(x)]) if op in ('label', 'variants', 'summary', 'index', 'count') else None
    grouped = op not in ('diff', 'sets')        # (comparing expands the ranges of its operands)
    before, other = content(l, grouped), o and content(o, grouped)
    n_rules = len(l.effective_actions)

    def run():
        if op == 'stats':
            from lgr.validate.lgr_stats import generate_stats
            generate_stats(l)
        elif op == 'validate':
            import lgr.validate as v
            saved = v.CHECKS
            v.CHECKS = [c for c in saved if c.__name__ not in ('check_xml_validity', 'rebuild_lgr')]
            try:
                v.validate_lgr(l, {'rfc7940': True, 'unicode_version': '6.3.0'})
            finally:
                v.CHECKS = saved
        elif op == 'sets':
            from lgr.tools.compare.diff import diff_lgr_sets
            diff_lgr_sets([l], [o])
        elif op == 'diff':
            from lgr.tools.compare.diff import diff_lgrs
            diff_lgrs(l, o)
        elif op == 'serialize':
            from lgr.parser.xml_serializer import serialize_lgr_xml
            serialize_lgr_xml(l)
        elif op == 'label':
            l.test_label_eligible(label)
        elif op == 'variants':
            list(l.compute_label_disposition(label, include_invalid=True))
        elif op == 'summary':
            l.compute_label_disposition_summary(label)
        elif op == 'index':
            l.generate_index_label(label)
        elif op == 'count':
            l.estimate_variant_number(label)
        elif op == 'sets of variants':
            list(l.repertoire.get_variant_sets())
        elif op == 'review':
            from lgr.tools.idn_review.repertoire import generate_repertoire_report
            from lgr.tools.idn_review.variant_sets import generate_variant_sets_report
            from lgr.tools.idn_review.classes import generate_classes_report
            from lgr.tools.idn_review.actions import generate_actions_report
            for f in (generate_repertoire_report, generate_variant_sets_report, generate_classes_report, generate_actions_report):
                o.unicode_database = db
                attempt(f, l, o)
    ok, e = attempt(run)
    ctx.check(content_eq(before, content(l, grouped)), 'reading an LGR does not change it')
    ctx.check(o is None or content_eq(other, content(o, grouped)), 'reading an LGR does not change it')
    ctx.check(len(l.effective_actions) == n_rules, 'reading an LGR does not change it')
    ctx.observe([op, ok])


EDITS = ['ref', 'upref', 'addref', 'tag', 'del', 'delvar', 'add', 'addvar', 'expand', 'populate', 'rule', 'child', 'clscp', 'action', 'disp', 'xml', 'lang', 'meta', 'char']
OPS = ['stats', 'validate', 'diff', 'sets', 'serialize', 'label', 'variants', 'summary', 'index', 'count', 'sets of variants', 'review']
HARNESSES = [
    Harness('results', results, 'a copy, union, intersection or harmonization of LGRs with one or two code points, a sequence or not, a range or not, references, tags, rules, classes, actions and metadata; then one of %d edits of any of them' % len(EDITS),
            quick=dict(derive=['copy', 'pickle', 'union', 'intersection', 'harmonize'], seq=[0], range=[1], shared=[0, 1], edits=EDITS),
            thorough=dict(derive=['copy', 'pickle', 'union', 'intersection', 'harmonize'], seq=[0, 1], range=[0, 1], shared=[0, 1], edits=EDITS),
            must_reach=['a copy has the same content', 'an edit of one leaves the others as they were']),
    Harness('reads', reads, 'such an LGR (and another) read by one of %d operations' % len(OPS), quick=dict(ops=OPS, seq=[0, 1], range=[0, 1], shared=[0, 1]), must_reach=['reading an LGR does not change it']),
]
META = dict(assumptions=['attributes other than code points are fixed texts'], outside='parsed rules shared by copies made by other means than deepcopy or pickle; a merged set is written and read back, so shares nothing')
