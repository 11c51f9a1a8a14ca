"""XML documents: what is written is read back, and reading gives what the document says."""
from checks.common import *
from checks.history import attempt
from checks.icu import *
from checks.p15 import RULES
from checks.xmldoc import *
from checks import p07

REFS = [('0', 'Ref zero', None), ('7', 'Ref <seven> & "7"', 'c&7'), ('A-1', 'é', ''), ('B', 'x', ' ')]
COMMENTS = [None, 'x', 'a <b> & "c"\nd']


def entries_of(l):
    """[(cp, bounds of the range, comment, when, not_when, tags, refs, variants)]"""
    out = []
    for c in l.repertoire:
        bounds = (c.first_cp, c.last_cp) if hasattr(c, 'first_cp') else None
        out.append([tuple(c.cp), bounds, c.comment, c.when, c.not_when, list(c.tags), [str(r) for r in c.references],
                    [(tuple(v.cp), v.type, v.when, v.not_when, v.comment, [str(r) for r in v.references]) for v in c.get_variants()]])
    return out


def same_entry(a, b):
    return And(deep_eq(a[0], b[0]), deep_eq(a[1], b[1]), a[2:6] == b[2:6], a[6] == b[6], multiset_eq(a[7], b[7]))


def same_entries(a, b):
    return And(len(a) == len(b), [Or([same_entry(x, y) for y in b]) for x in a], [Or([same_entry(x, y) for x in a]) for y in b])


def read(ctx, src, force=True, db=None):
    """(parser, lgr)"""
    from lgr.parser.xml_parser import XMLParser
    p = XMLParser(src, filename='t', force=force)
    if db is not None:
        p.unicode_database = db
    return p, p.parse_document()


def write(ctx, l, pretty=False):
    from lgr.parser.xml_serializer import serialize_lgr_xml
    return again(ctx, serialize_lgr_xml(l, pretty_print=pretty))


def stored(ctx):
    """an LGR made with the API, written and read back"""
    install(ctx)
    cfg = ctx.cfg
    l = lgr()
    for i, v, c in REFS[:2]:
        l.add_reference(v, comment=c, ref_id=i)
    ents = [cps(ctx, 'e%d' % k, n) for k, n in enumerate(ctx.pick('shape', cfg['shapes']))]
    distinct(ctx, ents)
    want = []
    for k, e in enumerate(ents):
        comment, tags, refs = ctx.pick('a%d' % k, cfg['attrs'] if not k else cfg['attrs'][-1:])
        w, n = RULES[ctx.pick('r%d' % k, cfg['rules'] if not k else cfg['rules'][:1])]
        if len(e) > 1:
            tags = []
        l.add_cp(list(e), comment=comment, tag=list(tags), ref=list(refs), when=w, not_when=n)
        want.append([e, None, comment, w, n, list(tags), list(refs), []])
    if ctx.pick('range', cfg['ranges']):
        f, m = ctx.cp('f'), ctx.pick('m', [1, 2])
        for e in ents:
            if len(e) == 1:
                ctx.assume(Or(e[0] < f, e[0] > f + m))
        ctx.assume(f + m <= 0x10FFFF)
        comment, tags, refs = ctx.pick('af', cfg['attrs'])
        w, n = RULES[ctx.pick('rf', cfg['rules'])]
        l.add_range(f, f + m, comment=comment, tag=list(tags), ref=list(refs), when=w, not_when=n)
        want.append([(f,), (f, f + m), comment, w, n, list(tags), list(refs), []])
    for k, e in enumerate(ents):
        for j in range(ctx.pick('nv%d' % k, cfg['nvars'] if not k else cfg['nvars'][-1:])):
            t = cps(ctx, 'v%d_%d' % (k, j), ctx.pick('vn%d_%d' % (k, j), cfg['targets']))
            kind, comment, refs = ctx.pick('va%d_%d' % (k, j), cfg['vattrs'] if not k else cfg['vattrs'][-1:])
            w, n = RULES[ctx.pick('vr%d_%d' % (k, j), cfg['vrules'] if not k else cfg['vrules'][-1:])]
            for x in want[k][7]:
                ctx.assume(Not(deep_eq(x[0], t)))
            l.add_variant(list(e), list(t), variant_type=kind, when=w, not_when=n, comment=comment, ref=list(refs))
            want[k][7].append((t, kind, w, n, comment, list(refs)))
    ctx.check(same_entries(entries_of(l), want), 'the entries are as added')
    doc = write(ctx, l, ctx.pick('pretty', cfg['pretty']))
    p, got = read(ctx, doc, force=ctx.pick('force', cfg['force']))
    ctx.check(same_entries(entries_of(got), want), 'the entries read are those written')
    for r in ('char_ascending_order', 'parse_xml', 'codepoint_valid'):
        ctx.check(p.rfc7940_checks.test_result.get(r, True) is True, 'what is written passes the checks on reading')
    tags = {t for x in want for t in x[5]}
    from lgr.classes import TAG_CLASSNAME_PREFIX
    ctx.check(set(got.all_tags()) == tags, 'tags are read')
    for t in sorted(tags):
        cl = got.classes_lookup[TAG_CLASSNAME_PREFIX + t].codepoints
        x = ctx.cp('t_' + t)
        ctx.check(Iff(Or([x == c for c in cl]), Or([And(a <= x, x <= b) for y in want if t in y[5] for a, b in [y[1] or (y[0][0], y[0][0])]])), 'the class of a tag has the code points with the tag')
    ctx.observe([len(want)])


def order(ctx):
    """documents with the code points in any order, repeated or not"""
    install(ctx)
    cfg = ctx.cfg
    shape = ctx.pick('shape', cfg['shapes'])
    force = ctx.pick('force', [True, False])
    kids, ents, var = [], [], []
    for k, n in enumerate(shape):
        if n == 'r':
            f = ctx.cp('f%d' % k)
            ctx.assume(f + 1 <= 0x10FFFF)
            for e in ents:
                if len(e) == 1:
                    ctx.assume(Or(e[0] < f, e[0] > f + 1))
            kids.append(E('range', {'first-cp': hexa(f), 'last-cp': hexa(f + 1)}))
            ents.append(((f,), f + 1))
            continue
        e = cps(ctx, 'e%d' % k, n)
        for x in ents:
            if isinstance(x[0], tuple) and n == 1:
                ctx.assume(Or(e[0] < x[0][0], e[0] > x[1]))
        ents.append(e)
        v = cps(ctx, 'v%d' % k, 1) if cfg.get('variants') else None
        var.append(v)
        kids.append(E('char', {'cp': words([hexa(c) for c in e])}, *([E('var', {'cp': hexa(v[0])})] if v else [])))
    chars = [e for e in ents if not isinstance(e[0], tuple)]
    below = prefix = dup = False
    first = []
    for k, e in enumerate(chars):
        new = Not(Or([deep_eq(e, x) for x in chars[:k] if len(x) == len(e)]))
        dup = Or(dup, Not(new))
        first.append(new)
        if k:
            q = chars[k - 1]
            is_prefix = len(e) <= len(q) and deep_eq(q[:len(e)], e)
            prefix = Or(prefix, is_prefix)
            below = Or(below, And(Not(is_prefix), lex_lt(e, q)))
    from lgr.exceptions import LGRException
    from lgr.parser.xml_parser import XMLParser
    p = XMLParser(source(ctx, E('lgr', {}, E('meta'), E('data', {}, *kids))), filename='t', force=force)
    ok, got = attempt(p.parse_document)
    res = p.rfc7940_checks.test_result
    vdup = Or([deep_eq(chars[i], chars[j]) and deep_eq(var[i], var[j]) for i in range(len(chars)) for j in range(i) if len(chars[i]) == len(chars[j])]) if cfg.get('variants') else False
    bad = Or(dup, vdup)
    ctx.check(ok or isinstance(got, LGRException), 'reading fails with an error of the library')
    ctx.check(Iff(res.get('codepoint_valid', True) is False, bad), 'repeated entries are reported')
    if not force:
        ctx.check(Iff(ok, Not(bad)), 'repeated entries are refused')
        if not ok:
            return
    ctx.check(ok, 'the other entries are read')
    ctx.check(Iff(res['char_ascending_order'] is False, below), 'entries out of order are reported')
    ctx.check(Iff(res['char_strict_ascending_order'] is False, prefix), 'entries equal to the start of the one before are reported')
    seen = [tuple(c.cp) for c in got.repertoire]
    x = cps(ctx, 'x', 1)
    want1 = Or([deep_eq(e, x) for e in chars if len(e) == 1], [And(e[0][0] <= x[0], x[0] <= e[1]) for e in ents if isinstance(e[0], tuple)])
    ctx.check(Iff(got.check_cp(list(x)), want1), 'the entries are those of the document')
    for e in chars:
        ctx.check(member(e, seen), 'the entries are those of the document')
        if cfg.get('variants'):
            vs = [tuple(v.cp) for v in got.get_variants(list(e))]
            ctx.check(set_eq(vs, [v for v, y in zip(var, chars) if len(y) == len(e) and deep_eq(y, e)]), 'each entry has the variants the document gives it')
    ctx.observe([ok])


META_CASES = {
    'version': [None, ('1', None), ('2', 'v <2>')],
    'date': [None, '2020-02-29', '0999-01-01'],
    'start': [None, '2020-01-01'],
    'end': [None, '2021-12-31'],
    'unicode': [None, '6.3.0', '15.1.0'],
    'languages': [[], ['und-Latn'], ['fr', 'und-Zyyy']],
    'scopes': [[], [('example', 'domain'), ('ex & co', None)]],
    'description': [None, ('text', None), ('a < b & c', 'text/plain'), ('<p>x</p>\n', 'text/html'), ('a ]]> b', 'text/html'), ('', 'text/html'), ('', None), ('text', '')],
    'refs': [[], REFS[:1], REFS],
}


def metadata(ctx):
    """metadata: a document is read, and the LGR written and read again"""
    install(ctx)
    cfg = ctx.cfg
    m = {k: ctx.pick(k, v) for k, v in META_CASES.items() if k in cfg['vary']}
    m = dict({k: v[0] if cfg.get('none') else v[-1] if k != 'description' else v[2] for k, v in META_CASES.items()}, **m)
    kids = []
    if m['version']:
        kids.append(E('version', {'comment': m['version'][1]}, text=m['version'][0]))
    for t, k in (('date', 'date'), ('validity-start', 'start'), ('validity-end', 'end'), ('unicode-version', 'unicode')):
        if m[k]:
            kids.append(E(t, text=m[k]))
    kids += [E('language', text=x) for x in m['languages']]
    kids += [E('scope', {'type': t}, text=v) for v, t in m['scopes']]
    if m['description']:
        kids.append(E('description', {'type': m['description'][1]}, text=m['description'][0]))
    if m['refs']:
        kids.append(E('references', {}, *[E('reference', {'id': i, 'comment': c}, text=v) for i, v, c in m['refs']]))
    if ctx.pick('reversed', cfg.get('reversed', [False])):       # optional parts come in any order
        kids.reverse()
        m.update(languages=m['languages'][::-1], scopes=m['scopes'][::-1])
    c = ctx.cp('c')
    with_meta = ctx.pick('meta', cfg['meta']) or bool(kids)
    src = source(ctx, E('lgr', {}, *([E('meta', {}, *kids)] if with_meta else []), E('data', {}, E('char', {'cp': hexa(c), 'ref': words([r[0] for r in m['refs']]) or None})),
                        *([E('rules')] if ctx.pick('rules', cfg['rules']) else [])))
    for turn in range(3):
        from lgr.parser.xml_parser import XMLParser
        p = XMLParser(src, filename='t', force=ctx.cfg.get('force', False))
        ctx.check(p.unicode_version() == (m['unicode'] or '6.3.0'), 'the Unicode version is read')
        l = p.parse_document()
        d = l.metadata
        ctx.check((None if d.version is None else (d.version.value, d.version.comment)) == m['version'], 'metadata is read')
        ctx.check((d.date, d.validity_start, d.validity_end) == (m['date'], m['start'], m['end']), 'metadata is read')
        ctx.check(d.unicode_version == (m['unicode'] or '6.3.0'), 'metadata is read')
        ctx.check(p.rfc7940_checks.test_result.get('explicit_unicode_version') is (turn > 0 or m['unicode'] is not None), 'whether the Unicode version is given is reported')
        ctx.check(d.languages == m['languages'], 'metadata is read')
        ctx.check([(s.value, s.scope_type) for s in d.scopes] == m['scopes'], 'metadata is read')
        ctx.check((None if d.description is None else (d.description.value, d.description.description_type)) == m['description'], 'metadata is read')
        rm = l.reference_manager
        ctx.check([(i, rm[i]['value'], rm[i].get('comment') or None) for i in rm] == [(i, v, c or None) for i, v, c in m['refs']], 'references are read')
        ent = list(l.repertoire)
        ctx.check(And(len(ent) == 1, deep_eq(ent[0].cp, (c,)), [str(r) for r in ent[0].references] == [r[0] for r in m['refs']]), 'the entries are read')
        nid = l.add_reference('one more')
        ctx.check(nid not in [r[0] for r in m['refs']], 'a new reference gets a new identifier')
        l.del_reference(nid)
        src = write(ctx, l)
    ctx.observe([1])


# ------------------------------------------------------------------ rules, classes, actions
def item_xml(it, classes):
    k = it[0]
    if k == 'c':
        return E('char', {'cp': words([hexa(c) for c in it[1]]), 'count': it[2]})
    if k == 'k':
        form = it[4] if len(it) > 4 else 'text'
        if not it[1]:
            c = E('class', text='')
        elif form == 'ref':
            nm = 'k%d' % len(classes)
            classes.append(E('class', {'name': nm}, text=words([hexa(c) for c in it[1]])))
            c = E('class', {'by-ref': nm})
        elif it[2]:
            c = E('class', {}, *[E('char', {'cp': hexa(c, 6, False)}) for c in it[1]])
        else:
            c = E('class', {}, text=words([hexa(c) for c in it[1]]))
        if it[2]:
            c = E('complement', {}, c)
        c[1].update({} if it[3] is None else {'count': it[3]})
        return c
    if k == 'any':
        return E('any', {'count': it[1]})
    if k in ('start', 'end', 'anchor'):
        return E(k)
    if k == 'ref':
        return E('rule', {'by-ref': it[1], 'count': it[2]})
    kids = [item_xml(x, classes) for x in it[1]]
    if k == 'or':
        return E('choice', {'count': it[2]}, *kids)
    if k == 'sub':
        return E('rule', {'count': it[2]}, *kids)
    return E('look-' + k, {}, *kids)


def rules(ctx):
    """whole label rules: the rules read match what their definition denotes, also after writing and reading again"""
    install(ctx)
    cfg = ctx.cfg
    named = {}
    items = [p07.item(ctx, 'i%d' % k, cfg, named) for k in range(ctx.pick('m', cfg['len']))]
    if ctx.pick('anchor', cfg.get('anchor', [False])):
        items = [('behind', items[:1]), ('anchor',), ('ahead', items[1:])]
    label = p07.label_cps(ctx, 'l', ctx.pick('n', cfg['labels']))
    anchor, index = None, 0
    if p07.uses_anchor(items):
        index = ctx.pick('index', len(label))
        anchor = label[index:index + 1]
    classes = []
    xml = [E('rule', {'name': nm}, *[item_xml(x, classes) for x in its]) for nm, its in named.items()]
    xml.append(E('rule', {'name': 'top', 'comment': 'c'}, *[item_xml(x, classes) for x in items]))
    doc = E('lgr', {}, E('meta'), E('data', {}, E('char', {'cp': '0061'})), E('rules', {}, *(classes + xml)))
    ref = p07.Ref(label, named, anchor, index)
    if anchor is not None:
        want = Or(list(ref.seq(items, index).values()))
    else:
        want = Or([c for i in range(len(label) + 1) for c in ref.seq(items, i).values()])
    src = source(ctx, doc)
    trees = []
    for turn in range(2):
        db = database(ctx)
        p, l = read(ctx, src, force=False, db=db)
        got = bool(l.rules_lookup['top'].matches(label, l.rules_lookup, l.classes_lookup, db, anchor=anchor, index=index))
        ctx.check(Iff(got, want), 'the rules read match the labels their definition denotes')
        ctx.check(l.rules == list(named) + ['top'], 'rules are read in order')
        ctx.check(l.classes == ['k%d' % k for k in range(len(classes))], 'classes are read in order')
        trees.append([[tree(ctx, x) for x in l.rules_xml], [tree(ctx, x) for x in l.classes_xml]])
        src = write(ctx, l, ctx.pick('pretty', cfg['pretty']) if not turn else False)
    ctx.check(deep_eq(trees[0], trees[1]), 'the definitions are kept')
    ctx.observe([got])


def class_xml(ctx, e, form, name=None, counter=None):
    at = {'name': name}
    k = e[0]
    if k == 'list':
        pad = ctx.cfg.get('pads', [''])
        if form == 'text':
            return E('class', at, text=(pad[-1] + words([hexa(c) for c in e[1]]) + pad[-1]) if e[1] else None)
        if form == 'span':        # the last two code points are the bounds of a span of three
            w = [hexa(c) for c in e[1][:-1]] + [hexa(e[1][-1]) + '-' + hexa(e[1][-1] + 2)]
            return E('class', at, text=words(w))
        if form == 'chars':
            return E('class', at, *[E('char', {'cp': hexa(c, 6, False)}) for c in e[1]])
        return E('class', at, *([E('char', {'cp': hexa(c)}) for c in e[1][:-1]] + [E('range', {'first-cp': hexa(e[1][-1]), 'last-cp': hexa(e[1][-1] + 2)})]))
    if k == 'tag':
        return E('class', dict(at, **{'from-tag': e[1]}))
    if k == 'prop':
        return E('class', dict(at, property='sc:' + e[1]))
    if k == 'byref':
        return E('class', dict(at, **{'by-ref': e[1]}))
    tag = {'not': 'complement', 'or': 'union', 'and': 'intersection', 'sub': 'difference', 'xor': 'symmetric-difference'}[k]
    return E(tag, at, *[class_xml(ctx, x, form) for x in e[1:]])


def spread(e, form):
    """the code points the form writes for an expression"""
    if e[0] == 'list':
        if form in ('span', 'range') and e[1]:
            last = e[1][-1]
            return ('list', tuple(e[1]) + (last + 1, last + 2))
        return e
    return (e[0],) + tuple(spread(x, form) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in e[1:])


def classes(ctx):
    from checks import p08
    install(ctx)
    cfg = ctx.cfg
    form = ctx.pick('form', cfg['forms'])
    named = {'n0': ('list', cps(ctx, 'n0', ctx.pick('n0n', cfg['sizes']))), 'n1': ('tag', 't')}
    e = p08.expr(ctx, 'e', cfg['ops'], cfg['leaves'], cfg['depth'])
    if e[0] == 'byref':
        return
    tagged = cps(ctx, 'tag', 1)
    for x in (named['n0'], e):
        for q in lists(x):
            if form in ('span', 'range') and q:
                ctx.assume(q[-1] + 2 <= 0x10FFFF)
    doc = E('lgr', {}, E('meta'), E('data', {}, E('char', {'cp': hexa(tagged[0]), 'tag': 'u t'})),
            E('rules', {}, *([class_xml(ctx, x, form, nm) for nm, x in named.items()] + [class_xml(ctx, e, form, 'top')])))
    src = source(ctx, doc)
    sem_named = {nm: spread(x, form) for nm, x in named.items()}
    c = ctx.cp('c')
    ctx.assume(Or(c < 0xD800, c > 0xDFFF))
    slow = p08.copies(e)
    trees = []
    for turn in range(2):
        db = ModelDB(ctx) if slow or p08.uses(e, 'prop') else database(ctx)
        p, l = read(ctx, src, force=False)
        sem = p08.Sem(db, sem_named, {'t': tagged, 'u': tagged})
        for nm, x in list(sem_named.items()) + [('top', spread(e, form))]:
            s = l.classes_lookup[nm].get_pattern(l.rules_lookup, l.classes_lookup, db, as_set=True)
            ctx.check(Iff(c in s if not ctx.symbolic and not isinstance(db, ModelDB) else s.has(c), sem.has(x, c)), 'the classes read have the code points their definition denotes')
        ctx.check(l.classes == ['n0', 'n1', 'top'], 'classes are read in order')
        trees.append([tree(ctx, x) for x in l.classes_xml])
        src = write(ctx, l, ctx.pick('pretty', cfg['pretty']) if not turn else False)
    ctx.check(deep_eq(trees[0], trees[1]), 'the definitions are kept')
    ctx.observe([1])


def lists(e):
    if e[0] == 'list':
        return [e[1]]
    return [q for x in e[1:] if isinstance(x, tuple) and x and isinstance(x[0], str) for q in lists(x)]


def actions(ctx):
    install(ctx)
    cfg = ctx.cfg
    n = ctx.pick('n', cfg['n'])
    xml, want = [], []
    twice = n == 2 and ctx.pick('twice', [False, True])
    for k in range(n):
        if k and twice:
            xml.append(xml[0])
            want.append(want[0])
            break
        disp = ['blocked', 'x'][k]
        m = ctx.pick('m%d' % k, ['', 'match', 'not-match'])
        vk = ctx.pick('v%d' % k, ['', 'any-variant', 'all-variants', 'only-variants'])
        vs = ctx.pick('vs%d' % k, cfg['types']) if vk else ''
        comment, ref = ctx.pick('c%d' % k, cfg['texts'] if not k else cfg['texts'][-1:])
        xml.append(E('action', {'disp': disp, m or 'match': 'w' if m else None, vk or 'any-variant': vs if vk else None, 'comment': comment, 'ref': ref}))
        want.append((disp, comment, (ref or '').split(), 'w' if m == 'match' else None, 'w' if m == 'not-match' else None) +
                    tuple(set(vs.split()) if vk == a else None for a in ('any-variant', 'all-variants', 'only-variants')))
    c = ctx.cp('c')
    src = source(ctx, E('lgr', {}, E('meta'), E('data', {}, E('char', {'cp': hexa(c)})), E('rules', {}, E('rule', {'name': 'w'}, E('char', {'cp': hexa(c)})), *xml)))
    trees = []
    for turn in range(2):
        p, l = read(ctx, src, force=False)
        got = [(a.disp, a.comment, [str(r) for r in a.references], a.match, a.not_match) + tuple(None if s is None else set(s) for s in (a.any_variant, a.all_variants, a.only_variants)) for a in l.actions]
        ctx.check(got == want, 'the actions read are those of the document')
        ctx.check(And(len(l.repertoire) == 1, l.check_cp([c])), 'the entries are read')
        trees.append([tree(ctx, x) for x in l.actions_xml + l.rules_xml])
        src = write(ctx, l, ctx.pick('pretty', cfg['pretty']) if not turn else False)
    ctx.check(deep_eq(trees[0], trees[1]), 'the definitions are kept')
    ctx.observe([n])


ATTRS = [(None, [], []), ('', ['t'], []), ('a <b> & "c"\nd', ['u-1', 't'], ['7', '0'])]
VATTRS = [(None, None, []), ('x', 'c&', ['7']), ('', '', [])]
HARNESSES = [
    Harness('entries', stored, '2 entries of up to 2 code points with up to 1 variant each', quick=dict(shapes=[(1,), (1, 2), (2, 2)], attrs=ATTRS, rules='-wn', ranges=[False], nvars=[0, 1], targets=[1, 2], vattrs=[(None, None, []), ('x', 'c&', ['7'])], vrules='-wn', pretty=[False], force=[False], few=3),
            must_reach=['the entries read are those written', 'the class of a tag has the code points with the tag']),
    Harness('ranges', stored, 'a range and an entry of up to 2 code points', quick=dict(shapes=[(1,), (2,)], attrs=ATTRS, rules='-w', ranges=[True], nvars=[0], pretty=[False, True], force=[False, True])),
    Harness('variants', stored, 'an entry with up to 2 variants', quick=dict(shapes=[(1,), (2,)], attrs=ATTRS[:1], rules='-', ranges=[False], nvars=[2], targets=[1, 2], vattrs=VATTRS, vrules='-wn', pretty=[False], force=[True, False])),
    Harness('order', order, 'documents of up to 3 entries of up to 2 code points in any order', quick=dict(shapes=[(1, 1, 1), (1, 2, 1), (2, 1, 2), (2, 2), (1, 'r', 1)]), must_reach=['entries out of order are reported', 'entries equal to the start of the one before are reported', 'repeated entries are reported', 'repeated entries are refused']),
    Harness('repeated', order, 'documents of 2 entries with a variant each', quick=dict(shapes=[(1, 1), (2, 2)], variants=True), must_reach=['each entry has the variants the document gives it']),
    Harness('metadata', metadata, 'dates, versions, languages, scopes', quick=dict(vary=['version', 'date', 'start', 'end', 'unicode', 'languages', 'scopes'], meta=[True], rules=[True], reversed=[False, True]), must_reach=['metadata is read']),
    Harness('descriptions', metadata, 'descriptions and references, documents without optional parts', quick=dict(vary=list(META_CASES)[:1] + ['description', 'refs', 'unicode'], meta=[True], rules=[True, False]), must_reach=['references are read', 'the Unicode version is read']),
    Harness('no metadata', metadata, 'documents without metadata', quick=dict(vary=[], meta=[False, True], rules=[True, False], none=True), must_reach=['the Unicode version is read']),
    Harness('rules', rules, 'rules of up to 2 elements, labels of up to 2 code points',
            quick=dict(len=[2], items=['leaf'], leaves=['c1', 'kr', 'kn', 'any', 'end'], counts=[None, '0:1'], labels=[1, 2], pretty=[False]),
            thorough=dict(len=[1, 2], items=['leaf', 'or', 'sub', 'ref'], leaves=['c1', 'c2', 'k2', 'kr', 'kn', 'any', 'end', 'start'], inner=['c1', 'start'], counts=[None, '1+', '2'], labels=[2], pretty=[False]),
            must_reach=['the rules read match the labels their definition denotes']),
    Harness('nested rules', rules, 'rules of one element with parts, labels of up to 2 code points', quick=dict(len=[1], items=['or', 'sub', 'ref', 'ahead', 'behind'], leaves=['c1', 'any'], inner=['c1', 'kn', 'start'], counts=[None, '2'], labels=[2], pretty=[True]),
            thorough=dict(len=[1], items=['or', 'or2', 'sub', 'ref', 'ahead', 'behind'], leaves=['c1', 'any'], inner=['c1', 'c2', 'kr', 'kn', 'any', 'start', 'end'], counts=[None, '1+', '2'], labels=[1, 2], pretty=[True]), must_reach=['the rules read match the labels their definition denotes']),
    Harness('context', rules, 'context rules of an element before and an element after the anchor', quick=dict(len=[2], items=['leaf'], leaves=['c1', 'kr', 'any', 'start'], inner=['c1', 'any'], counts=[None], labels=[2], anchor=[True], pretty=[True]),
            thorough=dict(len=[2], items=['leaf'], leaves=['c1', 'kr', 'any', 'start', 'end'], inner=['c1', 'any'], counts=[None, '1+'], labels=[2, 3], anchor=[True], pretty=[True])),
    Harness('classes', classes, 'class expressions with one operation over operands of up to 2 code points', quick=dict(forms=['text'], sizes=[1], ops=['leaf', 'not', 'or', 'or3', 'and', 'sub', 'xor'], leaves=['l1', 'tag', 'byref'], depth=1, pretty=[False]),
            thorough=dict(forms=['text', 'span', 'chars', 'range'], sizes=[1, 2], ops=['leaf', 'not', 'or', 'or3', 'and', 'sub', 'xor'], leaves=['l2', 'tag', 'byref', 'prop'], depth=1, pretty=[False, True]), must_reach=['the classes read have the code points their definition denotes']),
    Harness('class texts', classes, 'classes of up to 3 code points, spans and properties', quick=dict(forms=['text', 'span', 'chars', 'range'], sizes=[1], ops=['leaf'], leaves=['l1', 'l2', 'prop'], depth=1, pretty=[True, False], pads=['\n  ']), thorough=dict(forms=['text', 'span', 'chars', 'range'], sizes=[1], ops=['leaf'], leaves=['l1', 'l2', 'l3', 'prop', 'tag'], depth=1, pretty=[True, False], pads=['\n  '])),
    Harness('actions', actions, 'up to 2 actions', quick=dict(n=[0, 1, 2], types=['x', 'x  y'], texts=[(None, None), ('c <', '1 A-2')], pretty=[False]), must_reach=['the actions read are those of the document']),
]
META = dict(assumptions=['the XML library hands back the names, attributes and texts it was given (its line end normalisation aside)'], outside='more entries; texts other than those listed; carriage returns in texts')
