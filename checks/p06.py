from checks.common import *


def permitted(base):
    """scripts permitted alongside: RFC-independent restatement of the documented table"""
    s = set(base)
    if s & {'Katakana', 'Hiragana'}:
        s |= {'Katakana', 'Hiragana', 'Han', 'Latin'}
    if s & {'Hangul', 'Han'}:
        s.add('Latin')
    return s


IGNORED = {'Common', 'Inherited'}


def whole(ctx, scr, base, lab, chosen, hid):
    """every entry of the label replaced by a variant, all in one single script (or the same ones, permitted together) the label does not have"""
    if all(isvar for _, isvar in chosen):
        used = {scr(c) for c in lab}
        if all({scr(c) for c in cp} == used for cp, _ in chosen) and any(used <= permitted({s}) for s in used) and not used & (base | IGNORED):
            ctx.check(Or([deep_eq(o[0], lab) for o in hid]), 'variants in one other script are not hidden')


def sequences(ctx):
    """labels with a sequence, whose code points may be entries too"""
    cfg = ctx.cfg
    db = StubDB(ctx, scripts=ctx.pick('scripts', cfg['scripts']))
    l = lgr(db=db)
    a, b, c = cps(ctx, 'c', 3)
    distinct(ctx, [(a,), (b,), (c,)])
    seq = Ent((a, b), variants=[Var(cps(ctx, 'v', ctx.pick('len', cfg['lens'])), 'blocked')])
    one = Ent((c,), variants=[Var(cps(ctx, 'w', 1), 'blocked')])
    ents = [seq, one]
    if ctx.flag('alone'):
        ents.append(Ent((b,), variants=[Var(cps(ctx, 'x', 1), 'blocked')] if ctx.flag('variant') else []))
    build(l, ents)
    parts = [seq, one] if ctx.flag('order') else [one, seq]
    label = tuple(x for e in parts for x in e.cp)
    hid = [o[:5] for o in l.compute_label_disposition(label, include_invalid=True, collect_log=False, hide_mixed_script_variants=True)]
    scr = lambda c: str(db.get_script(c))
    base = permitted({scr(c) for c in label} - IGNORED)
    for lab, chosen in perms(parts, {}):
        if all(all(scr(c) in base for c in cp) for cp, isvar in chosen if isvar):
            ctx.check(Or([deep_eq(o[0], lab) for o in hid]), 'variants in the scripts of the label are not hidden')
        whole(ctx, scr, base, lab, chosen, hid)
    ctx.observe([list(o[0]) for o in hid])


def overlapping(ctx):
    """labels with a sequence whose code points are both entries: two ways to divide the label"""
    cfg = ctx.cfg
    db = StubDB(ctx, scripts=ctx.pick('scripts', cfg['scripts']))
    l = lgr(db=db)
    a, b, c = cps(ctx, 'c', 3)
    distinct(ctx, [(a,), (b,), (c,)])
    ents = [Ent(cp, variants=[Var(cps(ctx, n, 1), 'blocked')] if ctx.flag(n) else []) for n, cp in (('s', (a, b)), ('x', (a,)), ('y', (b,)))]
    tail = [Ent((c,), variants=[Var(cps(ctx, 'z', 1), 'blocked')])] if ctx.pick('tail', cfg['tail']) else []
    build(l, (ents + tail) if ctx.flag('first') else (tail + ents[::-1]))
    label = (a, b) + tuple(e.cp[0] for e in tail)
    hid = [o[:5] for o in l.compute_label_disposition(label, include_invalid=True, collect_log=False, hide_mixed_script_variants=True)]
    scr = lambda c: str(db.get_script(c))
    base = permitted({scr(c) for c in label} - IGNORED)
    for parts in ([ents[0]] + tail, ents[1:] + tail):
        for lab, chosen in perms(parts, {}):
            if all(all(scr(c) in base for c in cp) for cp, isvar in chosen if isvar):
                ctx.check(Or([deep_eq(o[0], lab) for o in hid]), 'variants in the scripts of the label are not hidden')
            whole(ctx, scr, base, lab, chosen, hid)
    ctx.observe([list(o[0]) for o in hid])


def hiding(ctx):
    cfg = ctx.cfg
    sc = ctx.pick('scripts', cfg['scripts'])
    db = StubDB(ctx, scripts=sc)
    l = lgr(db=db)
    rules = add_stub_rules(ctx, l, ['w', 'n', 'we'])
    ents = shape_ents(ctx, cfg['shapes'], cfg['types'])
    build(l, ents)
    order = ctx.pick('order', [o for o in cfg['labels'] if max(o) < len(ents)])
    parts = [ents[k] for k in order]
    label = tuple(c for e in parts for c in e.cp)
    if not ref_eligible(ents, rules, label):
        return
    hid = [o[:5] for o in l.compute_label_disposition(label, include_invalid=True, collect_log=False, hide_mixed_script_variants=True)]
    full = [o[:5] for o in l.compute_label_disposition(label, include_invalid=True, collect_log=False)]
    ctx.check(deep_eq(tuple(hid[-1][0]), label), 'the original label comes last')
    for o in hid:
        ctx.check(Or([And(deep_eq(o[0], f[0]), o[1] == f[1], o[4] == f[4]) for f in full]), 'returned labels are also returned without hiding')
    scr = lambda c: str(db.get_script(c))
    base = permitted({scr(c) for c in label} - IGNORED)
    for o in hid[:-1]:
        used = {scr(c) for c in o[0]}
        for c in o[0]:      # common code points kept from the label belong to every script
            if scr(c) in IGNORED and any(deep_eq(c, x) for x in label):
                used.discard(scr(c))
        ctx.check(used <= base or any(used <= permitted({s}) for s in used - IGNORED), 'returned labels are in permitted scripts')
    for lab, chosen in perms(parts, rules):
        if all(all(scr(c) in base for c in cp) for cp, isvar in chosen if isvar):
            ctx.check(Or([deep_eq(o[0], lab) for o in hid]), 'variants in the scripts of the label are not hidden')
        whole(ctx, scr, base, lab, chosen, hid)
    ctx.observe([list(o[0]) for o in hid])


def perms(parts, rules, i=0, prefix=(), chosen=()):
    """(label, choice per entry) for every permutation of the entries"""
    if i == len(parts):
        return [(prefix, chosen)]
    e = parts[i]
    rest = tuple(c for p in parts[i + 1:] for c in p.cp)
    out = perms(parts, rules, i + 1, prefix + e.cp, chosen + ((e.cp, False),))
    for v in e.variants:
        if ctx_ok(rules, v.when, v.not_when, prefix + v.cp + rest, v.cp, len(prefix)):
            out += perms(parts, rules, i + 1, prefix + v.cp, chosen + ((v.cp, True),))
    return out


HS = [((('v', '-'),),), ((('v', '-'), ('v', '-')),), ((('s', '-'),),), ((('s', '-'),), (('v', '-'),)), ((('v', '-'),), (('v', '-'),)), ((('v', '-'),), ()),
      ((), (('v', '-'),)), ((('1', '-'),), (('0', '-'),)), ((('v', 'w'),), (('v', '-'), ('r', '-'))), ((('t', '-'),),)]
HARNESSES = [
    Harness('hiding', hiding, '1-2 entries, up to 2 variants each (single or pair, reflexive, mutual), every assignment of scripts to code points; labels of 1-2 (thorough 3) entries',
            quick=dict(shapes=HS, types=['x'], labels=[(0,), (0, 1)], scripts=[['Latin', 'Han', 'Hiragana'], ['Latin', 'Greek', 'Common'], ['Greek', 'Cyrillic', 'Latin']]),
            thorough=dict(shapes=HS, types=['x', 'blocked'], labels=[(0,), (0, 1), (1, 0), (0, 0), (0, 1, 0)],
                          scripts=[['Latin', 'Han', 'Hiragana'], ['Latin', 'Greek', 'Common'], ['Greek', 'Cyrillic', 'Latin', 'Inherited'], ['Hangul', 'Latin', 'Han', 'Katakana']]),
            must_reach=['returned labels are in permitted scripts', 'variants in the scripts of the label are not hidden']),
    Harness('sequences', sequences, 'labels of a pair of code points that is an entry, and a code point; each with a variant; the second code point of the pair may be an entry too',
            quick=dict(lens=[1], scripts=[['Latin', 'Greek']]), thorough=dict(lens=[1, 2], scripts=[['Latin', 'Greek', 'Common'], ['Han', 'Hiragana', 'Latin']]),
            must_reach=['variants in one other script are not hidden']),
    Harness('more scripts', hiding, 'as hiding, smaller, over further sets of scripts',
            quick=dict(shapes=[((('v', '-'),), ()), ((('s', '-'),),)], types=['blocked'], labels=[(0,), (0, 1)],
                       scripts=[['Greek', 'Latin', 'Han'], ['Hangul', 'Cyrillic', 'Latin'], ['Inherited', 'Greek', 'Latin'], ['Katakana', 'Hangul', 'Hiragana']]),
            thorough=dict(shapes=[((('v', '-'),), (('v', '-'),)), ((('s', '-'),), (('s', '-'),))], types=['blocked'], labels=[(0,), (0, 1)],
                          scripts=[['Greek', 'Latin', 'Han'], ['Hangul', 'Cyrillic', 'Latin'], ['Inherited', 'Greek', 'Latin'], ['Katakana', 'Hangul', 'Hiragana']]),
            must_reach=['variants in one other script are not hidden']),
    Harness('overlapping', overlapping, 'labels of two (thorough: and three) code points, each and both together entries, with a variant or none',
            quick=dict(scripts=[['Latin', 'Greek']], tail=[False]), thorough=dict(scripts=[['Latin', 'Greek', 'Cyrillic'], ['Han', 'Hiragana', 'Latin']], tail=[False, True]),
            must_reach=['variants in one other script are not hidden']),
    Harness('longer', hiding, '3-entry labels with a variant on one or two of the entries, every assignment of scripts to code points',
            quick=dict(shapes=[((), (), (('v', '-'),)), ((('v', '-'),), (), ())], types=['blocked'], labels=[(0, 1, 2)], scripts=[['Latin', 'Greek', 'Common']]),
            thorough=dict(shapes=[((), (), (('v', '-'),)), ((('v', '-'),), (), ()), ((), (('v', '-'),), ()), ((('v', '-'),), (), (('v', '-'),))], types=['x', 'blocked'], labels=[(0, 1, 2), (0, 2, 1, 2)],
                          scripts=[['Latin', 'Greek', 'Common'], ['Han', 'Hangul', 'Inherited', 'Greek']])),
]
META = dict(assumptions=['context rules answer an arbitrary function of (label, entry, position); see P07', 'scripts are an arbitrary function of the code point (a few script names)'],
            outside='labels over 3 entries; more than 2 variants per entry; labels with several partitions')
