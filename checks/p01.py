from checks.common import *


def eligibility(ctx):
    shapes, L = ctx.cfg['shapes'], ctx.pick('L', ctx.cfg['lengths'])
    shape = ctx.pick('shape', shapes)
    l = lgr()
    rules = add_stub_rules(ctx, l, ['wa', 'wb'])
    ents = []
    for k, (n, modes) in enumerate(shape):
        cp = cps(ctx, 'e%d' % k, n)
        mode = ctx.pick('m%d' % k, modes)
        ents.append((cp, 'wa' if mode == 'w' else None, 'wb' if mode == 'n' else None))
    distinct(ctx, [e[0] for e in ents])
    for cp, w, nw in ents:
        l.add_cp(list(cp) if len(cp) > 1 else cp[0], when=w, not_when=nw)
    label = cps(ctx, 'l', L)
    res, parts, bad, disp, idx, log = l.test_label_eligible(label, collect_log=False)
    # reference: longest entry first, left to right
    i, eparts, ebad = 0, [], []
    while i < L:
        excluded, took = [], 0
        for cp, w, nw in sorted(ents, key=lambda e: -len(e[0])):
            if len(cp) > L - i or not deep_eq(cp, label[i:i + len(cp)]):
                continue
            if ctx_ok(rules, w, nw, label, cp, i):
                took = len(cp)
                break
            excluded.append(w or nw)
        if took:
            eparts += label[i:i + took]
            i += took
        else:
            ebad.append((label[i], excluded or None))
            i += 1
    if ebad:
        ctx.check(res is False and disp == 'invalid', 'rejected label is reported invalid')
        ctx.check(deep_eq(list(parts), eparts), 'accepted parts')
        ctx.check(len(bad) == len(ebad), 'number of rejected code points')
        ctx.check(deep_eq([b[0] for b in bad], [b[0] for b in ebad]), 'rejected code points')
        ctx.check([b[1] for b in bad] == [b[1] for b in ebad], 'rules that excluded a code point')
    else:
        ctx.check(res is True and disp != 'invalid', 'accepted label is reported eligible')
        ctx.check(And(deep_eq(list(parts), list(label)), len(bad) == 0), 'accepted label has no rejected part')
    ctx.observe([res, list(parts), [b[0] for b in bad], [b[1] for b in bad]])


Q = [((1, '-w'), (1, '-n'), (2, '-w')), ((1, '-'), (2, '-wn'), (2, '-')), ((2, '-'), (3, '-w')),
     ((1, 'wn'), (2, 'n'), (3, 'w'))]
T = Q + [((1, '-wn'), (1, '-'), (2, '-wn'), (2, '-')), ((1, '-'), (2, 'wn'), (3, 'wn'), (2, '-')), ((1, '-w'), (3, 'wn'), (4, '-wn'))]

HARNESSES = [Harness('eligibility', eligibility,
                     'repertoires of up to 3 entries of 1-3 code points (thorough: 4 entries of 1-4), every code point '
                     'symbolic over 0..10FFFF, each entry without, with a when or with a not-when rule of arbitrary truth; '
                     'labels of up to 3 (thorough 4) symbolic code points',
                     quick=dict(shapes=Q, lengths=[1, 2, 3]), thorough=dict(shapes=T, lengths=[1, 2, 3, 4]),
                     must_reach=['rejected label is reported invalid', 'rules that excluded a code point',
                                 'accepted label is reported eligible'])]
META = dict(assumptions=['context rules answer an arbitrary function of (label, evaluated entry, position); see P07',
                         'no Unicode database attached (IDNA checks: P11)'],
            outside='longer labels, larger repertoires, entries longer than 4 code points')
