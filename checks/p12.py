from checks.common import *
from checks.history import *

TAGS = [(), ('t',), ('t', 'u'), ('t', 'u', 't')]


def history(ctx):
    cfg = ctx.cfg
    l, m = lgr(), Model()
    gone = set()
    for k, ops in enumerate(cfg['ops']):
        op = ctx.pick('op%d' % k, ops)
        if op in ('add1', 'add2', 'addr', 'addrf'):
            tags = ctx.pick('t%d' % k, cfg['tags'])
            twice = len(set(tags)) != len(tags)      # repeated tags need force
            if op == 'add2':        # tags on a sequence need force
                cp = cps(ctx, 's%d' % k, 2)
                want = m.add(cp, tags=tags)
                ok, _ = attempt(l.add_cp, list(cp), tag=list(tags), force=True)
            elif op == 'add1':
                cp = cps(ctx, 's%d' % k, 1)
                want = m.add(cp, tags=tags)
                ok, _ = attempt(l.add_cp, cp[0] if ctx.cfg.get('scalar') else list(cp), tag=list(tags), force=twice)
            else:
                f, n = ctx.cp('s%d' % k), ctx.pick('n%d' % k, cfg['sizes'])
                want = m.add_range_forced(f, n, tags=tags) if op == 'addrf' or twice else m.add_range(f, n, tags=tags)
                ok, _ = attempt(l.add_range, f, f + (n - 1), tag=list(tags), force=op == 'addrf' or twice)
            if want:
                gone -= set(tags)
        elif op in ('del1', 'del2'):
            cp = cps(ctx, 's%d' % k, int(op[3]))
            want = m.delete(cp) is not None
            ok, _ = attempt(l.del_cp, list(cp))
        elif op in ('delr', 'exp'):
            f = ctx.cp('s%d' % k)
            la = f + (ctx.pick('n%d' % k, cfg['sizes']) - 1)
            want = m.delete_range(f, la) if op == 'delr' else m.expand(f, la)
            ok, _ = attempt(l.del_range if op == 'delr' else l.expand_range, f, la)
        elif op == 'deltag':
            t = ctx.pick('t%d' % k, ['t', 'u'])
            for e in m.entries:
                e.tags = [x for x in e.tags if x != t]
            gone.add(t)
            want = True
            ok, _ = attempt(l.del_tag, t)
        ctx.check(ok == bool(want), 'edits succeed exactly when they apply')
        classes = l.get_tag_classes()
        for t in ('t', 'u'):
            want = [c for e in m.entries if t in e.tags for x in e.members() for c in x]
            got = list(classes[t].codepoints) if t in classes else []
            ctx.check(set_eq(got, want), 'the class of a tag holds the code points of the entries that carry it')
            if t in gone:
                ctx.check(t not in classes and t not in l.all_tags(), 'deleting a tag removes its class')
        ctx.check(set(l.all_tags()) == set(classes), 'all_tags lists the classes')
        ctx.check(set(classes) <= {'t', 'u'}, 'all_tags lists the classes')
    ctx.check(multiset_eq([(x[0], x[2][0]) for x in flat(l)], [(x[0], x[2][0]) for x in m.flat()]), 'entries carry the tags they were given and that were not deleted')
    ctx.observe([len(c.codepoints) for _, c in sorted(classes.items())])


ADD = ['add1', 'add2', 'addr']
ALL = ['add1', 'add2', 'addr', 'addrf', 'del1', 'del2', 'delr', 'exp', 'deltag']
HARNESSES = [
    Harness('history', history, 'histories of 3 (4) edits: tagged code points, pairs, ranges of 2-3 added, deleted, expanded, tags deleted, over arbitrary code points and up to 2 tags',
            quick=dict(ops=[ADD, ['add1', 'add2', 'del1', 'exp', 'deltag'], ['addrf', 'del1', 'del2', 'delr', 'deltag']], tags=[('t',), ('u', 't', 't')], sizes=[2]),
            thorough=dict(ops=[ADD, ALL, ALL], tags=TAGS, sizes=[2, 3]),
            must_reach=['the class of a tag holds the code points of the entries that carry it', 'deleting a tag removes its class']),
    Harness('ranges', history, 'two ranges, then the deletion or expansion of a range (thorough: two)',
            quick=dict(ops=[['addr'], ['addr'], ['delr', 'exp']], tags=[('t',), ('u',)], sizes=[2]),
            thorough=dict(ops=[['addr', 'addrf'], ['addr', 'addrf'], ['delr', 'exp'], ['delr', 'exp', 'del1', 'deltag']], tags=[('t',), ('u',)], sizes=[2])),
    Harness('longer', history, 'histories of 4 (5) edits of fewer kinds',
            quick=dict(ops=[['addr'], ['add2'], ['del1'], ['del2', 'delr', 'deltag']], tags=[('t',)], sizes=[3]),
            thorough=dict(ops=[['addr', 'add1'], ['add2', 'addr'], ['del1', 'deltag'], ['add1', 'addrf'], ['del1', 'del2', 'delr', 'deltag']], tags=[('t',)], sizes=[3])),
]
META = dict(assumptions=['code points are arbitrary integers; no Unicode database is attached'], outside='histories over 5 edits, more than 2 tags per entry, ranges over 3 code points')
