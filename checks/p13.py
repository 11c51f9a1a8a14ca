from checks.common import *
from checks.history import *


def citations(ctx):
    """additions (explicit or generated ids), citations and deletions of references"""
    cfg = ctx.cfg
    l, m = lgr(), Model()
    defined = {}
    for k, ops in enumerate(cfg['ops']):
        op = ctx.pick('op%d' % k, ops)
        before = state(l)
        if op == 'gen':
            ok, rid = attempt(l.add_reference, 'v%d' % k)
            ctx.check(ok, 'a generated id never clashes')
            ctx.check(ok and isinstance(rid, str) and rid not in defined, 'a generated id never clashes')
            defined[rid] = 'v%d' % k
        elif op == 'set':
            i = ctx.pick('id%d' % k, cfg['ids'])
            ok, rid = attempt(l.add_reference, 'v%d' % k, ref_id=i)
            ctx.check(ok == (str(i) not in defined), 'an id that exists is refused')
            if ok:
                ctx.check(rid == str(i), 'the chosen id is used')
                defined[str(i)] = 'v%d' % k
        elif op == 'del':
            i = ctx.pick('id%d' % k, cfg['ids'])
            ok, _ = attempt(l.del_reference, i)
            ctx.check(ok == (str(i) in defined), 'only a defined reference is deleted')
            if ok:
                del defined[str(i)]
                for e in m.entries:
                    e.refs = [r for r in e.refs if r != str(i)]
                    for v in e.variants:
                        v[4] = tuple(r for r in v[4] if r != str(i))
            else:
                ctx.check(state_eq(before, state(l)), 'deleting an undefined reference changes nothing')
        elif op == 'upd':
            i = ctx.pick('id%d' % k, cfg['ids'])
            value, comment = ctx.pick('value%d' % k, [(None, 'c'), ('u', 'c'), ('', ''), ('u', None)])
            old = dict(l.reference_manager.get(str(i), {}))
            ok, _ = attempt(l.reference_manager.update_reference, i, value=value, comment=comment)
            ctx.check(ok == (str(i) in defined), 'only a defined reference is updated')
            if ok:
                ctx.check(l.reference_manager[str(i)].get('comment') == (old.get('comment') if comment is None else comment), 'an update replaces what it is given')
                defined[str(i)] = defined[str(i)] if value is None else value
        elif op in ('cite', 'citev', 'citer', 'citef'):
            ids = ctx.pick('ids%d' % k, cfg['cites'])
            names = [str(i) for i in ids]
            good = all(n in defined for n in names) and len(set(names)) == len(names)
            cp = cps(ctx, 's%d' % k, 1)
            if op == 'citev':
                e = m.entries[0] if m.entries else None
                ctx.assume(e is not None and e.rng is None)
                ok, _ = attempt(l.add_variant, list(e.cp), list(cp), ref=list(ids))
                want = good and not any(deep_eq(v[0], cp) for v in e.variants)
                if want:
                    e.variants.append([cp, None, None, None, tuple(names)])
            elif op == 'citer':
                ok, _ = attempt(l.add_range, cp[0], cp[0] + 1, ref=list(ids))
                want = good and m.add_range(cp[0], 2, refs=names)
            else:
                force = op == 'citef'
                ok, _ = attempt(l.add_cp, list(cp), ref=list(ids), force=force)
                names = [n for n in names if n in defined]
                want = (good or force) and m.add(cp, refs=names)
            ctx.check(ok == bool(want), 'a citation is refused exactly when the reference is undefined or repeated')
        mgr = l.reference_manager
        ctx.check(set(mgr) == set(defined) and all(isinstance(i, str) for i in mgr), 'the references are those added and not deleted')
        ctx.check(all(mgr[i]['value'] == v for i, v in defined.items()), 'the references are those added and not deleted')
        ctx.check(flat_eq([(x[0], x[1], tuple(map(str, x[2][1])), tuple((v[0], tuple(map(str, v[4]))) for v in x[3])) for x in flat(l)],
                          [(x[0], x[1], tuple(x[2][1]), tuple((v[0], v[4]) for v in x[3])) for x in m.flat()]), 'entries and variants cite what they were given and was not deleted')
        for c in l.repertoire.all_repertoire():
            for r in list(c.references) + [r for v in c.get_variants() for r in v.references]:
                ctx.check(r in mgr, 'no undefined reference is cited')
    ctx.observe([sorted(defined), [list(map(str, c.references)) for c in l.repertoire]])


def many(ctx):
    """many references: chosen and generated ids never clash"""
    l = lgr()
    start = ctx.pick('start', ctx.cfg['start'])
    ids = [l.add_reference('v', ref_id=str(start + k) if ctx.cfg['chosen'] else None) for k in range(12)]
    gone = ctx.pick('gone', [None, 0, 9, 11])
    if gone is not None:
        l.del_reference(ids.pop(gone))
    for k in range(3):
        ok, r = attempt(l.add_reference, 'v')
        ctx.check(ok and r not in ids, 'a generated id never clashes')
        ids.append(r)
    ctx.check(set(l.reference_manager) == set(ids), 'the references are those added and not deleted')


def ident(ctx):
    """an explicit id is accepted exactly when made of the characters of an identifier"""
    from lgr.metadata import ReferenceManager
    mgr = ReferenceManager()
    s, codes = symtext(ctx, 'id', ctx.pick('n', ctx.cfg['lens']))
    ok, r = attempt(mgr.add_reference, 'v', ref_id=s)
    good = And([Or(And(c >= 48, c <= 57), And(c >= 65, c <= 90), c == 45, c == 95, c == 46, c == 58) for c in codes])
    ctx.check(Iff(good, ok), 'ids are made of digits, upper case letters, - _ . :')
    ctx.check(len(mgr) == (1 if ok else 0), 'a refused id is not stored')
    ctx.observe(ok)


HARNESSES = [
    Harness('history', citations, 'histories of 4 (5) reference additions with chosen (text or integer) or generated ids, citations by code points, ranges and variants, updates, deletions',
            quick=dict(ops=[['gen', 'set'], ['gen', 'set', 'cite', 'citer', 'del'], ['gen', 'cite', 'citev', 'citer', 'citef', 'del'], ['gen', 'del', 'upd']], ids=['0', '1', 0], cites=[('0',), (1,), ('0', '1'), ('0', '0')]),
            thorough=dict(ops=[['gen', 'set'], ['gen', 'set', 'cite', 'citer', 'del'], ['gen', 'cite', 'citev', 'citer', 'citef', 'del'], ['gen', 'set', 'citev', 'del'], ['gen', 'del', 'upd']],
                          ids=['0', '1', 0, 2, 'A'], cites=[('0',), (1,), ('0', '1'), ('0', '0'), ('0', 0)]),
            must_reach=['deleting an undefined reference changes nothing', 'no undefined reference is cited', 'a generated id never clashes']),
    Harness('many', many, '12 references, one of which may be deleted, then 3 more', quick=dict(start=[0, 1], chosen=True), thorough=dict(start=[0, 1, 2, 9], chosen=True)),
    Harness('ident', ident, 'ids of 1-3 (4) arbitrary characters', quick=dict(lens=[1, 2, 3]), thorough=dict(lens=[1, 2, 3, 4])),
]
META = dict(assumptions=['ids are drawn from a few texts and integers (code points are arbitrary)'], outside='histories over 5 steps; references of classes, rules and actions')
