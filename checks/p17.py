"""RFC 7940 compliance results and validation."""
from checks.common import *
from lgr.rfc7940 import LGRFormatTestResults

CASES = ['basic_symmetry', 'parse_xml', 'own']
KINDS = ['tested', 'error', 'pass', 'fail']


def results(ctx):
    """any history of notifications, any policy"""
    cfg = ctx.cfg
    l = lgr()
    state = {}                     # test case -> condition "failed"
    r = l.metadata.rfc7940_checks
    policies = cfg['policies']
    for k in range(ctx.pick('n', cfg['n'])):
        case = ctx.pick('case%d' % k, CASES[:cfg['cases']])
        kind = ctx.pick('kind%d' % k, cfg['kinds'])
        if kind == 'tested':
            l.notify_tested(case)
        elif kind == 'error':
            l.notify_error(case)
        elif kind == 'sym':
            ok = ctx.bool('ok%d' % k)
            r.add_test_result(case, ok)
            state[case] = Or(state.get(case, False), Not(ok))
            continue
        else:
            r.add_test_result(case, kind == 'pass')
        state[case] = Or(state.get(case, False), kind in ('error', 'fail'))
    ctx.check(l.get_rfc7940_validation() == ('FAIL' if Or(list(state.values())) else 'PASS'), 'without policy any failure fails')
    policy = {}
    for c in CASES[:cfg['cases']]:
        p = ctx.pick('policy_' + c, policies)
        if p:
            policy[c] = p
    error = any(c not in state or (state[c] and policy[c] not in ('IGNORE', 'WARNING')) for c in policy)
    warn = any(state.get(c, False) and policy[c] == 'WARNING' for c in policy)
    want = 'FAIL' if error else 'WARN' if warn else 'PASS'
    ctx.check(l.get_rfc7940_validation(policy) == want, 'the policy decides the result')
    text = l.get_rfc7940_validation(policy, verbose=True)
    ctx.check(text.endswith('Validation result: ' + want), 'the verbose result ends with the result')
    lines = text.split('\n')[:-1]
    exp = []
    for c in policy:
        d = LGRFormatTestResults.test_desciption.get(c, c)
        if c not in state:
            exp.append('ERROR: %s - NOT EXECUTED' % d)
        elif not state[c]:
            exp.append('PASS: %s - OK' % d)
        else:
            exp.append('%s: %s - NOK' % (policy[c] if policy[c] in ('IGNORE', 'WARNING') else 'ERROR', d))
    ctx.check(lines == exp, 'the verbose result lists every test case of the policy')
    ctx.check(l.get_rfc7940_validation(policy) == want, 'asking does not change the result')
    ctx.check(l.get_rfc7940_validation() == ('FAIL' if Or(list(state.values())) else 'PASS'), 'asking does not change the result')
    ctx.observe([want, lines])


BASIC = ['check_xml_validity', 'check_symmetry', 'check_transitivity', 'check_conditional_variants', 'rebuild_lgr', 'compute_stats']
RFC = ['check_metadata', 'check_miscellaneous']
RFC_CASES = {'validity_end_expiry', 'validity_start_end', 'validity_started', 'metadata_description_type', 'metadata_scope_type',
             'metadata_version_integer', 'data_variant_type', 'ref_attribute_ascending', 'standard_dispositions', 'valid_unicode_version', 'codepoint_valid'}


def validate(ctx):
    """validations one after another"""
    from lgr.validate import validate_lgr
    from lgr.action import Action
    cfg = ctx.cfg
    for k in range(cfg['runs']):
        db = StubDB(ctx, scripts=None, idna=True)
        l = lgr(db=None)
        c = ctx.cp('c%d' % k)
        content = ctx.pick('content%d' % k, cfg['contents'])
        badtype = badref = False
        variants = []
        if content == 'range':
            l.add_range(c, c + 1)
            members = [c, c + 1]
        elif content == 'empty':
            members = []
        else:
            if content == 'refs':
                l.add_reference('a', ref_id=7)
                l.add_reference('b', ref_id=5)
            l.add_cp([c], ref=['7', '5'] if content == 'refs' else None)
            badref = content == 'refs'
            members = [c]
            if content != 'plain':
                v = ctx.cp('v%d' % k)
                t = ctx.pick('type%d' % k, cfg['types'])
                l.add_variant([c], [v], t)
                badtype = t is not None and (t == '' or t[0] == '_' or ' ' in t)
                members.append(v)
        disp = ctx.pick('disp%d' % k, cfg['disps'])
        if disp:
            l.add_action(Action(disp))
        l._unicode_database = db
        invalid = Or([Not(db.idna_valid(m)) for m in members])
        opts = {}
        asked = ctx.pick('rfc%d' % k, [None, True, False])
        if asked is not None:
            opts['rfc7940'] = asked
        got = validate_lgr(l, opts)
        names = [n for n, _ in got]
        ctx.check(sorted(names) == sorted(BASIC + (RFC if asked else [])), 'the compliance checks run exactly when asked')
        res = l.metadata.rfc7940_checks.test_result
        ctx.check(set(res) == {'basic_symmetry', 'strict_symmetry', 'basic_transitivity'} | (RFC_CASES if asked else set()), 'every compliance test case is executed when asked')
        if asked:
            ctx.check(Iff(res['codepoint_valid'], Not(invalid)), 'invalid code points are noted')
            ctx.check(res['data_variant_type'] == (not badtype), 'bad variant types are noted')
            ctx.check(res['ref_attribute_ascending'] == (not badref), 'references out of order are noted')
            ctx.check(res['standard_dispositions'] == (disp != 'mine'), 'dispositions that are not standard are noted')
        ctx.observe([names, sorted(res.items())])


def data(ctx):
    """what the checks of the data and rules note"""
    from lgr.validate.miscellaneous import check_miscellaneous
    from lgr.action import Action
    cfg = ctx.cfg
    db = StubDB(ctx, scripts=None, idna=True)
    l = lgr(db=None)
    for r in ('0', '1', '2', '10', 'A'):
        l.add_reference('text', ref_id=r)
    members, lists, types = [], [], []

    def refs(name):
        lists.append(ctx.pick(name, cfg['refs']) if sum(map(bool, lists)) < cfg['few'] else ())
        return list(lists[-1])
    ents = [cps(ctx, 'e%d' % k, n) for k, n in enumerate(ctx.pick('shape', cfg['shapes']))]
    distinct(ctx, ents)
    for k, e in enumerate(ents):
        l.add_cp(list(e), ref=refs('r%d' % k))
        members += e
        vs = []
        for j, n in enumerate(ctx.pick('vars%d' % k, cfg['vars'])):
            v = cps(ctx, 'v%d_%d' % (k, j), n)
            for o in vs:
                ctx.assume(Not(deep_eq(o, v)))
            vs.append(v)
            t = ctx.pick('t%d_%d' % (k, j), cfg['types']) if len(types) < cfg.get('vmax', 1) else 'a'
            types.append(t)
            l.add_variant(list(e), list(v), t, ref=refs('vr%d_%d' % (k, j)))
            members += v
    if ctx.pick('range', cfg['ranges']):
        f = ctx.cp('f')
        ctx.assume(And([Or(e[0] < f, e[0] > f + 1) for e in ents if len(e) == 1]))
        l.add_range(f, f + 1, ref=refs('rr'))
        members += [f, f + 1]
    disps = ctx.pick('disps', cfg['disps'])
    for d in disps:
        l.add_action(Action(d))
    l._unicode_database = db
    same = ctx.pick('version', cfg['versions'])
    if not same:
        l.metadata.unicode_version = '99.0.0'
    ok, _ = check_miscellaneous(l, {})
    res = l.metadata.rfc7940_checks.test_result
    badtype = any(t is not None and (t == '' or t[0] == '_' or ' ' in t) for t in types)
    badref = any(all(r.isdigit() for r in x) and list(map(int, x)) != sorted(map(int, x)) for x in lists)
    baddisp = any(d not in ('invalid', 'blocked', 'allocatable', 'activated', 'valid') for d in disps)
    ctx.check(res['data_variant_type'] == (not badtype), 'bad variant types are noted')
    ctx.check(res['ref_attribute_ascending'] == (not badref), 'references out of order are noted')
    ctx.check(res['standard_dispositions'] == (not baddisp), 'dispositions that are not standard are noted')
    bad = badtype or badref or baddisp
    if same:
        invalid = Or([Not(db.idna_valid(m)) for m in members])
        ctx.check(Iff(res['codepoint_valid'], Not(invalid)), 'invalid code points are noted')
        ctx.check(Iff(ok, Not(Or(bad, invalid))), 'the check succeeds when nothing is wrong')
    else:
        ctx.check('codepoint_valid' not in res and 'valid_unicode_version' not in res, 'code points are not checked against another Unicode version')
        ctx.check(ok == (not bad), 'the check succeeds when nothing is wrong')
    ctx.observe([ok, sorted(res.items())])


ST = 'the compliance checks run exactly when asked'
HARNESSES = [
    Harness('results', results, 'histories of up to 3 (4) notifications of 2 test cases, every policy over them',
            quick=dict(n=[0, 1, 2, 3], cases=2, kinds=KINDS, policies=[None, 'IGNORE', 'WARNING', 'ERROR']),
            thorough=dict(n=[3, 4], cases=2, kinds=KINDS, policies=[None, 'IGNORE', 'WARNING', 'ERROR', 'other']),
            must_reach=['the policy decides the result', 'the verbose result lists every test case of the policy']),
    Harness('flags', results, 'histories of up to 5 results whose success is symbolic, 2 (3) test cases',
            quick=dict(n=[2, 4], cases=1, kinds=['sym'], policies=[None, 'IGNORE', 'WARNING', 'ERROR']),
            thorough=dict(n=[2, 5], cases=3, kinds=['sym'], policies=[None, 'IGNORE', 'WARNING', 'ERROR'])),
    Harness('validate', validate, '2 (3) validations one after another of LGRs with none or one entry or range, a variant of any of some types, references, an action; IDNA validity arbitrary',
            quick=dict(runs=2, contents=['empty', 'range', 'refs'], types=['a', '_b'], disps=['', 'mine']),
            thorough=dict(runs=2, contents=['empty', 'plain', 'range', 'refs', 'variant'], types=['a', None, '', '_b', 'a b'], disps=['', 'blocked', 'mine']),
            must_reach=[ST, 'invalid code points are noted', 'every compliance test case is executed when asked']),
    Harness('references', data, '1-2 entries with up to 1 variant, or a range, with references in every order',
            quick=dict(shapes=[(1,), (2, 1)], vars=[(), (1,)], types=['a'], ranges=[False, True], refs=[(), ('1', '10'), ('10', '2'), ('0', '1'), ('2', 'A', '1'), ('2', '1', 'A')], disps=[()], versions=[False], few=2),
            thorough=dict(shapes=[(1,), (2, 1)], vars=[(), (1,), (1, 2)], types=['a'], ranges=[False, True], refs=[(), ('1', '2', '10'), ('1', '10'), ('10', '2'), ('0', '1'), ('2', 'A', '1'), ('2', '1', 'A')], disps=[()], versions=[False], few=3),
            must_reach=['references out of order are noted', 'the check succeeds when nothing is wrong']),
    Harness('types', data, '1-2 entries with up to 2 variants, up to 2 actions',
            quick=dict(shapes=[(1,), (1, 1)], vars=[(), (1,), (1, 1)], types=['a', None, '', 'a b', 'a_b', '_b', ' a'], ranges=[False], refs=[()], disps=[(), ('blocked', 'mine'), ('mine', 'valid'), ('allocatable', 'activated'), ('invalid',)], versions=[False], few=0, vmax=2),
            thorough=dict(shapes=[(1,), (1, 1)], vars=[(), (1,), (1, 1)], types=['a', None, '', 'a b', 'a_b', '_b', ' a'], ranges=[False, True], refs=[()], disps=[(), ('blocked', 'mine'), ('mine', 'valid'), ('allocatable', 'activated'), ('invalid',)], versions=[False], few=0, vmax=3),
            must_reach=['bad variant types are noted', 'code points are not checked against another Unicode version']),
    Harness('code points', data, '1-2 entries (code points, sequences) with up to 1 variant, a range; IDNA validity arbitrary',
            quick=dict(shapes=[(1,), (2,)], vars=[(), (2,)], types=['a'], ranges=[False, True], refs=[()], disps=[()], versions=[True], few=0),
            thorough=dict(shapes=[(1,), (2,), (1, 2)], vars=[(), (1,), (2,), (1, 1)], types=['a', '_b'], ranges=[False, True], refs=[()], disps=[(), ('mine',)], versions=[True], few=0, vmax=2),
            must_reach=['invalid code points are noted', 'the check succeeds when nothing is wrong']),
]
META = dict(assumptions=['the RNG schema is not given (P30)', 'IDNA validity is an arbitrary function of the code point'], outside='histories over 5 notifications, more than 3 test cases')
