"""Concrete replays: python3-vt -m symex.replay PID TIER < json lines, or --file replay.json"""
import json
import os
import sys
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)


def one(mod, tier, harness, inputs, snap, findings=()):
    from symex import ctx as X
    from symex import engine as E
    from symex import loader
    loader.restore(snap)
    h = next(h for h in mod.HARNESSES if h.name == harness)
    c = X.ConcCtx(inputs, tier, h.cfgs[tier])
    c.findings = findings
    try:
        h.fn(c)
        return {'status': 'ok', 'observed': c.observed}
    except X.Violation as v:
        return {'status': 'violation', 'label': v.label, 'error': 'obligation fails: ' + v.label}
    except E.Infeasible as e:
        return {'status': 'infeasible', 'error': str(e)}
    except E.PathEnd as e:
        return {'status': 'pathend', 'error': str(e)}
    except (Exception, RecursionError) as e:
        return {'status': 'exception', 'error': '%s: %s' % (type(e).__name__, str(e)[:300]), 'tb': traceback.format_exc(limit=-8)}


def main():
    from symex import runner, loader
    if sys.argv[1] == '--file':
        rec = json.load(open(sys.argv[2]))
        mod = runner.load_property(rec['property'], False)
        r = one(mod, rec['tier'], rec['harness'], rec['inputs'], loader.snapshot(),
                tuple(runner.known_findings(rec['property'])))
        print(json.dumps(r, indent=1))
        if r.get('tb'):
            print(r['tb'])
        return 1 if r['status'] in ('violation', 'exception') else 0
    pid, tier = sys.argv[1:3]
    mod = runner.load_property(pid, False)
    findings = tuple(runner.known_findings(pid))
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    snap = loader.snapshot()
    for line in sys.stdin:
        j = json.loads(line)
        r = one(mod, tier, j['harness'], j['inputs'], snap, findings)
        out.write(json.dumps(r, default=str) + '\n')
        out.flush()
    return 0


if __name__ == '__main__':
    sys.exit(main())
