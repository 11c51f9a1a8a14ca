"""
Explores harnesses of one property with worker processes, replays counterexamples on the unmodified
code, validates sampled paths against it, and writes the evidence file.
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import subprocess
import sys
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PATH_LIMIT = 40          # seconds of wall time for one path before it counts as non-terminating


class PathTimeout(BaseException):
    pass


def load_property(pid, symbolic):
    from symex import loader
    loader.load(symbolic)
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    base = os.path.join(loader.REPO, 'lgr')
    for d, dirs, files in sorted(os.walk(base)):
        if 'test_utils' in d:
            continue
        for f in sorted(files):
            if f.endswith('.py'):
                rel = os.path.relpath(os.path.join(d, f), loader.REPO)[:-3].replace(os.sep, '.')
                importlib.import_module(rel[:-9] if rel.endswith('.__init__') else rel)
    mod = importlib.import_module('checks.' + pid.lower())
    return mod


class Harness:
    """One symbolic entry: fn(ctx) builds symbolic inputs, runs the code of /repo and states obligations."""

    def __init__(self, name, fn, bounds, quick=None, thorough=None, must_reach=(), share=1.0):
        self.name = name
        self.fn = fn
        self.bounds = bounds
        self.cfgs = {'quick': quick or {}, 'thorough': thorough if thorough is not None else (quick or {})}
        self.must_reach = tuple(must_reach)


def known_findings(pid):
    out = {}
    fn = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line.startswith('known: '):
                f = dict(x.split('=', 1) for x in line[7:].split(' ', 2)[:2])
                if f.get('property') == pid:
                    out[f['id']] = line[7:].split(' ', 2)[2]
    return out


# ---------------------------------------------------------------------------------- workers
_funcs = set()
_lines = set()


def _monitor():
    mon = sys.monitoring
    mon.use_tool_id(4, 'symex')
    from symex import loader
    root = os.path.join(loader.REPO, 'lgr') + os.sep

    def start(code, off):
        if code.co_filename.startswith(root):
            _funcs.add(code.co_filename[len(root):] + ':' + code.co_qualname)
        return mon.DISABLE

    def line(code, ln):
        if code.co_filename.startswith(root):
            _lines.add((code.co_filename[len(root):], ln))
        return mon.DISABLE

    mon.register_callback(4, mon.events.PY_START, start)
    mon.register_callback(4, mon.events.LINE, line)
    mon.set_events(4, mon.events.PY_START | mon.events.LINE)


def _alarm(signum, frame):
    raise PathTimeout()


def _worker(conn, pid, mod, tier, seed, sample_rate, findings):
    from symex import engine as E
    from symex import ctx as X
    from symex import loader
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _monitor()
    snap = loader.snapshot()
    rng = random.Random(seed * 7919 + os.getpid() * 0)
    engines = {}
    while True:
        job = conn.recv()
        if job is None:
            break
        hi, prefixes, budget, deadline = job
        h = mod.HARNESSES[hi]
        eng = engines.get(hi)
        if eng is None:
            eng = engines[hi] = E.Engine(seed=seed)
        E.ENG = eng
        eng.stats = E.Stats()
        eng.deadline = deadline
        eng.pending = list(prefixes)
        res = {'h': hi, 'viol': [], 'samples': [], 'reached': set(), 'incon': [], 'known': [], 'exc': []}
        t_end = min(time.time() + budget, deadline)
        n = 0
        while eng.pending and time.time() < t_end:
            prefix = eng.pending.pop()
            loader.restore(snap)
            c = X.SymCtx(eng, tier, h.cfgs[tier])
            c.findings = findings
            clean = False
            eng.begin(prefix)
            signal.setitimer(signal.ITIMER_REAL, PATH_LIMIT)
            try:
                try:
                    h.fn(c)
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                clean = True
                eng.stats['paths'] += 1
                n += 1
                if n == 1 or rng.random() < sample_rate:
                    m = eng._need_model()
                    inp = c.inputs(m)
                    from symex import sym
                    res['samples'].append((inp, sym.evaluate(c.observed, m)))
            except E.Infeasible:
                eng.stats['infeasible'] += 1
                clean = True
            except E.Deadline:
                eng.pending.append(prefix)
                clean = False
                eng.prev = None
                break
            except E.Inconclusive as e:
                eng.stats['inconclusive'] += 1
                res['incon'].append(str(e))
                try:
                    res['samples'].append((c.inputs(eng._need_model()), None))
                except E.PathEnd:
                    pass
            except E.PathEnd:
                clean = True
                eng.stats['paths'] += 1
            except PathTimeout:
                try:
                    res['exc'].append(('no termination within %d s' % PATH_LIMIT, c.inputs(eng._need_model()), ''))
                except BaseException:
                    res['incon'].append('path time limit')
                    eng.stats['inconclusive'] += 1
            except z3_exceptions() as e:
                eng.stats['inconclusive'] += 1
                res['incon'].append('z3: %s' % e)
            except (Exception, RecursionError) as e:
                tb = traceback.format_exc(limit=-6)
                try:
                    m = eng._need_model()
                    res['exc'].append(('%s: %s' % (type(e).__name__, str(e)[:200]), c.inputs(m), tb))
                except E.PathEnd:
                    pass
                clean = True
            if clean:
                eng.end()
            else:
                eng.prev = None
            for label, inp in c.violations:
                res['viol'].append((label, inp))
            for x in c.known_hits:
                res['known'].append(x)
            res['reached'] |= c.reached
            if len(res['viol']) + len(res['exc']) >= 6:
                break
        res['pending'] = eng.pending
        eng.pending = []
        res['stats'] = dict(eng.stats)
        conn.send(res)
    conn.send({'funcs': _funcs, 'lines': _lines})
    conn.close()


def z3_exceptions():
    import z3
    return (z3.Z3Exception,)


# ---------------------------------------------------------------------------------- replaying
class Replayer:
    """Runs harnesses on concrete inputs in a plain interpreter with the unmodified modules."""

    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.proc = None
        self.lock = threading.Lock()

    def _start(self):
        env = dict(os.environ, PYTHONHASHSEED='0')
        self.proc = subprocess.Popen([sys.executable, '-W', 'ignore', '-m', 'symex.replay', self.pid, self.tier], cwd=VERIF, env=env,
                                     stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)

    def run(self, harness, inputs, timeout=PATH_LIMIT + 20):
        with self.lock:
            if self.proc is None or self.proc.poll() is not None:
                self._start()
            timed = []

            def kill():
                timed.append(1)
                self.proc.kill()
            t = threading.Timer(timeout, kill)
            t.start()
            try:
                self.proc.stdin.write(json.dumps({'harness': harness, 'inputs': inputs}) + '\n')
                self.proc.stdin.flush()
                line = self.proc.stdout.readline()
            except BrokenPipeError:
                line = ''
            finally:
                t.cancel()
            if not line:
                self.proc.wait()
                self.proc = None
                return {'status': 'timeout' if timed else 'crash'}
            return json.loads(line)

    def close(self):
        if self.proc is not None:
            try:
                self.proc.stdin.close()
                self.proc.wait(10)
            except Exception:
                self.proc.kill()


def norm(v):
    return json.loads(json.dumps(v))


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--only')
    ap.add_argument('--limit', type=float)
    ap.add_argument('--workers', type=int, default=int(os.environ.get('VERIF_WORKERS') or os.cpu_count() or 8))
    ap.add_argument('--all', action='store_true', help='keep going after a violation')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED') or 1)
    strict = bool(os.environ.get('VERIF_STRICT'))
    pid = a.pid
    t0 = time.time()
    import z3  # noqa
    mod = load_property(pid, True)
    meta = getattr(mod, 'META', {})
    findings = known_findings(pid)
    limit = a.limit or (meta.get('quick_limit', 480) if a.tier == 'quick' else meta.get('thorough_limit', 780))
    deadline = t0 + limit
    nw = max(1, a.workers)
    hs = mod.HARNESSES
    todo = [i for i, h in enumerate(hs) if (not a.only or h.name in a.only.split(','))]
    sample_rate = meta.get('sample_rate', 0.02)
    sample_cap = meta.get('sample_cap', 60 if a.tier == 'quick' else 400)

    mpctx = mp.get_context('fork')
    workers = []
    for k in range(nw):
        pa, ch = mpctx.Pipe()
        p = mpctx.Process(target=_worker, args=(ch, pid, mod, a.tier, seed, sample_rate, tuple(findings)), daemon=True)
        p.start()
        ch.close()
        workers.append([pa, p, None])
    queues = {i: [()] for i in todo}
    agg = {i: {'stats': {}, 'reached': set(), 'incon': {}, 'samples': [], 'done': 0, 't0': None, 't1': None} for i in todo}
    candidates = []
    known = {}
    replayer = Replayer(pid, a.tier)
    violations = []
    spurious = []
    seen_cand = {}
    worker_died = 0

    def busy():
        return [w for w in workers if w[2] is not None]

    def next_job():
        # harness with the fewest jobs in flight and pending work
        best = None
        for i in todo:
            if queues[i]:
                infl = sum(1 for w in workers if w[2] is not None and w[2][0] == i)
                key = (infl, i)
                if best is None or key < best[0]:
                    best = (key, i)
        if best is None:
            return None
        i = best[1]
        q = queues[i]
        total = sum(len(queues[j]) for j in todo)
        if len(q) > 4 * nw:
            n = max(1, min(64, len(q) // (2 * nw)))
            batch = q[-n:]
            del q[-n:]
        else:
            batch = [q.pop(0)]
        budget = 0.25 if total < 2 * nw else 1.5
        return i, batch, budget

    def handle_candidate(i, label, inp, kind, tb=''):
        h = hs[i]
        key = (h.name, label)
        seen_cand[key] = seen_cand.get(key, 0) + 1
        if seen_cand[key] > 40:
            return
        r = replayer.run(h.name, inp)
        ok = r.get('status') in ('violation', 'exception', 'timeout')
        rec = {'harness': h.name, 'label': label, 'inputs': inp, 'replay': r, 'tb': tb}
        if ok:
            if not any(v['harness'] == h.name and v['label'] == label for v in violations) or a.all:
                violations.append(rec)
        else:
            spurious.append(rec)
            if a.v:
                print('SPURIOUS', h.name, label, json.dumps(inp), r, tb, file=sys.stderr)

    while True:
        stop = time.time() > deadline or (violations and not a.all)
        for w in workers:
            if w[2] is None and not stop and w[1].is_alive():
                j = next_job()
                if j is None:
                    break
                w[0].send((j[0], j[1], j[2], deadline))
                w[2] = (j[0], j[1])
                if agg[j[0]]['t0'] is None:
                    agg[j[0]]['t0'] = time.time()
        b = busy()
        if not b:
            break
        ready = mp.connection.wait([w[0] for w in b], timeout=1.0)
        for w in b:
            if w[0] not in ready:
                continue
            try:
                res = w[0].recv()
            except (EOFError, ConnectionResetError):
                worker_died += 1
                g = agg[w[2][0]]
                g['incon']['worker died'] = g['incon'].get('worker died', 0) + len(w[2][1])
                w[2] = None
                w[1].join(5)
                pa, ch = mpctx.Pipe()
                p = mpctx.Process(target=_worker, args=(ch, pid, mod, a.tier, seed, sample_rate, tuple(findings)), daemon=True)
                p.start()
                ch.close()
                w[0], w[1] = pa, p
                continue
            i = res['h']
            g = agg[i]
            w[2] = None
            for k, v in res['stats'].items():
                g['stats'][k] = g['stats'].get(k, 0) + v
            g['reached'] |= res['reached']
            for m in res['incon']:
                g['incon'][m] = g['incon'].get(m, 0) + 1
            queues[i].extend(res['pending'])
            g['samples'].extend(res['samples'])
            g['t1'] = time.time()
            for fid, label, inp in res['known']:
                known.setdefault(fid, (hs[i].name, label, inp))
            for label, inp in res['viol']:
                handle_candidate(i, label, inp, 'check')
            for msg, inp, tb in res['exc']:
                handle_candidate(i, 'exception ' + msg, inp, 'exception', tb)
            if a.v and time.time() % 10 < 0.3:
                print({hs[x].name: (len(queues[x]), agg[x]['stats'].get('paths')) for x in todo}, file=sys.stderr)
    funcs, lines = set(), set()
    for w in workers:
        try:
            if w[1].is_alive():
                w[0].send(None)
                if w[0].poll(10):
                    r = w[0].recv()
                    funcs |= r.get('funcs', set())
                    lines |= r.get('lines', set())
        except (OSError, EOFError):
            pass
        w[1].join(2)
        if w[1].is_alive():
            w[1].kill()

    # ---- validate sampled paths against the unmodified code
    validated = mismatches = 0
    samples_out = []
    rng = random.Random(seed)
    mism = []
    for i in todo:
        ss = agg[i]['samples']
        if len(ss) > sample_cap:
            incon = [s for s in ss if s[1] is None]
            rng.shuffle(incon)
            ss = incon[:sample_cap // (4 if len(incon) < len(ss) else 1)] + rng.sample([s for s in ss if s[1] is not None], min(sample_cap, len(ss) - len(incon)))
        for inp, obs in ss:
            if time.time() > deadline + 60 and (validated > 20 or violations):
                break
            if violations and validated > 20:
                break
            r = replayer.run(hs[i].name, inp)
            if r.get('status') in ('violation', 'exception', 'timeout'):
                rec = {'harness': hs[i].name, 'label': r.get('label') or r.get('error') or 'timeout', 'inputs': inp, 'replay': r,
                       'tb': 'found while validating a path of the encoding'}
                if not any(v['harness'] == rec['harness'] and v['label'] == rec['label'] for v in violations):
                    violations.append(rec)
            elif r.get('status') == 'ok' and obs is not None:
                if norm(r['observed']) == norm(obs):
                    validated += 1
                    if len(samples_out) < 6 and rng.random() < 0.2 or not samples_out:
                        samples_out.append({'harness': hs[i].name, 'inputs': inp, 'observed': norm(obs)})
                else:
                    mismatches += 1
                    mism.append({'harness': hs[i].name, 'inputs': inp, 'symbolic': norm(obs), 'concrete': norm(r['observed'])})
                    if a.v:
                        print('MISMATCH', json.dumps(mism[-1]), file=sys.stderr)
            elif r.get('status') != 'ok' and obs is not None:
                mismatches += 1
                mism.append({'harness': hs[i].name, 'inputs': inp, 'replay': r})
                if a.v:
                    print('MISMATCH', json.dumps(mism[-1]), file=sys.stderr)
    # ---- known findings must still fail on the real code
    for fid, (hn, label, inp) in sorted(known.items()):
        print('KNOWN-FINDING: property=%s %s [%s: %s]' % (pid, fid, hn, findings[fid]))
    replayer.close()

    # ---- outcome
    tot = {}
    per = []
    complete = True
    vacuous, unreached = [], []
    for i in todo:
        g = agg[i]
        left = len(queues[i])
        done = left == 0 and not g['incon'] and not worker_died
        complete = complete and done
        for k, v in g['stats'].items():
            tot[k] = tot.get(k, 0) + v
        miss = [l for l in hs[i].must_reach if l not in g['reached']]
        if miss and (g['incon'] or left):
            unreached.append((hs[i].name, miss))
        elif miss:
            vacuous.append((hs[i].name, miss))
        per.append({'harness': hs[i].name, 'bounds': hs[i].bounds, 'cfg': {k: repr(v) for k, v in hs[i].cfgs[a.tier].items()},
                    'complete': done, 'paths': g['stats'].get('paths', 0), 'unexplored_prefixes': left,
                    'inconclusive_paths': dict(g['incon']), 'obligations': g['stats'].get('obligations', 0),
                    'queries': g['stats'].get('queries', 0), 'solver_s': round(g['stats'].get('solver_s', 0), 2),
                    'wall_s': round((g['t1'] or 0) - (g['t0'] or 0), 1), 'reached': sorted(g['reached'])})
    if strict and mismatches:
        complete = False
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    vfiles = []
    for v in violations:
        dig = hashlib.sha1(json.dumps([v['harness'], v['inputs']], sort_keys=True).encode()).hexdigest()[:10]
        fn = os.path.join('replays', '%s-%s-%s.json' % (pid, v['harness'], dig))
        v = dict(v, property=pid, tier=a.tier,
                 how='python3-vt -m symex.replay --file %s   (in /verif; runs the harness on these inputs against /repo)' % fn)
        with open(os.path.join(VERIF, fn), 'w') as f:
            json.dump(v, f, indent=1)
        vfiles.append(fn)
    wall = time.time() - t0
    ev = {
        'property': pid, 'tier': a.tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot.get('paths', 0), 'transitions': tot.get('branches', 0),
            'states_meaning': 'feasible execution paths of the harnesses explored, each standing for every input satisfying its path condition; transitions: symbolic branch decisions put to the solver',
            'traces_validated_against_impl': validated,
            'samples': samples_out or [{'note': 'no path sampled'}],
            'exhaustive': bool(complete),
            'exhaustive_meaning': 'every path within the stated bounds was explored and every obligation answered unsat (no unexplored prefix, no inconclusive path)',
            'encoding_mismatches': mismatches, 'mismatch_examples': mism[:3],
            'obligations_discharged': tot.get('obligations', 0),
            'trivially_true_obligations': tot.get('trivial_obligations', 0),
            'solver_queries': tot.get('queries', 0), 'solver_seconds': round(tot.get('solver_s', 0), 2),
            'solver_unknown': tot.get('unknown', 0), 'forks': tot.get('forks', 0), 'infeasible_paths': tot.get('infeasible', 0),
            'inconclusive_paths': tot.get('inconclusive', 0),
            'unreproduced_counterexamples': [{k: s[k] for k in ('harness', 'label', 'inputs', 'replay')} for s in spurious[:5]],
            'unreproduced_count': len(spurious),
            'harnesses': per,
            'functions_encoded': sorted(funcs), 'lines_encoded': len(lines),
            'outside_the_claim': meta.get('outside', ''), 'solver': 'z3 ' + z3.get_version_string(),
        },
        'assumptions': list(meta.get('assumptions', [])),
        'wall_s': round(wall, 2), 'violations': len(violations),
    }
    if not a.only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    for p in per:
        print('%s/%s: paths=%d obligations=%d queries=%d solver=%.1fs wall=%.1fs %s' % (
            pid, p['harness'], p['paths'], p['obligations'], p['queries'], p['solver_s'], p['wall_s'],
            'complete' if p['complete'] else 'INCOMPLETE left=%d %s' % (p['unexplored_prefixes'], p['inconclusive_paths'])))
    print('%s: validated=%d mismatches=%d unreproduced=%d wall=%.1fs' % (pid, validated, mismatches, len(spurious), wall))
    if violations:
        for v, fn in zip(violations, vfiles):
            print('  %s: %s  %s' % (v['harness'], v['label'], v['replay'].get('error', '')))
            print('VIOLATION property=%s replay=%s' % (pid, fn))
        return 1
    if spurious:
        print('%s: %d counterexamples did not reproduce on the real code (encoding imprecise there; not counted as verified)' % (pid, len(spurious)))
        for s in spurious[:3]:
            print('   ', s['harness'], s['label'], json.dumps(s['inputs'])[:600], str(s['replay'])[:300])
            if s['tb']:
                print(s['tb'])
    if unreached:
        print('%s: constructs outside the encoding, or the time limit, kept these obligations from being reached (not verified): %s' % (pid, unreached))
    if vacuous:
        print('VACUOUS: obligations never reached: %s' % vacuous)
        return 3
    if not complete:
        print('%s: exploration incomplete (see evidence); held on everything explored' % pid)
    if strict and (spurious or mismatches or not complete):
        return 4
    return 0


if __name__ == '__main__':
    sys.exit(main())
