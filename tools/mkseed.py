"""tools/mkseed.py SPEC.py ...: turns a specification of a planted bug into seeded/<id>/ after validating it in a scratch copy.
SPEC.py defines ID, PROPERTY, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (python text)."""
import json, os, shutil, subprocess, sys, runpy
V = os.environ.get('MKSEED_V', '/verif')
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, env=None, timeout=600):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONWARNINGS='ignore', LANG='C.UTF-8', **(env or {}))
    e.pop('VERIF_STRICT', None)
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def one(spec):
    s = runpy.run_path(spec)
    sid, pid = s['ID'], s['PROPERTY']
    W = '/tmp/seedwork-%s' % sid
    shutil.rmtree(W, ignore_errors=True)
    shutil.copytree('/repo', W, symlinks=True)
    d = '%s/seeded/%s' % (V, sid)
    os.makedirs(d, exist_ok=True)
    try:
        for fn, old, new in s['EDITS']:
            p = os.path.join(W, fn)
            t = open(p).read()
            if t.count(old) != 1:
                return '%s: text occurs %d times in %s' % (sid, t.count(old), fn)
            open(p, 'w').write(t.replace(old, new))
        diff = sh(['git', 'diff'], W).stdout
        # changed lines must be original ones
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.py', 'w').write(s['DEMO'].lstrip('\n'))
        if 'seedlib' in s['DEMO']:
            shutil.copy(V + '/tools/seedlib.py', d)
        open(d + '/demo.sh', 'w').write('#!/bin/bash\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': pid, 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
        msg = []
        r = sh(['bash', d + '/demo.sh'], '/repo', timeout=300)
        if r.returncode:
            msg.append('demo fails on the unchanged tree: ' + r.stderr[-300:])
        r = sh(['bash', d + '/demo.sh'], W, timeout=300)
        if not r.returncode:
            msg.append('demo passes with the patch')
        last = (r.stderr.strip().splitlines() or [''])[-1][:160]
        r = sh([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--doctest-modules', '--deselect', 'nothing'], W, {'PYTHONPATH': W})
        tail = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else r.stderr[-200:]
        if r.returncode:
            msg.append('tests: ' + tail)
        orig = set(sh(['git', 'diff', '-U0', '6797a2a'], '/repo').stdout.splitlines())
        mine = {l[1:] for l in orig if l.startswith('+')}
        removed = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        if removed and all(l in mine for l in removed):
            msg.append('changes only lines of fix commits')
        r = sh(['bash', V + '/run.sh', pid], V, {'LGR_REPO': W, 'VERIF_NO_EVIDENCE': '1'}, timeout=900)
        if '-v' in os.environ.get('MKSEED', ''):
            print(r.stdout[-1500:])
        caught = 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=' + pid in r.stdout else 'MISSED (%d)' % r.returncode
        first = [l for l in r.stdout.splitlines() if 'obligation fails' in l or 'exception' in l]
        return '%s %s %s | demo: %s | %s | %s' % (sid, caught, '; '.join(msg) or 'valid', last, tail, (first or [''])[0][:150])
    finally:
        shutil.rmtree(W, ignore_errors=True)


from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(3) as ex:
    for r in ex.map(one, sys.argv[1:]):
        print(r, flush=True)
