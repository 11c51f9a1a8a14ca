"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import json, os, sys
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
NA = {
    'P30': 'decided by libxml2\'s RELAX NG engine, C code behind lxml that cannot be encoded by a symbolic executor of the Python sources; replacing it by a model would decide nothing about the real code',
}
NOTES = json.load(open('tools/notes.json')) if os.path.exists('tools/notes.json') else {}
checks, na = [], []
for line in open('properties.jsonl'):
    p = json.loads(line)
    pid = p['id']
    if os.path.exists('checks/%s.py' % pid.lower()) and pid not in NA:
        checks.append(dict(
            property=pid, quick_cmd='./run.sh %s --tier quick' % pid, thorough_cmd='./run.sh %s --tier thorough' % pid,
            technique='path-forking symbolic execution of the real Python code, every path obligation decided by z3; counterexamples replayed on the unmodified code',
            level='model_checking',
            level_note=NOTES.get(pid, 'Exhaustive within the stated bounds (see the check module and the evidence file): every feasible path of the real functions is explored with symbolic inputs and each '
                                 'obligation is decided by z3. Trusts the proxy semantics in symex/ (cross-checked on sampled paths against the plain interpreter) and the stubs listed in the evidence.')))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, 'no check built yet')))
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3"', checks=checks, not_applicable=na,
               notes='Run from /verif. run.sh loads the functions of /repo from its working tree on every run. See DESIGN.md.'), open('MANIFEST.json', 'w'), indent=1)
