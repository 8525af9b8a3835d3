#!/usr/bin/env python3
# Regenerates properties.jsonl, MANIFEST.json and checks.json from tools/props.py.
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import props
root = os.path.dirname(here)
TECH = "symbolic execution of the Go SSA with an SMT solver (z3), counterexamples replayed natively"
PYTECH = "symbolic execution of the Python contract sources with an SMT solver (z3), counterexamples replayed on the unchanged contracts"
def py(p):
    return os.path.exists(root + '/pyeng/harness/%s.py' % p['id'].lower())
out, checks, na, meta = [], [], [], {}
for p in sorted(props.P, key=lambda p: p['id']):
    assert len(p['title']) <= 80, p['id']
    assert p['statement'].count('. ') <= 2, p['id']
    out.append(dict(id=p['id'], title=p['title'], statement=p['statement'],
        quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
        anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in p['state']], observe_at=p['observe'], hook_needed=None)))
    if p['na']:
        na.append(dict(property=p['id'], reason=p['na']))
        continue
    note = "Bounded: holds for every input, schedule and fault point within the bounds (" + "; ".join(p['bounds']) + ")."
    if p['assume']:
        note += " Assumes: " + "; ".join(p['assume']) + "."
    note += " Trusts the engine's %s semantics and library models (sampled paths are replayed on the real build) and the solver." % ("Python" if py(p) else "Go")
    if p['note']:
        note += " " + p['note']
    checks.append(dict(property=p['id'], quick_cmd="bash ./run.sh %s quick" % p['id'], thorough_cmd="bash ./run.sh %s thorough" % p['id'],
        technique=PYTECH if py(p) else TECH, level="other", level_note=note))
    meta[p['id']] = dict(level="other", bounds=p['bounds'], assumptions=p['assume'])
with open(root + '/properties.jsonl', 'w') as f:
    for o in out:
        f.write(json.dumps(o) + '\n')
json.dump(dict(version=1, setup_cmd="bash ./setup.sh", hooks=dict(guard="none", enable="no hooks: harnesses are overlaid with go's -overlay, /repo carries only fix: commits", source_commits=[]),
    checks=checks, not_applicable=na), open(root + '/MANIFEST.json', 'w'), indent=1)
json.dump(meta, open(root + '/checks.json', 'w'), indent=1)
print(len(out), 'properties', len(checks), 'checks', len(na), 'n/a')

def section(name, text):
    path = root + '/DESIGN.md'
    d = open(path).read()
    a, b = '<!-- BEGIN %s -->' % name, '<!-- END %s -->' % name
    i, j = d.index(a) + len(a), d.index(b)
    open(path, 'w').write(d[:i] + '\n' + text + d[j:])
t = ''
for p in sorted(props.P, key=lambda p: p['id']):
    t += '### %s %s\n\n' % (p['id'], p['title'])
    if p['na']:
        t += 'Not applicable: %s\n\n' % p['na']
        continue
    t += '* Decided over: %s.\n' % p['qtext']
    t += '* Code executed: %s; observed at %s.\n' % (', '.join(p['files']), ', '.join(p['observe']))
    t += '* Oracle: the statement in properties.jsonl, as assertions of `%s`.\n' % (('pyeng/harness/%s.py' if py(p) else 'harness/**/zz_%s*.go') % p['id'].lower())
    t += '* Bounds: %s.\n' % '; '.join(p['bounds'])
    if p['assume']: t += '* Assumptions: %s.\n' % '; '.join(p['assume'])
    t += '* Beyond the tests: %s\n' % p['why']
    if p['note']: t += '* %s\n' % p['note']
    t += '\n'
section('PROPS', t)
t = ''
for k in json.load(open(root + '/known_findings.json')):
    t += '* %s\n' % k['what']
section('DEFECTS', t)
t = '| change | property | needs | caught |\n|---|---|---|---|\n'
sd = root + '/seeded'
caught = json.load(open(here + '/caught.json')) if os.path.exists(here + '/caught.json') else {}
for i in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open('%s/%s/meta.json' % (sd, i)))
    t += '| %s | %s | %s | %s |\n' % (i, m['property'], m['needs'].replace('|', '/'), caught.get(i, '?'))
section('SEEDED', t)
