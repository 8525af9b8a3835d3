"""Decides a property of the Python contracts: every harness of the property
is explored over all paths, with the solver deciding branches and assertions."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def harnesses(mod, only):
    out = []
    for n in dir(mod):
        if n.startswith('VH_'):
            f = getattr(mod, n)
            if only and not re.search(only, n):
                continue
            out.append(n)
    return sorted(out)


def describe(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = ''
    for f in reversed(tb):
        if '/pyscore/' in f.filename or '/harness/' in f.filename:
            where = ' at %s:%d' % (f.filename[f.filename.rindex('/py' if '/pyscore/' in f.filename else '/harness') + 1:], f.lineno)
            break
    return '%s: %s%s' % (type(e).__name__, e, where)


def run_path(fn, prefix):
    """One path. Returns (status, info, alternatives)."""
    import sym
    E = sym.E
    E.reset(prefix)
    try:
        fn()
        return 'done', None
    except sym.Violation as v:
        return 'violation', (v.msg, v.inputs, v.real)
    except sym.Cut as c:
        return 'cut', str(c)
    except sym.Unsupported as u:
        return 'unsupported', describe(u)
    except RecursionError as e:
        return 'unsupported', describe(e)
    except Exception as e:
        # the harness did not expect it
        try:
            E.fail('no unexpected error')
        except sym.Violation as v:
            return 'violation', (v.msg + ' (' + describe(e) + ')', v.inputs, v.real)
        except sym.Cut as c:
            return 'cut', str(c)
        except sym.Unsupported as u:
            return 'unsupported', str(u)
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
            raise
        try:
            E.fail('no unexpected error')
        except sym.Violation as v:
            return 'violation', (v.msg + ' (' + describe(e) + ')', v.inputs, v.real)
        except sym.Abort as c:
            return 'cut', str(c)


MOD = None


def work(job):
    """Explores a subtree for a while."""
    import sym
    name, prefix, budget, want = job
    E = sym.E
    fn = getattr(MOD, name)
    todo = [prefix]
    t0 = time.time()
    E.stats = dict(queries=0, solver_s=0.0, asserts=0, unknown=0)
    E.functions = set()
    res = dict(name=name, done=0, cut=0, cuts={}, unsupported=[], violations=[], reached=set(), wit=[], rest=[])
    while todo:
        p = todo.pop()
        st, info = run_path(fn, p)
        todo += E.alts
        if st == 'done':
            res['done'] += 1
            if want > len(res['wit']) or (E.reached - res['reached']):
                try:
                    r, m, real = E.realise()
                    if m is not None and real:
                        res['wit'].append((E.values(m), sorted(E.reached)))
                except sym.Abort:
                    pass
            res['reached'] |= E.reached
        elif st == 'cut':
            res['cut'] += 1
            res['cuts'][info] = res['cuts'].get(info, 0) + 1
        elif st == 'unsupported':
            res['unsupported'].append(info)
        else:
            res['violations'].append(info)
            break
        if time.time() - t0 > budget:
            break
    res['rest'] = todo
    res['stats'] = E.stats
    res['functions'] = sorted(E.functions)
    return res


def replay_native(repo, prop, cases):
    """Runs harnesses on concrete inputs with the unchanged modules."""
    p = subprocess.run([sys.executable, os.path.join(HERE, 'main.py'), '-p', prop, '-repo', repo, '-native', '-'],
                       input=json.dumps(cases), capture_output=True, text=True, timeout=600)
    try:
        return json.loads(p.stdout.strip().splitlines()[-1])
    except Exception:
        return [['error', (p.stderr or p.stdout)[-400:], []] for _ in cases]


def native_main(a):
    import loader
    loader.install(a.repo, False)
    import pe
    mod = importlib.import_module('harness.' + a.p.lower())
    cases = json.load(sys.stdin if a.native == '-' else open(a.native))
    if isinstance(cases, dict):
        cases = [[cases['harness'], cases['inputs'], cases.get('tier', 'quick')]]
    out = []
    for name, inputs, tier in cases:
        pe.native(inputs)
        pe.TIER = tier
        try:
            getattr(mod, name)()
            out.append(['ok', '', sorted(pe.REACHED)])
        except pe.Failed as e:
            out.append(['failed', str(e), sorted(pe.REACHED)])
        except pe.Skip:
            out.append(['skip', '', []])
        except BaseException as e:
            out.append(['raised', describe(e), sorted(pe.REACHED)])
    print(json.dumps(out))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('-p', required=True)
    ap.add_argument('-tier', default='quick')
    ap.add_argument('-repo', default='/repo')
    ap.add_argument('-evidence', default=os.path.join(os.path.dirname(HERE), 'evidence'))
    ap.add_argument('-only', default='')
    ap.add_argument('-t', type=float, default=0)
    ap.add_argument('-j', type=int, default=os.cpu_count() or 4)
    ap.add_argument('-native', default='')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.native:
        return native_main(a)
    if not a.t:
        a.t = 240 if a.tier == 'quick' else 3000
    t0 = time.time()
    import loader
    import sym
    global MOD
    sym.E.tier = a.tier
    loader.install(a.repo, True)
    try:
        MOD = importlib.import_module('harness.' + a.p.lower())
    except BaseException as e:
        # the contracts cannot even be loaded
        print('[%s] cannot load the contracts: %s' % (a.p, describe(e)))
        traceback.print_exc()
        return 2
    names = harnesses(MOD, a.only)
    print('[%s] loaded %d harnesses in %.1fs (tier %s)' % (a.p, len(names), time.time() - t0, a.tier), flush=True)
    known = known_findings(a.p)
    tot = {}
    failed, known_hit = [], []
    per = dict((n, dict(paths=0, done=0, cut=0, cuts={}, queries=0, solver_s=0.0, asserts=0, reached=set(), wit=[], unsupported=[], violations=[], pending=0,
                        functions=set(), wall=0.0, exhaustive=True)) for n in names)
    with mp.Pool(a.j) as pool:
        jobs = [(n, [], 1.0, 3) for n in names]
        live = []
        while jobs or live:
            while jobs and len(live) < a.j * 2:
                live.append((jobs[0][0], pool.apply_async(work, (jobs.pop(0),))))
            nl = []
            for n, r in live:
                if not r.ready():
                    nl.append((n, r))
                    continue
                res = r.get()
                h = per[n]
                h['done'] += res['done']
                h['cut'] += res['cut']
                for k, v in res['cuts'].items():
                    h['cuts'][k] = h['cuts'].get(k, 0) + v
                h['paths'] += res['done'] + res['cut'] + len(res['violations']) + len(res['unsupported'])
                for k in ('queries', 'solver_s', 'asserts'):
                    h[k] += res['stats'][k]
                new = res['reached'] - h['reached']
                h['reached'] |= res['reached']
                if len(h['wit']) < 4 or new:
                    h['wit'] += res['wit'][:4]
                h['unsupported'] += res['unsupported']
                h['functions'] |= set(res['functions'])
                h['wall'] = time.time() - t0
                h['violations'] += res['violations']
                if not h['violations']:
                    jobs += [(n, p, 1.0, 1) for p in res['rest']]
            live = nl
            if time.time() - t0 > a.t:
                for j in jobs:
                    per[j[0]]['exhaustive'] = False
                for n, r in live:
                    per[n]['exhaustive'] = False
                pool.terminate()
                break
            time.sleep(0.005)
    replayed = 0
    rdir = os.path.join(os.path.dirname(HERE), 'evidence', 'replay')
    infra = []
    for n in names:
        h = per[n]
        if h['unsupported']:
            h['exhaustive'] = False
        for msg, inputs, real in h['violations'][:3]:
            path = os.path.join(rdir, '%s_%s.json' % (a.p, n))
            nat = ['not replayed', '', []]
            if real:
                nat = replay_native(a.repo, a.p, [[n, inputs, a.tier]])[0]
                replayed += 1
            if real and nat[0] in ('ok', 'skip'):
                infra.append('%s: not confirmed by the real code: %s' % (n, msg))
                print('[%s] %s: model only, the real code does not fail: %s %s' % (a.p, n, msg, json.dumps(inputs)))
                h['exhaustive'] = False
                continue
            kf = [k for k in known if k.get('harness') == n and k.get('match', '') in msg]
            if kf:
                known_hit.append(kf[0]['what'])
                continue
            os.makedirs(rdir, exist_ok=True)
            json.dump(dict(property=a.p, harness=n, message=msg, tier=a.tier, inputs=inputs, realised=real,
                           run='python3-vt %s -p %s -native %s' % (os.path.join(HERE, 'main.py'), a.p, path), real_code=nat[:2]), open(path, 'w'), indent=1)
            failed.append((n, msg, path, nat))
        if h['wit'] and not h['violations']:
            cases = [[n, w[0], a.tier] for w in h['wit'][:6]]
            for w, r in zip(h['wit'], replay_native(a.repo, a.p, cases)):
                replayed += 1
                if r[0] != 'ok' or r[2] != w[1]:
                    if r[0] in ('failed', 'raised') and not any(x in r[1] for x in ('RecursionError',)):
                        path = os.path.join(rdir, '%s_%s_w.json' % (a.p, n))
                        os.makedirs(rdir, exist_ok=True)
                        json.dump(dict(property=a.p, harness=n, message=r[1], tier=a.tier, inputs=w[0],
                                       run='python3-vt %s -p %s -native %s' % (os.path.join(HERE, 'main.py'), a.p, path)), open(path, 'w'), indent=1)
                        failed.append((n, r[1], path, r))
                    infra.append('%s: the real code takes another path: %s instead of %s' % (n, r, w[1]))
                    print('[%s] %s: replay differs: %s, expected %s, inputs %s' % (a.p, n, r, w[1], json.dumps(w[0])[:300]))
        print('[%s] %-28s paths=%d done=%d cut=%d %s asserts=%d queries=%d solver=%.1fs wall=%.1fs exh=%s wit=%d' %
              (a.p, n[3:], h['paths'], h['done'], h['cut'], h['cuts'] if a.v else '', h['asserts'], h['queries'], h['solver_s'], h['wall'], h['exhaustive'], len(h['wit'])))
        for u in sorted(set(h['unsupported']))[:3]:
            print('    not decided (%d paths): %s' % (len(h['unsupported']), u))
        if h['violations'] and a.v:
            for v in h['violations'][:3]:
                print('    ', v)
    for w in known_hit:
        print('KNOWN-FINDING: property=%s %s' % (a.p, w))
    for n, msg, path, nat in failed:
        print('[%s] %s violation: %s (real code: %s %s)' % (a.p, n, msg, nat[0], nat[1]))
        print('VIOLATION property=%s replay=%s' % (a.p, path))
    write_evidence(a, per, names, time.time() - t0, replayed, failed, infra)
    if failed:
        return 1
    vac = [n for n in names if not per[n]['done'] and not per[n]['violations']]
    if vac:
        print('[%s] nothing explored: %s' % (a.p, vac))
        return 2
    # what could not be decided is told in the evidence: it is no violation
    return 0


def known_findings(p):
    try:
        k = json.load(open(os.path.join(os.path.dirname(HERE), 'known_findings.json')))
    except Exception:
        return []
    return [x for x in k if x.get('property') == p and x.get('status') == 'open' and x.get('harness')]


def write_evidence(a, per, names, wall, replayed, failed, infra):
    checks = {}
    try:
        checks = json.load(open(os.path.join(os.path.dirname(HERE), 'checks.json'))).get(a.p, {})
    except Exception:
        pass
    fns = sorted(set(f for n in names for f in per[n]['functions'] if f.startswith('pyscore')))
    q = sum(per[n]['queries'] for n in names)
    ex = all(per[n]['exhaustive'] for n in names)
    ev = dict(property=a.p, tier=a.tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='other', wall_s=round(wall, 2),
              assumptions=checks.get('assumptions', []),
              coverage=dict(
                  explanation='Symbolic execution of the Python contracts from their source: %d harnesses, %d paths, %d solver queries; %s' % (
                      len(names), sum(per[n]['paths'] for n in names), q, 'all paths within the bounds' if ex else 'not all paths within the bounds'),
                  exhaustive_within_bounds=ex, bounds=checks.get('bounds', []),
                  functions_encoded=fns, queries=q, solver_s=round(sum(per[n]['solver_s'] for n in names), 2),
                  replayed_on_real_code=replayed, violations=[dict(harness=n, message=m, replay=p) for n, m, p, _ in failed], problems=infra,
                  harnesses=[dict(name=n, paths=per[n]['paths'], completed=per[n]['done'], cut=per[n]['cuts'], asserts=per[n]['asserts'], queries=per[n]['queries'],
                                  solver_s=round(per[n]['solver_s'], 2), exhaustive=per[n]['exhaustive'], reached=sorted(per[n]['reached'])) for n in names]))
    os.makedirs(a.evidence, exist_ok=True)
    json.dump(ev, open(os.path.join(a.evidence, a.p + '.json'), 'w'), indent=1)


if __name__ == '__main__':
    sys.exit(main())
