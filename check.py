#!/opt/venv/bin/python
"""Decide one property:  check.py C01 [--tier quick|thorough] [--replay FILE]

Runs every harness of the property (props/) over the symbolically executed
package in /repo/src, in parallel worker processes; each worker asks z3 whether
an obligation can fail on any path, and replays every counterexample on the real
package.  Exit 0: nothing violated; 1: VIOLATION; 2: no answer.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
Z3DIR = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
if os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv') and os.path.exists(PY):
    os.execv(PY, [PY] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.append(Z3DIR)

import argparse
import importlib
import json
import pkgutil
import signal
import subprocess
import tempfile
import time
import traceback

EVID = os.path.join(HERE, 'evidence')
KNOWN = os.path.join(HERE, 'known-findings.txt')
NPROC = max(1, min(8, os.cpu_count() or 1))


def registry(tier):
    import props
    from props import common
    common.TIER = tier
    for m in sorted(x.name for x in pkgutil.iter_modules(props.__path__)):
        if m.startswith('c_'):
            importlib.import_module('props.' + m)
    return common.REG


def known(pid):
    """(harness, obligation) pairs recorded as known findings of a property"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if not l.startswith('finding: '):
                continue
            d = dict(x.split('=', 1) for x in l[9:].split(' ', 3)[:3])
            if d['property'] == pid:
                out.append((d['harness'], d['obligation'], l[9:].split(' ', 3)[3]))
    return out


def worker(pid, name, tier, out):
    import resource
    lim = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    sys.setrecursionlimit(5000)
    from symk import core, harness
    reg = registry(tier)
    spec = [x for x in reg[pid] if x[0] == name][0]
    opts = dict(spec[3])
    tb = opts.pop('thorough_budget_s', None)
    if tier == 'thorough':
        core.CROSS['on'] = True
        opts['budget_s'] = tb or 3 * opts.get('budget_s', 200)
        opts['witnesses'] = max(10, opts.get('witnesses', 0))
    r = harness.HarnessRun(pid, name, spec[1], opts).run()
    st = core.STATS
    d = dict(harness=name, paths=r.paths, obligations=r.obligations,
             discharged=r.discharged, syntactic=r.syntactic, within_tol=r.within_tol,
             validated=r.validated, compared=r.compared, inconclusive=r.inconclusive[:20],
             violations=r.violations, cut=r.cut, wall=round(r.wall, 2),
             functions=sorted(r.functions), samples=r.samples,
             covered=sorted(r.covered), queries=st.queries, sat=st.sat, unsat=st.unsat,
             unknown=st.unknown, linear=st.linear, cached=st.trivial,
             branches=st.branches, solver_s=round(st.solver_s, 3), cross=st.cross,
             cross_disagree=st.cross_disagree,
             mismatch=[[m[0], {k: harness.jsonable(v) for k, v in m[1].items()}]
                       for m in getattr(r, 'mismatch', [])][:3],
             mode=r.o['mode'], doc=(spec[1].__doc__ or '').strip())
    with open(out, 'w') as f:
        json.dump(d, f, default=str)


def replay(path):
    d = json.load(open(path))
    registry('thorough')
    from props import common
    from symk import harness
    spec = [x for x in common.REG[d['property']] if x[0] == d['harness']][0]
    rr = harness.run_real(spec[1], d['inputs'])
    if rr.skipped:
        print('inputs outside the assumptions')
        return 0
    if rr.exc is not None:
        print('%s: %s' % (type(rr.exc).__name__, rr.exc))
        print(rr.tb)
        return 1
    for o in rr.failed:
        print('FAILS %s: %s' % (o.name, o.detail))
    if not rr.failed:
        print('all %d obligations hold' % len(rr.env.obls))
    return 1 if rr.failed else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--worker')
    ap.add_argument('--out')
    ap.add_argument('--only')
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    if a.worker:
        worker(a.pid, a.worker, a.tier, a.out)
        return 0
    t0 = time.time()
    total = 780 if a.tier == 'quick' else 3600
    try:
        specs = [x for x in registry(a.tier)[a.pid] if a.tier in x[2]]
    except Exception:
        traceback.print_exc()
        return 2
    if a.only:
        specs = [x for x in specs if x[0] in a.only.split(',')]
    specs.sort(key=lambda x: -x[3].get('weight', 1))
    tmp = tempfile.mkdtemp(prefix='kcheck-')
    todo = list(specs)
    running = {}
    res = []
    while todo or running:
        while todo and len(running) < NPROC:
            x = todo.pop(0)
            fo = os.path.join(tmp, x[0] + '.json')
            fe = open(os.path.join(tmp, x[0] + '.log'), 'w')
            p = subprocess.Popen([sys.executable, os.path.join(HERE, 'check.py'), a.pid,
                                  '--worker', x[0], '--tier', a.tier, '--out', fo],
                                 stdout=fe, stderr=fe, start_new_session=True, cwd=tmp)
            b = x[3].get('budget_s', 200) * (3 if a.tier == 'thorough' else 1)
            if a.tier == 'thorough':
                b = x[3].get('thorough_budget_s', b)
            running[p] = (x, fo, fe, time.time() + b + 120)
        time.sleep(0.05)
        for p in list(running):
            x, fo, fe, lim = running[p]
            dead = time.time() > lim or time.time() - t0 > total
            if p.poll() is None and not dead:
                continue
            if p.poll() is None:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
            fe.close()
            del running[p]
            if os.path.exists(fo):
                res.append(json.load(open(fo)))
            else:
                log = open(os.path.join(tmp, x[0] + '.log')).read()
                res.append(dict(harness=x[0], paths=0, obligations=0, discharged=0,
                                syntactic=0, within_tol=0, validated=0, compared=0,
                                inconclusive=[['worker', 'timeout' if dead else log[-600:]]],
                                violations=[], cut='worker', wall=0, functions=[],
                                samples=[], covered=[], queries=0, sat=0, unsat=0,
                                unknown=0, linear=0, cached=0, branches=0, solver_s=0,
                                cross=0, cross_disagree=0, mismatch=[], mode='', doc=''))
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)
    return summary(a, res, time.time() - t0)


def summary(a, res, wall):
    os.makedirs(EVID, exist_ok=True)
    kn = known(a.pid)
    tot = lambda k: sum(r[k] for r in res)
    new = []
    seen_known = set()
    for r in res:
        for v in r['violations']:
            k = [x for x in kn if x[0] == r['harness'] and x[1] == v['obligation']]
            if k:
                seen_known.add(k[0])
            else:
                new.append(v)
    inc = [(r['harness'], i) for r in res for i in r['inconclusive']]
    cut = [(r['harness'], r['cut']) for r in res if r['cut']]
    mism = [(r['harness'], m) for r in res for m in r['mismatch']]
    for k in kn:
        if k in seen_known:
            print('KNOWN-FINDING: property=%s %s' % (a.pid, k[2]))
        else:
            print('note: known finding %s/%s did not occur' % (k[0], k[1]))
    for h, m in mism[:3]:
        print('note: encoding and code differ numerically in %s: %s' % (h, m))
    for h, i in inc[:12]:
        print('INCONCLUSIVE %s: %s' % (h, ' '.join(map(str, i))[:400]))
    for h, c in cut:
        print('CUT %s: %s' % (h, c))
    try:
        import z3
        zv = z3.get_version_string()
    except Exception:
        zv = '?'
    ev = {
        'property': a.pid, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')),
        'level': 'model_checking', 'wall_s': round(wall, 2), 'violations': len(new),
        'coverage': {
            'states': tot('paths'), 'transitions': tot('branches'),
            'traces_validated_against_impl': tot('validated'),
            'samples': [s for r in res for s in r['samples'][:2]][:12] or
                       [{'harness': r['harness'], 'paths': r['paths']} for r in res],
            'what': 'states: feasible symbolic paths of the real functions decided; '
                    'transitions: branch decisions taken on them; traces validated: '
                    'solver-chosen inputs of paths replayed through the real package with '
                    'every obligation holding',
            'functions_encoded': sorted({f for r in res for f in r['functions']}),
            'obligations': tot('obligations'), 'discharged': tot('discharged'),
            'discharged_by_normal_form': tot('syntactic'),
            'discharged_within_tolerance_only': tot('within_tol'),
            'outputs_compared_with_real_code': tot('compared'),
            'queries': tot('queries'), 'query_cache_hits': tot('cached'),
            'unsat': tot('unsat'), 'sat': tot('sat'), 'unknown': tot('unknown'),
            'unsat_by_linear_abstraction': tot('linear'),
            'solver': 'z3 ' + zv, 'solver_s': round(tot('solver_s'), 2),
            'cvc5_confirmed': tot('cross'), 'cvc5_disagreed': tot('cross_disagree'),
            'inconclusive': [[h] + list(i) for h, i in inc],
            'bounds_hit': cut,
            'known_findings': [k[2] for k in seen_known],
            'harnesses': [{k: r[k] for k in ('harness', 'doc', 'mode', 'paths', 'obligations',
                                             'discharged', 'queries', 'solver_s', 'validated',
                                             'covered', 'wall')} for r in res],
        },
        'assumptions': ASSUMPTIONS,
    }
    with open(os.path.join(EVID, a.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d harnesses, %d paths, %d/%d obligations discharged, %d queries (%.1f s), '
          '%d replays, %.1f s' % (a.pid, len(res), tot('paths'), tot('discharged'),
                                  tot('obligations'), tot('queries'), tot('solver_s'),
                                  tot('validated'), wall))
    if new:
        for i, v in enumerate(new[:5]):
            p = os.path.join(EVID, '%s-violation-%d.json' % (a.pid, i))
            with open(p, 'w') as f:
                json.dump(v, f, indent=1, default=str)
            print('  %s/%s: %s  (%s)' % (v['harness'], v['obligation'], v['detail'], v['how']))
            if v.get('traceback'):
                print('    ' + v['traceback'].strip().split('\n')[-1])
            print('VIOLATION property=%s replay=%s' % (a.pid, p))
        return 1
    if tot('discharged') == 0:
        print('no answer')
        return 2
    return 0


ASSUMPTIONS = [
    'real mode: float arithmetic is exact real arithmetic; obligations carry relative '
    'tolerances for float32 rounding; overflow and underflow lie outside, except in harnesses '
    'whose mode is fp, which are bit-precise IEEE 754',
    'numpy, scipy.interpolate.interp1d, scipy.optimize.nnls, astropy.io.fits, astropy.units are '
    'replaced by models (symk/); path witnesses and every counterexample run through the real ones',
    'array sizes, grids and numbers of bands, templates, galaxies are those fixed in props/',
]

if __name__ == '__main__':
    sys.exit(main())
