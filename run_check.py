#!/opt/venv/bin/python
"""run_check.py <property> [quick|thorough]: decides one property.

exit 0  held on everything explored
exit 1  a counterexample that fails on the real code (VIOLATION line)
"""
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
ENV = {'NPY_DISABLE_CPU_FEATURES': 'AVX512F AVX512CD AVX512_SKX AVX512_CLX '
       'AVX512_CNL AVX512_ICL', 'OPENBLAS_NUM_THREADS': '1',
       'OMP_NUM_THREADS': '1', 'PYTHONHASHSEED': '0',
       'PYTHONDONTWRITEBYTECODE': '1'}
if any(os.environ.get(k) != v for k, v in ENV.items()) or \
        sys.executable != '/opt/venv/bin/python':
    os.environ.update(ENV)
    os.execv('/opt/venv/bin/python',
             ['/opt/venv/bin/python'] + [os.path.abspath(__file__)] +
             sys.argv[1:])
sys.path.insert(0, VERIF)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

import json          # noqa: E402
import time          # noqa: E402
import warnings      # noqa: E402

warnings.simplefilter('ignore')
sys.setrecursionlimit(5000)


def known_findings(pid):
    out = {}
    fn = os.path.join(VERIF, 'known_findings.json')
    for k in json.load(open(fn))['findings']:
        if k.get('property') == pid and k.get('status') == 'known':
            out[k['what']] = k
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get(
        'VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import checks
    from engine import explore
    t0 = time.time()
    prop = checks.load(pid)
    cases = prop['cases'](tier)
    only = os.environ.get('VERIF_CASES')
    if only:
        cases = [c for c in cases if only in c['name']]
    opts = dict(budget=70 if tier == 'quick' else 700, validate=10,
                path_timeout=30, query_ms=4000)
    opts.update(prop.get('opts', {}))
    opts.update(prop.get('opts_' + tier, {}))
    if os.environ.get('VERIF_BUDGET'):
        opts['budget'] = float(os.environ['VERIF_BUDGET'])
    opts['debug'] = bool(os.environ.get('VERIF_DEBUG'))
    opts['known'] = known_findings(pid)
    rep = explore.run_check(pid, cases, opts, seed)
    v = rep['violation']
    t = rep['total']
    vac = [c['case'] for c in rep['cases'] if c['paths'] and
           not c['reached_end'] and not c['pending']]
    for c in rep['cases']:
        c['samples'] = c['samples'][:1]
    cov = {
        'states': t['paths'], 'transitions': t['branches'],
        'traces_validated_against_impl': t['validated'],
        'samples': [dict(x, case=c['case']) for c in rep['cases']
                    for x in c['samples']][:12],
        'exhaustive': bool(rep['exhaustive']),
        'deciding_method': 'concolic symbolic execution of the package '
        'source, z3 %s decides every branch and every assertion' %
        '.'.join(str(x) for x in __import__('z3').get_version()),
        'functions_encoded': rep['functions'],
        'queries': t['queries'], 'solver_time_s': round(t['solver_s'], 2),
        'assertions_evaluated': t['checks'],
        'assertions_sent_to_solver': t['obligations'],
        'paths_reaching_the_end': t['reached'],
        'vacuous_cases': vac,
        'undecided_queries': t['unknown'],
        'algebraic_boundary_paths_skipped': t['algebraic'],
        'encoding_limits': t['limits'],
        'diverged_runs': t['diverged'],
        'candidates_replayed': rep['replays'],
        'candidates_not_reproduced': rep['n_unreproduced'],
        'unreproduced': rep['unreproduced'][:5],
        'lost_workers': rep['lost_workers'],
        'cases': rep['cases'],
    }
    ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough')
          else 'quick', 'seed': seed, 'level': 'model_checking',
          'coverage': cov,
          'assumptions': prop.get('assumptions', []) + checks.ASSUMPTIONS,
          'wall_s': round(time.time() - t0, 2),
          'violations': 1 if v else 0}
    if v:
        ev['counterexample'] = v
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    fn = os.path.join(VERIF, 'evidence', pid + '.json')
    with open(fn + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(fn + '.tmp', fn)
    for k in rep['known']:
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    done = sum(1 for c in rep['cases'] if c['exhausted'])
    print('%s: %d/%d cases exhausted, %d paths, %d queries (%.1f s solver), '
          '%d assertions, %d validated, %d undecided, %d limits, '
          '%d unreproduced, %.1f s' %
          (pid, done, len(rep['cases']), t['paths'], t['queries'],
           t['solver_s'], t['checks'], t['validated'],
           t['unknown'] + t['algebraic'], sum(t['limits'].values()),
           rep['n_unreproduced'], rep['wall_s']))
    if os.environ.get('VERIF_VERBOSE'):
        for c in rep['cases']:
            print('   %-28s paths %d br %d q %d obl %d end %d unk %d alg %d '
                  'div %d lim %s abort %d val %d pend %d ex %s %.1fs' % (
                      c['case'], c['paths'], c['branches'], c['queries'],
                      c['obligations'], c['reached_end'], c['unknown'],
                      c['algebraic_boundary'], c['diverged'], c['limits'],
                      c['assumption_aborts'], c['validated'], c['pending'],
                      'Y' if c['exhausted'] else 'n', c['cpu_s']))
        for u in rep['unreproduced'][:6]:
            print('   UNREPRODUCED', u)
    if vac and not v:
        print('warning: no path reached the assertions in ' + ', '.join(vac))
    if v:
        print('  case %s: %s' % (v['case'], v.get('observed') or v['claim']))
        print('  inputs ' + json.dumps(v['inputs']))
        print('VIOLATION property=%s replay=%s' % (pid, v['path']))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
