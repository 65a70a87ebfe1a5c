#!/opt/venv/bin/python
"""replay.py FILE: runs the recorded input on the unmodified package.

exit 1 when the property fails on it, 0 when it holds, 2 when the input does
not satisfy the assumptions."""
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
ENV = {'NPY_DISABLE_CPU_FEATURES': 'AVX512F AVX512CD AVX512_SKX AVX512_CLX '
       'AVX512_CNL AVX512_ICL', 'OPENBLAS_NUM_THREADS': '1',
       'OMP_NUM_THREADS': '1', 'PYTHONHASHSEED': '0',
       'PYTHONDONTWRITEBYTECODE': '1'}
if any(os.environ.get(k) != v for k, v in ENV.items()) or \
        sys.executable != '/opt/venv/bin/python':
    os.environ.update(ENV)
    os.execv('/opt/venv/bin/python',
             ['/opt/venv/bin/python'] + [os.path.abspath(__file__)] +
             sys.argv[1:])
sys.path.insert(0, VERIF)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

import json          # noqa: E402
import signal        # noqa: E402
import warnings      # noqa: E402
from fractions import Fraction   # noqa: E402

warnings.simplefilter('ignore')


def main():
    rec = json.load(open(sys.argv[1]))
    import checks
    from engine import explore, loader
    prop = checks.load(rec['property'])
    case = None
    for tier in ('quick', 'thorough'):
        for c in prop['cases'](tier):
            if c['name'] == rec['case']:
                case = c
    a = {k: (Fraction(v) if isinstance(v, str) else v)
         for k, v in rec['inputs'].items()}
    R = loader.load('real', serial=bool(prop.get('opts', {}).get('serial')) or
                    bool(case.get('serial')) or 'schedule' in a)
    signal.signal(signal.SIGALRM, explore._alarm)
    signal.signal(signal.SIGPROF, explore._alarm)
    r = explore.concrete(R, case, a, 60)
    if r is None:
        print('holds')
        return 0
    if r[0] == 'abort':
        print('the input does not satisfy the assumptions')
        return 2
    print('%s: %s' % r)
    return 1


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    os._exit(code)
