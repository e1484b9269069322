#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--repo DIR]: decide one property from the source of the repo."""
import argparse
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
# term ordering and therefore merge order must not depend on the hash seed
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)

import warnings
warnings.filterwarnings('ignore', category=SyntaxWarning)

from ksa.program import Program, AnalysisBroken      # noqa: E402
from ksa.report import run_check                      # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='+')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default=os.environ.get('KSA_REPO', '/repo'))
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    sys.setrecursionlimit(20000)
    pids = a.pid
    if pids == ['all']:
        d = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'checks')
        pids = sorted(f[:-3].upper() for f in os.listdir(d)
                      if f.startswith('p') and f[1:-3].isdigit())
    rc = 0
    for pid in pids:
        try:
            prog = Program(a.repo)
            mod = importlib.import_module('checks.' + pid.lower())
            r = run_check(pid, mod, prog, tier, seed)
        except AnalysisBroken as e:
            print('BROKEN property=%s no verdict: %s' % (pid, e))
            r = 3
        except Exception:
            traceback.print_exc()
            print('BROKEN property=%s no verdict: internal error' % pid)
            r = 3
        rc = max(rc, r)
    return rc


if __name__ == '__main__':
    sys.exit(main())
