#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] [--only GLOB] [-v]   |   --replay FILE   |   --validate ID TIER OUT"""
import os; os.environ['TQDM_DISABLE'] = '1'
import os, sys
os.environ.setdefault('OMP_NUM_THREADS', '1'); os.environ.setdefault('OPENBLAS_NUM_THREADS', '1'); os.environ.setdefault('MKL_NUM_THREADS', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('XMPS_REPO', '/repo'))
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if VT not in sys.path: sys.path.append(VT)      # for z3 only; numpy/scipy stay the project's
sys.setrecursionlimit(20000)

def main():
    a = sys.argv[1:]
    from symx import runner
    if a[0] == '--replay':
        ok = runner.main_replay(a[1])
        sys.exit(1 if ok else 0)
    if a[0] == '--validate':
        runner.main_validate(a[1], a[2], a[3]); return
    if a[0] == '--selftest':
        import z3, numpy, xmps.fMPS
        x = z3.Real('x'); k = z3.Solver(); k.add(x > 1, x < 1)
        assert k.check() == z3.unsat
        print('ok: z3', z3.get_version_string(), 'numpy', numpy.__version__); return
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    only = a[a.index('--only') + 1] if '--only' in a else None
    sys.exit(runner.check(pid, tier, only, '-v' in a))

main()
