import argparse
import os
import sys
import warnings
warnings.simplefilter('ignore')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYVC_REPO', '/repo')
sys.path.insert(0, ROOT)
sys.path.insert(0, REPO)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--only', action='append')
    ap.add_argument('--jobs', type=int)
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    from pyvc import rt
    import qiskit.ignis
    base = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(qiskit.ignis.__file__))))
    if os.path.realpath(base) != os.path.realpath(REPO):
        print('qiskit.ignis is not taken from', REPO, 'but', base)
        return 2
    if a.replay:
        return rt.replay(a.prop, a.replay)
    return rt.check(a.prop, a.tier, a.seed, a.jobs, a.only, a.v)


if __name__ == '__main__':
    sys.exit(main())
