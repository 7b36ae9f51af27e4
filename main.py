"""check PROPERTY TIER [case filter]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True
os.environ.setdefault('PYTHONHASHSEED', '0')
os.environ.setdefault('MPLBACKEND', 'Agg')


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
    only = sys.argv[3] if len(sys.argv) > 3 else None
    from vlib import report
    if pid == 'replay':
        return replay(sys.argv[2])
    rc = report.run(pid, tier, only=only, verbose=bool(os.environ.get('AES_VERBOSE')))
    sys.stdout.flush()
    return rc


def replay(path):
    """Run the recorded counterexamples of a replay file on the real code."""
    import importlib
    import json
    from fractions import Fraction
    from vlib import explore
    bad = 0
    for v in json.load(open(path)):
        mod = importlib.import_module(f"checks.{v['property'].lower()}")
        for c in mod.cases('thorough') + mod.cases('quick'):
            if c.name == v['case'] and not hasattr(c, 'run'):
                asg = {k: (x == 'True' if x in ('True', 'False') else Fraction(x)) for k, x in v['exact'].items()}
                st, det, _ = explore.replay(c, asg)
                print(v['case'], v['label'], st, det)
                bad += st == 'fail'
                break
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
