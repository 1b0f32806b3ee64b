"""check.py ID [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from harness import rt  # noqa: E402

if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    ap.add_argument('--replay')
    a = ap.parse_args()
    rt.setup_env()
    mod = importlib.import_module('harness.props.%s' % a.id.lower())
    sys.stdout.flush()
    sys.exit(rt.main(mod, a.tier, a.seed, a.replay))
