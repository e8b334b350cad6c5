#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough]"""
import os, sys, importlib, argparse
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
os.environ.setdefault('PYTHONHASHSEED', '0')
if sys.flags.hash_randomization and os.environ.get('VERIF_REEXEC') != '1':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['VERIF_REEXEC'] = '1'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'rules'))
import check
from registry import REGISTRY

if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    mod, fn, expl = REGISTRY[a.prop]
    m = importlib.import_module(mod)
    sys.exit(check.run(a.prop, getattr(m, fn), a.tier, explanation=expl))
