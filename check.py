#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    a = ap.parse_args()
    from dst import master, build
    build.prune()
    if a.replay:
        return master.replay(a.id, a.replay)
    return master.Check(a.id, a.tier, a.seed).main()


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
