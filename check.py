#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] [--replay FILE]   (seed from VERIF_SEED)"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pbt import engine  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--worker")
    ap.add_argument("--out")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    if a.selftest:
        import hypothesis
        engine.use_repo()
        print("hypothesis %s, python %s, code under test in %s" % (
            hypothesis.__version__, sys.version.split()[0], engine.REPO))
        return
    if not a.pid:
        ap.error("a property id is needed")
    if a.worker:
        i, n = a.worker.split("/")
        engine.worker_entry(a.pid, tier, int(i), int(n), seed, a.out)
    elif a.replay:
        engine.replay_entry(a.pid, a.replay)
    else:
        sys.exit(engine.parent_entry(a.pid, tier, seed))


main()
