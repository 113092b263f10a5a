#!/usr/bin/env python3
"""Run one static check:  check.py C01 [--tier quick|thorough]"""
import argparse
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

from wxcheck.project import AnalysisError, Project  # noqa: E402
from wxcheck.report import Report  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default=None)
    a = ap.parse_args()
    rep = Report(a.property)
    err = None
    try:
        mod = importlib.import_module("wxcheck.props." + a.property.lower())
        p = Project(a.repo)
        mod.run(p, rep, a.tier)
    except AnalysisError as e:
        err = str(e)
        if os.environ.get("WXCHECK_DEBUG"):
            traceback.print_exc()
    except Exception as e:  # noqa: BLE001 - an internal error is an error exit, never a verdict
        err = f"internal error: {type(e).__name__}: {e}"
        traceback.print_exc()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.exit(rep.finish(a.tier if a.tier in ("quick", "thorough") else "quick", seed, err))


if __name__ == "__main__":
    main()
