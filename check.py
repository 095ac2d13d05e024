"""python3-vt check.py <property> [--tier quick|thorough] [--replay FILE]"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0" or os.environ.get("PYTHONDONTWRITEBYTECODE") != "1":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(3000)

import argparse  # noqa: E402

ap = argparse.ArgumentParser()
ap.add_argument("property")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--replay")
a = ap.parse_args()
from vf import runner  # noqa: E402

if a.replay:
    sys.exit(runner.replay(a.property, a.replay))
sys.exit(runner.main(a.property, a.tier, int(os.environ.get("VERIF_SEED", "1"))))
