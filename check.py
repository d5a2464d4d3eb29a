#!/usr/bin/env python3
"""usage: python3-vt check.py PROPERTY [quick|thorough]"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx import runner  # noqa: E402

tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
sys.exit(runner.main(sys.argv[1], tier, int(os.environ.get("VERIF_SEED", "1"))))
