#!/usr/bin/env python3
"""run.py <property> [quick|thorough] | replay <file> | setup"""
import importlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vlib"))
import vlib
import checks
if __name__ == "__main__":
    if sys.argv[1] == "setup":
        sys.exit(checks.setup())
    sys.exit(vlib.main(checks.CHECKS, sys.argv))
