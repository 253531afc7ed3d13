#!/usr/bin/env python3
"""Run the check of one property: check.py C01.  VERIF_SEED and VERIF_TIER select seed and depth."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core

if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1:]))
