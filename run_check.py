#!/opt/venv/bin/python
"""Entry point of every check:  run_check.py <ID> [--thorough] [--replay FILE]

Exit 0: the property held on everything explored; 1: VIOLATION line printed;
2: error of the machinery itself (nothing is claimed)."""
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vlib import core  # noqa: E402

if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1:], HERE))
