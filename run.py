"""Entry point of every check:  run.py <property> [--replay FILE]

VERIF_SEED and VERIF_TIER select the workload.  Exit 0: the property held on
everything observed; 1 (and a VIOLATION line): it was broken; 2: the check
could not decide.
"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from harness import runner  # noqa: E402

if __name__ == '__main__':
    sys.exit(runner.main(sys.argv[1:]))
