#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property from the current source of /repo.
exit 0: holds; exit 1: "VIOLATION property=<id> replay=<path>" with the constructs listed in the replay file."""
import os
import sys
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'analyzer'))
import runner
if __name__ == '__main__':
    sys.exit(runner.main(sys.argv[1:]))
