"""Entry point: runs the check of one property (see ../check)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path[:] = [p for p in sys.path
               if os.path.abspath(p or '.') !=
               os.path.dirname(os.path.abspath(__file__))]

from vp import core  # noqa: E402

if __name__ == '__main__':
    sys.exit(core.main(sys.argv[1:]))
