#!/opt/venv/bin/python
"""python run.py <property-id> [--replay FILE]: run one check against /repo's working tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import envsetup  # noqa: F401  (must precede litdata)
from lib import mc
if __name__ == "__main__":
    mc.main(sys.argv[1], sys.argv[2:])
