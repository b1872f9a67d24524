#!/opt/veriftools/pyvenv/bin/python
"""check.py <property id> [--thorough] | --replay <file>"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from engine import checks  # noqa: E402

if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        sys.exit(checks.rerun(sys.argv[2]))
    sys.exit(checks.main(sys.argv[1], '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough'))
