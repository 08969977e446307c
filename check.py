#!/opt/venv/bin/python
"""check.py <PROPERTY> [--replay FILE]: decide one property by seeded deterministic simulation."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim.runner import main  # noqa: E402

sys.exit(main())
