"""setup_cmd: build the fault-injection shim from the committed source."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import runner  # noqa: E402

runner.ensure_shim()
print("setup ok")
