# Expectations computed in harness/gen_except.py.
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from gen_except import spec
print("\n".join(spec("run")))
