# Boxes of different types are never equal, whatever they hold: see harness/gen_same.py.
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from gen_same import spec
print("\n".join(spec()))
