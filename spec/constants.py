# Published constants: expected values computed from the definition of each type in harness/gen_const.py.
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from gen_const import spec
print("\n".join(spec()))
