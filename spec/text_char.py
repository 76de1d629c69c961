# Content of results: reference models in harness/gen_text.py, one case per outcome of the comparisons they make.
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from gen_text import spec
print("\n".join(spec("Char")))
