"""writes vf/baseline_functions.txt: the functions of the tree the rules were written for"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import build, ir
if os.path.exists(build.BASELINE):
    os.remove(build.BASELINE)
names = set()
for nd in (True, False):
    names |= set(ir.parse_module(build.library_ir(ndebug=nd)[0]).functions)
open(build.BASELINE, "w").write("\n".join(sorted(names)) + "\n")
print(len(names))
