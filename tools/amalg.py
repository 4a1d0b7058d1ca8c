"""writes build/c/coco.c and coco.h of the current directory's tree (what fabricate does), for trying demos in a scratch copy"""
import os, sys, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.environ["VERIF_REPO"] = os.getcwd()
from vf import build
t, f = build.amalgamate(build.find_core_entries() + ["coco_runtime_c.c"])
open("build/c/coco.c", "w").write(t)
shutil.copy("src/coco.h", "build/c/coco.h")
