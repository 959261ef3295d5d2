"""Nothing is built ahead: every check builds what it needs from the current tree.  This only
makes sure the tools the checks need are there."""
import os
import shutil
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import TLA, VERIF   # noqa: E402

missing = [t for t in ("gcc", "clang", "arm-linux-gnueabi-gcc", "qemu-arm", "valgrind", "java") if not shutil.which(t)]
missing += [p for p in TLA if not os.path.exists(p)]
if missing:
    sys.exit("missing: " + ", ".join(missing))
os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
os.makedirs(os.path.join(VERIF, ".work"), exist_ok=True)
print("setup ok")
