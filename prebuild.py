"""Run by setup.sh: compiles everything once."""
import sys
sys.dont_write_bytecode = True
import vlib

for profile in ("dev",):
    vlib.Build("full", vlib.program(1), ["std", "cgmath", "glam", "nalgebra"], profile=profile, timeout=1500).build(fresh=False)
try:
    import special
except ImportError:
    special = None
if special:
    special.prebuild()
print("ready")
