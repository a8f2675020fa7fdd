"""Builds what the checks run, so that each of them has little left to build."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp, js
try:
    print(vp.build_harness())
    print(vp.build_cli())
    for n in ("apis", "compiler"):
        print(js.build(n))
except vp.ToolError as e:
    print(e)
    sys.exit(1)
