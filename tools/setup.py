#!/usr/bin/env python3
"""Build everything the checks use, so that their object cache is warm."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, specs
try:
    for f in ("asan", "tsan", "memcheck"):
        print(build.build(f, "driver", sources=build.harness_sources()))
    for d in sorted(set(build.ALT.values())):
        print(build.driver("asan", d))
except build.BuildError as e:
    print(e, file=sys.stderr); sys.exit(1)
