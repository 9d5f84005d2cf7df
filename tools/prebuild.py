#!/usr/bin/env python3
"""setup: builds the libraries and harnesses once (checks rebuild what changed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from checks import CHECKS
bad = 0
done = set()
for prop, ck in CHECKS.items():
    for s in ck["harnesses"]:
        k = (s.get("flavour", "asan"), s["name"])
        if k in done: continue
        done.add(k)
        exe, log = vbuild.build(s.get("flavour", "asan"), s["name"], s["sources"], s.get("cflags", ""), s.get("ldlibs", ""), s.get("ldflags", ""),
                                [vbuild.REPO + "/" + x for x in s.get("repo_sources", [])], [vbuild.REPO + "/" + x for x in s.get("repo_inc", [])])
        if not exe:
            print("build of %s failed:\n%s" % (s["name"], log[-3000:])); bad = 1
sys.exit(bad)
