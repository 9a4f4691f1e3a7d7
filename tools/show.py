#!/usr/bin/env python3
"""Replays a file and prints the recorded trace: tools/show.py FILE [LAST]."""
import json
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "engine"))
import core      # noqa: E402
import modules   # noqa: E402
d = json.load(open(sys.argv[1]))
os.environ["VERIF_WORK"] = w = "/tmp/show-%d" % os.getpid()
os.makedirs(w)
m = modules.MODULES[d["module"]]
v = [x for x in m["variants"] + m.get("asan_variants", [])
     if x["name"] == d["variant"]][0]
exe = core.build(w, m["driver"], v, v.get("sources", None if v.get("asan")
                                          else m.get("sources")))
core.scripts_to_file(d["scripts"], w + "/s")
core.run_driver(exe, w + "/s", w + "/t")
for s in d["scripts"][-1:]:
    print("; ".join(s))
lines = open(w + "/t").read().splitlines()
k = next((i for i, t in enumerate(lines) if t == d["event"]), len(lines) - 1)
n = int(sys.argv[2]) if len(sys.argv) > 2 else 20
print("\n".join(lines[max(0, k - n):k + 1]))
core.shutil.rmtree(w)
