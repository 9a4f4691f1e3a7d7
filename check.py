#!/usr/bin/env python3
"""check.py PROPERTY            decide one property (VERIF_TIER, VERIF_SEED)
   check.py --replay FILE       run the scripts of a replay file again"""
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "engine"))
import core      # noqa: E402
import modules   # noqa: E402


def replay(path):
    body = json.load(open(path))
    m = modules.MODULES[body["module"]]
    var = [v for v in m["variants"] + m.get("asan_variants", [])
           if v["name"] == body["variant"]]
    part = core.Part(m, var, body["enforce"])
    c = core.Check(body["property"], [part], "quick", 1)
    c.build_part(part)
    r = c.chunk(part, var[0], body["scripts"])
    print("accepted" if r["ok"] else "rejected at event %d: %s\n%s\n%s" % (
        r["line"], r["why"], core.nth_line(r["base"] + ".ndjson", r["line"]),
        r["err"][-2000:]))
    print("trace:", r["base"] + ".ndjson")
    return 0 if r["ok"] else 1


if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    if len(sys.argv) > 3 and sys.argv[1] == "--module":
        # --module NAME PROPERTY [asan]: one module alone, while developing.
        m = modules.MODULES[sys.argv[2]]
        vs = m["asan_variants"] if "asan" in sys.argv[4:] else m["variants"]
        sys.exit(core.main(sys.argv[3], [core.Part(
            m, vs, "ALL" if sys.argv[3] == "N01" else sys.argv[3])], []))
    prop = sys.argv[1]
    sys.exit(core.main(prop, modules.parts_of(prop), sys.argv))
