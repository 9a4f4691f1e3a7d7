#!/usr/bin/env python3
"""Sanity check of the tools the checks need (nothing is built in advance:
every check rebuilds what it needs from /repo's working tree)."""
import os
import shutil
import sys

for tool in ("gcc", "java"):
    if shutil.which(tool) is None:
        sys.exit("missing tool: " + tool)
for jar in ("tla2tools.jar", "CommunityModules-deps.jar"):
    if not os.path.exists("/opt/veriftools/tla/" + jar):
        sys.exit("missing " + jar)
print("ready")
