#!/usr/bin/env python3
"""Write the overlay of one case: ov.py CASE OUT.json [REPO]"""
import sys, os, json, glob, importlib.util
here = os.path.dirname(os.path.abspath(__file__))
repo = sys.argv[3] if len(sys.argv) > 3 else "/repo"
for f in glob.glob(os.path.join(here, "cases_*.py")):
    spec = importlib.util.spec_from_file_location("m", f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    for c in m.CASES:
        if c[0] == sys.argv[1]:
            ov = {}
            for file, old, new in c[3]:
                p = os.path.join(repo, file)
                s = ov.get(p) or (open(p).read() if os.path.exists(p) else "")
                ov[p] = s.replace(old, new, 1) if s else new
            json.dump(ov, open(sys.argv[2], "w"))
