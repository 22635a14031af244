#!/usr/bin/env python3
"""mk.py SPEC.py: writes /verif/seeded/<id>/ from a specification with ID, PROPERTY, NEEDS, BREAKS,
EDITS = [(file, old, new)], DEMO (python source using lspclient)."""
import sys, os, json, subprocess, shutil, runpy
W = "/tmp/w/repo"
for spec in sys.argv[1:]:
    s = runpy.run_path(spec)
    subprocess.run(["git", "-C", W, "checkout", "-q", "--", "."], check=True)
    for f, old, new in s["EDITS"]:
        p = os.path.join(W, f); t = open(p).read()
        assert t.count(old) == 1, (spec, f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", W, "diff"], capture_output=True, text=True, check=True).stdout
    subprocess.run(["git", "-C", W, "checkout", "-q", "--", "."], check=True)
    d = "/verif/seeded/" + s["ID"]; os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write("import time\nfrom lspclient import *\n" + s["DEMO"].lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 120 python3 "$(dirname "$0")/demo.py"\n')
    shutil.copy("/verif/tools/plant/lspclient.py", d)
    json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]},
              open(d + "/meta.json", "w"), indent=1)
    print("written", s["ID"])
