"""tools/mkseed.py SPEC.py: writes seeded/<id>/ from a specification defining ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO"""
import json, os, subprocess, sys, tempfile, shutil

ns = {}
exec(open(sys.argv[1]).read(), ns)
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(here, "seeded", ns["ID"])
os.makedirs(d, exist_ok=True)
tmp = tempfile.mkdtemp(prefix="mkseed")
try:
    subprocess.run(["git", "clone", "-q", "/repo", tmp + "/r"], check=True)
    for f, old, new in ns["EDITS"]:
        p = os.path.join(tmp, "r", f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", tmp + "/r", "diff"], check=True, capture_output=True, text=True).stdout
finally:
    shutil.rmtree(tmp)
open(d + "/patch.diff", "w").write(diff)
open(d + "/demo.py", "w").write(ns["DEMO"].lstrip())
open(d + "/demo.sh", "w").write('#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\nexec /opt/venv/bin/python -W ignore "$here/demo.py"\n')
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
print(diff)
