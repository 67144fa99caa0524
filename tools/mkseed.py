"""mkseed.py ID PROPERTY FILE -- reads OLD\n====\nNEW\n====\nDEMO(python)\n====\nNEEDS\n====\nBREAKS from stdin; writes seeded/ID."""
import json, os, subprocess, sys, tempfile, shutil

sid, prop = sys.argv[1:3]
parts = sys.stdin.read().split("\n====\n")
edits, demo, needs, breaks = parts[:-3], parts[-3], parts[-2], parts[-1]
d = "/verif/seeded/" + sid
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp()
subprocess.check_call(["git", "clone", "-q", os.environ.get("MC_SRC", "/repo"), w + "/r"])
# edits come as FILE, OLD, NEW triples
assert len(edits) % 3 == 0, len(edits)
for i in range(0, len(edits), 3):
    f, old, new = edits[i].strip(), edits[i + 1].strip("\n"), edits[i + 2].strip("\n")
    p = w + "/r/" + f
    s = open(p, newline="").read()
    if "\r\n" in s:
        old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w", newline="").write(s.replace(old, new))
diff = subprocess.check_output(["git", "-C", w + "/r", "diff"])
open(d + "/patch.diff", "wb").write(diff)
open(d + "/demo.py", "w").write('import sys, os\nsys.path.insert(0, os.getcwd())\n' + demo.strip("\n") + "\n")
open(d + "/demo.sh", "w").write('#!/bin/bash\n# run with cwd /repo\nexport PYTHONDONTWRITEBYTECODE=1 NUMBA_CACHE_DIR=$(mktemp -d)\n'
                               '/opt/venv/bin/python "$(dirname "$0")/demo.py"; rc=$?\nrm -rf "$NUMBA_CACHE_DIR"\nexit $rc\n')
json.dump({"property": prop, "needs": needs.strip(), "what_it_breaks": breaks.strip()}, open(d + "/meta.json", "w"), indent=1)
shutil.rmtree(w)
print(sid, len(diff.splitlines()), "diff lines")
