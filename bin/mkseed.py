"""Development tool: helper to write /verif/seeded/<id>/ from (file, old, new) edits against /repo HEAD."""
import os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# run with cwd = the repository: exit 0 when the property holds
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 %s -I include -I . -isystem /usr/include/liquid "$d/demo.cpp" %s -o "$t/demo" -lpthread || exit 3
cd "$t" && timeout 60 %s./demo
'''
def mk(id, prop, needs, breaks, edits, demo, flags="", extra="", pre="", dirs=()):
    d = os.path.join(V, "seeded", id); os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    subprocess.check_call(["git", "clone", "-q", "/repo", t + "/r"])
    for f, old, new in edits:
        p = os.path.join(t, "r", f); s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", t + "/r", "diff"]).decode(); assert diff
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cpp", "w").write(demo)
    for x in dirs: shutil.copytree(x, os.path.join(d, os.path.basename(x)), dirs_exist_ok=True)
    open(d + "/demo.sh", "w").write(SH % (flags, extra, pre))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(t)
