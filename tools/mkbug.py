"""Library for writing seeded/<id>/ directories: bug(id, property, [(file, old, new)...], needs, breaks, demo)."""
import difflib, json, os, shutil, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "src/python/zquantum/core/"
DEMO = '''#!/bin/bash
# Run with cwd at the repository.
export PYTHONPATH="$PWD/src/python:$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
exec /opt/venv-pypy/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def bug(id, prop, edits, needs, breaks, demo):
    d = os.path.join(V, "seeded", id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    files = {}
    for f, old, new in edits:
        p = f if f.startswith("steps") else BASE + f
        if p not in files:
            s = subprocess.check_output(["git", "-C", "/repo", "show", "HEAD:" + p], text=True)
            files[p] = [s, s]
        assert files[p][1].count(old) == 1, (id, f, files[p][1].count(old), old)
        root = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).strip()
        orig = set(subprocess.check_output(["git", "-C", "/repo", "show", root + ":" + p], text=True).splitlines())
        changed = [l for l in old.splitlines() if l not in new.splitlines()]
        if changed and not any(any(l and l in o for o in orig) for l in changed):
            print("WARNING", id, "changes no original line", changed[:3])
        files[p][1] = files[p][1].replace(old, new)
    with open(d + "/patch.diff", "w") as o:
        for p, (a, b) in files.items():
            compile(b, p, "exec")
            o.writelines(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + p, "b/" + p))
    with open(d + "/demo.sh", "w") as o:
        o.write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    with open(d + "/demo.py", "w") as o:
        o.write(demo.lstrip("\n"))
    with open(d + "/meta.json", "w") as o:
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, o, indent=1)
