"""mkseed.py SPEC.py ...: writes seeded/<id>/ from specifications.
A spec file defines SEEDS: list of dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)."""
import json, os, runpy, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# cwd: the repository. Exit 0: the property holds; nonzero: it is broken.
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
%s
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
for spec in sys.argv[1:]:
    for s in runpy.run_path(spec)["SEEDS"]:
        d = os.path.join(HERE, "seeded", s["id"])
        tmp = tempfile.mkdtemp(prefix="mkseed_")
        try:
            subprocess.run(["git", "clone", "-q", "/repo", tmp + "/r"], check=True)
            for f, old, new in s["edits"]:
                p = f"{tmp}/r/{f}"
                src = open(p).read()
                assert src.count(old) == 1, (s["id"], f, src.count(old), old)
                open(p, "w").write(src.replace(old, new))
            diff = subprocess.run(["git", "-C", tmp + "/r", "diff"], check=True,
                                  capture_output=True, text=True).stdout
        finally:
            shutil.rmtree(tmp)
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(DEMO_SH % s.get("sh", ""))
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        print("wrote", s["id"])
