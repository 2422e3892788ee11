"""try_seeds.py [-a|--all-checks] [--tests] [id ...]: confirms seeded changes in scratch copies of /repo
(demo passes without / fails with the patch, stable tests pass) and runs the property's quick check."""
import json, os, subprocess, sys, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
allc = "-a" in args; notest = "--no-tests" in args
thorough = "--thorough" in args
ids = [a for a in args if not a.startswith("-")] or sorted(os.listdir(HERE + "/seeded"))

def sh(cmd, cwd, env=None, timeout=1500):
    e = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH",)}
    e["PATH"] = "/opt/venv/bin:" + e["PATH"]
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "TIMEOUT"

def one(i):
    d = f"{HERE}/seeded/{i}"
    prop = json.load(open(d + "/meta.json"))["property"]
    tmp = tempfile.mkdtemp(prefix="seed_"); r = tmp + "/r"; dd = tmp + "/d"
    try:
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        os.makedirs(dd)
        for f in os.listdir(d):
            if not f.endswith((".diff", ".json")):
                shutil.copy(f"{d}/{f}", dd)
        out = {}
        rc0, o0 = sh(["bash", dd + "/demo.sh"], r, timeout=300)
        out["clean"] = "ok" if rc0 == 0 else f"BAD({rc0}) {o0[-600:]}"
        rc, o = sh(["git", "apply", d + "/patch.diff"], r)
        if rc:
            return i, prop, {"apply": "BAD " + o}
        t0 = time.time()
        rc1, o1 = sh(["bash", dd + "/demo.sh"], r, timeout=300)
        out["demo"] = "ok" if rc1 not in (0, 124) else f"BAD({rc1})"
        out["why"] = o1.strip().splitlines()[-1][:150] if o1.strip() else ""
        if not notest:
            rc, o = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-x"], r,
                       {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg"})
            out["tests"] = "ok" if rc == 0 else "BAD " + "\n".join(o.splitlines()[-8:])
        checks = [prop] if not allc else [f"C{k:02d}" for k in range(1, 33)]
        caught = []
        for c in checks:
            t0 = time.time()
            rc, o = sh(["bash", HERE + "/check.sh", c, "thorough" if thorough else "quick"], HERE,
                       {"EC_REPO": r, "VERIF_SEED": "1", "VK_EVIDENCE_DIR": tmp})
            if rc == 1 and f"VIOLATION property={c}" in o:
                caught.append(c)
                if c == prop:
                    out["msg"] = [l for l in o.splitlines() if "VIOLATION" in l or "kind" in l][:1] + o.splitlines()[-3:]
            elif rc != 0:
                caught.append(f"{c}:rc{rc}?")
                out["err"] = o[-500:]
            out["t"] = round(time.time() - t0, 1)
        out["caught"] = caught
        return i, prop, out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

RES = HERE + "/tools/seed_results.json"
results = json.load(open(RES)) if os.path.exists(RES) else {}
with ThreadPoolExecutor(4) as ex:
    for i, prop, out in ex.map(one, ids):
        ok = out.get("clean") == "ok" and out.get("demo") == "ok" and out.get("tests", "ok") == "ok"
        print(("VALID  " if ok else "INVALID"), i, prop, "CAUGHT" if prop in out.get("caught", []) else "MISSED", out if (not ok or "-v" in args or prop not in out.get("caught", [])) else (out["t"], out["caught"], out["msg"][1:-1]), flush=True)
        if "caught" in out:
            results[i] = sorted(set(out["caught"]) | (set() if allc else set(results.get(i, [])) - {prop}))
json.dump({k: v for k, v in sorted(results.items()) if os.path.isdir(f"{HERE}/seeded/{k}")}, open(RES, "w"), indent=1)
