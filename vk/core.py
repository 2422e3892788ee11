"""Case driver, monitors, verdicts and evidence.

A check is a module vk.checks.cNN with
    PROPERTY, LEVEL, RULE, ASSUMPTIONS (list), SCENARIOS: list of Scenario
Each scenario is a function fn(rng, mon): it draws one case from rng (a private
random.Random that depends only on VERIF_SEED, scenario name and case index),
drives the real code and feeds the monitor `mon`.
"""
import errno
import gc
import hashlib
import json
import logging
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import threading
import time
import traceback
import multiprocessing

REPO = os.environ.get("EC_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# ---------------------------------------------------------------- import of the code under test
def bootstrap():
    """Import eckity from the working tree, never from stale bytecode, with logging silenced."""
    import importlib.machinery as m
    orig = m.SourceFileLoader.get_code

    def get_code(self, fullname):
        if self.path.startswith(REPO + os.sep):
            return self.source_to_code(self.get_data(self.path), self.path)
        return orig(self, fullname)

    m.SourceFileLoader.get_code = get_code
    logging.getLogger().addHandler(logging.NullHandler())  # basicConfig becomes a no-op
    logging.getLogger().setLevel(logging.WARNING)
    import warnings
    warnings.simplefilter("ignore")
    if "VK_COV" in os.environ:           # development: line coverage of the code under test
        from vk import cov
        cov.start(REPO)
    import eckity
    assert os.path.abspath(eckity.__file__).startswith(os.path.abspath(REPO) + os.sep), eckity.__file__


# ---------------------------------------------------------------- monitor
class Violation(BaseException):
    """A monitor saw the property broken. (BaseException: the code under test must not swallow it.)"""

    def __init__(self, msg, detail=None):
        super().__init__(msg)
        self.msg = msg
        self.detail = detail or {}


class NoProgress(BaseException):
    pass


class Skip(BaseException):
    """The drawn case is not a valid workload; not counted."""


def short(x, n=400):
    try:
        s = repr(x)
    except Exception as e:  # noqa
        s = f"<unreprable {type(x).__name__}: {e}>"
    return s if len(s) <= n else s[:n] + "..."


class Monitor:
    def __init__(self):
        self.counts = {}
        self.first = None      # first violation seen in this case, for monitors that run in callbacks
        self.sigs = set()
        self.sample = None
        self.nontrivial = False
        self._lock = threading.Lock()

    def event(self, name, n=1):
        with self._lock:
            self.counts[name] = self.counts.get(name, 0) + n

    def fail(self, msg, **detail):
        v = Violation(msg, {k: short(x) for k, x in detail.items()})
        with self._lock:
            if self.first is None:
                self.first = v
        raise v

    def check(self, cond, msg, **detail):
        self.event("monitor_evaluations")
        if not cond:
            self.fail(msg, **detail)

    def eq(self, got, want, msg, **detail):
        self.event("monitor_evaluations")
        if not (got == want):
            self.fail(msg, got=got, want=want, **detail)

    def sig(self, *key):
        """Marks this case as non-trivial, with a signature for counting distinct ones."""
        self.nontrivial = True
        self.sigs.add(hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest())

    def show(self, **sample):
        if self.sample is None:
            self.sample = {k: (v if isinstance(v, (int, float, str, bool, type(None))) else short(v, 300))
                           for k, v in sample.items()}

    def reraise(self):
        """Re-raise a violation recorded in a callback whose exception was swallowed on the way."""
        if self.first is not None:
            raise self.first


class Scenario:
    def __init__(self, fn, quick, thorough, cpu=60, name=None, needs=()):
        self.fn = fn
        self.name = name or fn.__name__
        self.n = {"quick": quick, "thorough": thorough}
        self.cpu = cpu           # CPU seconds after which a case counts as making no progress
        self.needs = needs       # events that must have been observed over all cases


def case_seed(seed, prop, scen, i):
    h = hashlib.blake2b(f"{seed}/{prop}/{scen}/{i}".encode(), digest_size=8)
    return int.from_bytes(h.digest(), "big")


def _stuck_watch(state):
    """Signal handler body: raises NoProgress when the process used no CPU over two periods."""
    now = time.process_time() + _children_cpu()
    if now - state["last"] < 0.05:
        state["idle"] += 1
    else:
        state["idle"] = 0
    state["last"] = now
    if state["idle"] >= 2:
        state["idle"] = 0
        raise NoProgress("blocked: no CPU used over 90 s of wall-clock time")


def _children_cpu():
    r = resource.getrusage(resource.RUSAGE_CHILDREN)
    t = r.ru_utime + r.ru_stime
    try:
        me = os.getpid()
        hz = os.sysconf("SC_CLK_TCK")
        for tid in os.listdir(f"/proc/{me}/task"):
            with open(f"/proc/{me}/task/{tid}/children") as f:
                for c in f.read().split():
                    with open(f"/proc/{c}/stat") as g:
                        p = g.read().rsplit(")", 1)[1].split()
                        t += (int(p[11]) + int(p[12])) / hz
    except Exception:
        pass
    return t


def in_repo(tb):
    root = os.path.abspath(REPO) + os.sep
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def repo_in_chain(e):
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        if in_repo(e.__traceback__):
            return True
        # exceptions that come from a worker process carry their traceback as text
        if REPO + "/eckity" in str(getattr(e, "tb", "")):
            return True
        e = e.__cause__ or e.__context__
    return False


class Harness(Exception):
    pass


def exhausted(e):
    """Is this (or what caused it) a shortage of memory, threads, processes, files or space of the machine?"""
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        if isinstance(e, MemoryError) or "can't start new thread" in str(e) or \
                isinstance(e, OSError) and e.errno in (errno.EAGAIN, errno.ENOMEM, errno.EMFILE, errno.ENFILE, errno.ENOSPC):
            return True
        e = e.__cause__ or e.__context__
    return False


def run_case(scen, cseed):
    """run_once, again after a pause if the machine was short of resources (persistent shortage is the code's doing), and
    again if the monitor could not interpret what it got (reproducible: the code delivers something impossible)."""
    for pause in (2, 10, None):
        r = run_once(scen, cseed)
        if r[0] == "error" and r[2].get("resources"):
            if pause is None:
                return "violation", r[1], {"message": "valid workload exhausted the resources: " + r[2]["message"], "detail": {},
                                           "trace": r[2]["trace"]}
            gc.collect()
            time.sleep(pause)
            continue
        break
    if r[0] == "unreadable":
        again = run_once(scen, cseed)
        if again[0] == "violation":
            return again
        if again[0] == "unreadable":
            return "violation", r[1], {"message": "a result does not have the documented form; reading it raised " + r[2]["message"][:400],
                                       "detail": {}, "trace": r[2]["trace"]}
        return "error", r[1], r[2]
    return r


def run_once(scen, cseed):
    """Returns (status, monitor, info): status in ok | skip | violation | error."""
    import numpy as np
    mon = Monitor()
    rng = random.Random(cseed)
    random.seed(cseed & 0xFFFFFFFF)
    np.random.seed((cseed >> 16) & 0xFFFFFFFF)
    state = {"last": time.process_time() + _children_cpu(), "idle": 0}

    def on_cpu(*_):
        raise NoProgress(f"case used more than {scen.cpu} s of CPU time")

    main = threading.current_thread() is threading.main_thread()
    if main:
        signal.signal(signal.SIGPROF, on_cpu)
        signal.signal(signal.SIGALRM, lambda *_: _stuck_watch(state))
        signal.setitimer(signal.ITIMER_PROF, scen.cpu, scen.cpu)
        signal.setitimer(signal.ITIMER_REAL, 30, 30)
    try:
        scen.fn(rng, mon)
        mon.reraise()
        return "ok", mon, None
    except Skip:
        if mon.first is not None:
            return "violation", mon, {"message": mon.first.msg, "detail": mon.first.detail}
        return "skip", mon, None
    except Violation as v:
        return "violation", mon, {"message": v.msg, "detail": v.detail,
                                  "trace": traceback.format_exc()[-3000:]}
    except NoProgress as v:
        return "violation", mon, {"message": f"no progress: {v}", "detail": {},
                                  "trace": traceback.format_exc()[-3000:]}
    except Exception as e:
        if mon.first is not None:
            return "violation", mon, {"message": mon.first.msg, "detail": mon.first.detail}
        tr = traceback.format_exc()[-4000:]
        if isinstance(e, Harness) or exhausted(e):
            return "error", mon, {"message": f"{type(e).__name__}: {e}", "trace": tr, "resources": exhausted(e)}
        if not repo_in_chain(e):
            return "unreadable", mon, {"message": f"{type(e).__name__}: {e}", "trace": tr, "detail": {}}
        return "violation", mon, {
            "message": f"valid workload raised {type(e).__name__}: {e}"[:500],
            "detail": {}, "trace": tr}
    finally:
        if main:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)


# more cases where cases are cheap: a quick check takes 15-25 s on 8 cores
QUICK_SCALE = {"C01": 3, "C02": 5, "C03": 1.5, "C04": 2, "C05": 2, "C06": 1.3, "C07": 8, "C08": 10, "C09": 8, "C10": 1.6, "C11": 3, "C12": 8,
               "C13": 2.5, "C16": 4, "C17": 3, "C18": 5, "C19": 5, "C20": 10, "C21": 3, "C22": 4, "C23": 2, "C24": 6, "C25": 3, "C26": 4,
               "C27": 3, "C28": 3.5, "C29": 2, "C30": 3, "C31": 3, "C32": 3}


def worker(mod, tier, seed, wid, nworkers, outdir, deadline):
    res = {"cases": 0, "skips": 0, "counts": {}, "sigs": {}, "per": {}, "samples": [],
           "violations": [], "errors": [], "cut": 0}
    stopfile = os.path.join(outdir, "stop")
    try:                      # own process group: everything this worker starts can be ended with it
        os.setpgid(0, 0)
        import ctypes
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)   # PR_SET_PDEATHSIG: end with the main process
    except Exception:
        pass
    logging.disable(logging.CRITICAL)
    # runaway allocation in the code under test becomes a MemoryError of that case
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.RLIM_INFINITY))
    try:
        # all scenarios advance together, so that a run cut by its budget has covered each of them
        plan = []
        for k, scen in enumerate(mod.SCENARIOS):
            n = scen.n[tier]
            scale = QUICK_SCALE.get(mod.PROPERTY, 1) if tier == "quick" else 1
            if "VK_SCALE" in os.environ:          # development: fewer or more cases
                scale *= float(os.environ["VK_SCALE"])
            if scale != 1 and n > 8:
                n = max(8, int(n * scale))
            plan += [(i / n, k, i) for i in range(wid, n, nworkers)]
            res["per"][scen.name] = {"cases": 0, "nontrivial": 0, "events": {}}
        plan.sort()
        sampled = set()
        for _, k, i in plan:
            scen = mod.SCENARIOS[k]
            per = res["per"][scen.name]
            if time.time() > deadline:
                res["cut"] += 1
                break
            if os.path.exists(stopfile):
                break
            cs = case_seed(seed, mod.PROPERTY, scen.name, i)
            status, mon, info = run_case(scen, cs)
            for e, v in mon.counts.items():
                res["counts"][e] = res["counts"].get(e, 0) + v
                per["events"][e] = per["events"].get(e, 0) + v
            if status == "skip":
                res["skips"] += 1
                continue
            res["cases"] += 1
            per["cases"] += 1
            if mon.nontrivial:
                per["nontrivial"] += 1
                res["sigs"].setdefault(scen.name, set()).update(mon.sigs)
            if mon.sample and k not in sampled:
                sampled.add(k)
                res["samples"].append({"scenario": scen.name, **mon.sample})
            if status == "violation":
                info.update(scenario=scen.name, case_seed=cs, index=i)
                res["violations"].append(info)
                open(stopfile, "w").close()
                break
            if status == "error":
                info.update(scenario=scen.name, case_seed=cs, index=i)
                res["errors"].append(info)
                if len(res["errors"]) >= 3:
                    open(stopfile, "w").close()
                    break
    except BaseException as e:  # noqa
        res["errors"].append({"message": f"worker crashed: {e}", "trace": traceback.format_exc()[-4000:],
                              "scenario": "-", "case_seed": 0, "index": -1})
    res["sigs"] = {k: sorted(v) for k, v in res["sigs"].items()}
    tmp = os.path.join(outdir, f"r{wid}.tmp")
    with open(tmp, "w") as f:
        json.dump(res, f)
    os.rename(tmp, os.path.join(outdir, f"r{wid}.json"))
    if "VK_COV" in os.environ:
        from vk import cov
        cov.dump(os.environ["VK_COV"], mod.PROPERTY)
    sys.stdout.flush()
    os._exit(0)


def load_known(prop):
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known:"):
                body = line[len("known:"):].strip()
                tag, _, rest = body.partition(" ")
                if tag == f"property={prop}":
                    key, _, what = rest.partition(" ")
                    out.append((key.removeprefix("key="), what))
    return out


def main_check(mod, tier, seed):
    t0 = time.time()
    budget = {"quick": 540.0, "thorough": 780.0}[tier]
    budget = float(os.environ.get("VK_BUDGET", budget))
    nworkers = int(os.environ.get("VK_WORKERS", getattr(mod, "WORKERS", 8)))
    outdir = tempfile.mkdtemp(prefix="vk_")
    cwd = os.getcwd()
    procs = []
    try:
        ctx = multiprocessing.get_context("fork")
        deadline = t0 + budget
        for w in range(nworkers):
            p = ctx.Process(target=worker, args=(mod, tier, seed, w, nworkers, outdir, deadline))
            p.start()
            procs.append(p)
        hard = deadline + 60
        for p in procs:
            p.join(max(0.1, hard - time.time()))
        dead = []
        for w, p in enumerate(procs):
            if p.is_alive():
                p.kill()
                dead.append(f"worker {w} did not finish within the budget")
            elif not os.path.exists(os.path.join(outdir, f"r{w}.json")):
                dead.append(f"worker {w} died with exit code {p.exitcode}")
        agg = {"cases": 0, "skips": 0, "counts": {}, "sigs": {}, "per": {}, "samples": [],
               "violations": [], "errors": [], "cut": 0}
        for w in range(nworkers):
            path = os.path.join(outdir, f"r{w}.json")
            if not os.path.exists(path):
                continue
            r = json.load(open(path))
            for k in ("cases", "skips", "cut"):
                agg[k] += r[k]
            for k, v in r["counts"].items():
                agg["counts"][k] = agg["counts"].get(k, 0) + v
            for k, v in r["sigs"].items():
                agg["sigs"].setdefault(k, set()).update(v)
            for k, v in r["per"].items():
                d = agg["per"].setdefault(k, {"cases": 0, "nontrivial": 0, "events": {}})
                d["cases"] += v["cases"]
                d["nontrivial"] += v["nontrivial"]
                for e, c in v["events"].items():
                    d["events"][e] = d["events"].get(e, 0) + c
            for s in r["samples"]:
                if sum(1 for x in agg["samples"] if x["scenario"] == s["scenario"]) < 2:
                    agg["samples"].append(s)
            agg["violations"] += r["violations"]
            agg["errors"] += r["errors"]
    finally:
        for p in procs:       # nothing the workers started may outlive the check (or hold its output open)
            try:
                if p.pid and p.pid != os.getpgrp():
                    os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(outdir, ignore_errors=True)
        os.chdir(cwd)

    known = load_known(mod.PROPERTY)
    fresh, found = [], set()
    for v in agg["violations"]:
        for key, what in known:
            if v.get("detail", {}).get("known_key") == key:
                found.add((key, what))
                break
        else:
            fresh.append(v)
    for key, what in known:
        print(f"KNOWN-FINDING: property={mod.PROPERTY} {what}")

    distinct = sum(len(v) for v in agg["sigs"].values())
    per = {k: {"cases": v["cases"], "nontrivial": v["nontrivial"],
               "distinct_signatures": len(agg["sigs"].get(k, ())),
               "events": dict(sorted(v["events"].items()))} for k, v in agg["per"].items()}
    evidence = {
        "property": mod.PROPERTY, "tier": tier, "seed": seed, "level": mod.LEVEL,
        "coverage": {
            "evaluations": agg["cases"], "distinct_nontrivial": distinct, "rule": mod.RULE,
            "samples": agg["samples"] or [{"note": "no case was completed"}],
            "observed_events": dict(sorted(agg["counts"].items())),
            "per_scenario": per, "discarded_cases": agg["skips"],
            "workers_cut_by_time_budget": agg["cut"]},
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 3), "violations": len(fresh)}
    evdir = os.environ.get("VK_EVIDENCE_DIR") or os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    evp = os.path.join(evdir, f"{mod.PROPERTY}.json")
    with open(evp + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(evp + ".tmp", evp)

    print(f"{mod.PROPERTY} {tier} seed={seed}: {agg['cases']} cases, {distinct} distinct non-trivial, "
          f"{sum(agg['counts'].values())} events, {evidence['wall_s']:.1f} s")
    if fresh:
        v = sorted(fresh, key=lambda x: (x["index"], x["scenario"]))[0]
        rdir = os.path.join(evdir, "replay")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, f"{mod.PROPERTY}_{v['scenario']}_{v['case_seed']}.json")
        with open(rp, "w") as f:
            json.dump({"property": mod.PROPERTY, **v}, f, indent=1)
        print(f"  scenario {v['scenario']} case {v['index']}: {v['message']}")
        for k, x in (v.get("detail") or {}).items():
            print(f"    {k} = {x}")
        print(f"VIOLATION property={mod.PROPERTY} replay={rp}")
        return 1
    if agg["errors"] or dead:
        for e in agg["errors"][:3]:
            print("HARNESS ERROR", e["scenario"], e["index"], e["message"])
            print(e.get("trace", ""))
        for d in dead:
            print("HARNESS ERROR", d)
        return 2
    for scen in mod.SCENARIOS:
        ev = agg["per"].get(scen.name, {"cases": 0, "events": {}})
        if ev["cases"] == 0:
            print(f"INCONCLUSIVE: scenario {scen.name} completed no case")
            return 3
        for need in scen.needs:
            if not ev["events"].get(need):
                print(f"INCONCLUSIVE: scenario {scen.name} never observed '{need}'")
                return 3
    return 0


def replay(mod, path):
    d = json.load(open(path))
    for scen in mod.SCENARIOS:
        if scen.name == d["scenario"]:
            status, mon, info = run_case(scen, d["case_seed"])
            print("replay:", status, json.dumps(info, indent=1) if info else "")
            if status == "violation":
                print(f"VIOLATION property={mod.PROPERTY} replay={path}")
                return 1
            return 0 if status in ("ok", "skip") else 2
    print("unknown scenario", d["scenario"])
    return 2
