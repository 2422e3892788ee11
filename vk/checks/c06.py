"""C06: reproducibility."""
import json
import os
import random
import subprocess
import sys

import numpy as np

from eckity.genetic_operators import GeneticOperator
from eckity.random import RNG

from vk import mo, wl
from vk.core import HERE, REPO, Scenario, Harness

PROPERTY = "C06"
LEVEL = "exploration"
RULE = ("A case is a configuration (vectors, typed and untyped trees, multi-objective) and a seed, run twice under different "
        "nuisances: executor kind, workers, map/submit, evaluation delays, ambient random state, other runs before, heap "
        "garbage, or another interpreter with another PYTHONHASHSEED. The monitor compares the complete histories "
        "(genomes bit by bit, fitness, best of run, per generation). Seed discipline is watched through a user-supplied "
        "RNG that logs set_seed, and through an operator logging what the global generators produce in each generation. "
        "Non-trivial: at least one generation bred with random operators; distinct by configuration and nuisance pair.")
ASSUMPTIONS = ["evaluators are deterministic and draw no random numbers",
               "runs of one process are sequential (the random generators are process-wide)"]


class Probe(GeneticOperator):
    """Draws from both global generators and writes the draws into the genome."""

    def __init__(self):
        super().__init__(probability=1.0, arity=1)
        self.log = []

    def apply(self, individuals):
        a, b = random.random(), np.random.random_sample()
        self.log.append((a, b))
        for ind in individuals:
            if isinstance(ind, wl.Vector):
                ind.set_cell_value(0, a if len(self.log) % 2 else b)
        return individuals


class LogRNG(RNG):
    def __init__(self):
        super().__init__()
        self.log = []

    def set_seed(self, seed):
        self.log.append(seed)
        super().set_seed(seed)


def nuisance(rng, c):
    """Ambient conditions that must not matter."""
    k = {}
    c = dict(c)
    c["exec"] = rng.choice(["thread", "thread", "thread", "process"]) if c["pop"] <= 12 and c["gens"] <= 4 else "thread"
    c["workers"] = rng.choice([1, 2, 3, 8]) if c["exec"] == "thread" else rng.choice([1, 2])
    c["method"] = rng.choice(["map", "submit"])
    c["delay"] = rng.choice([0.0, 0.0005]) if c["pop"] * (c["gens"] + 1) <= 40 else 0.0
    return c


def shake(rng):
    random.seed(rng.getrandbits(32))
    np.random.seed(rng.getrandbits(32))
    for _ in range(rng.randrange(5)):
        random.random(), np.random.rand()
    return [object() for _ in range(rng.randrange(2000))], bytearray(rng.randrange(1, 5000))


def is_mo(c):
    return "kind" in c


def make(c, probe=False, rng_obj=None, seed="cfg", gen_seed=None):
    kw = {}
    if gen_seed is not None:
        kw["generation_seed"] = gen_seed
    if seed != "cfg":
        kw["random_seed"] = seed
    if rng_obj is not None:
        kw["random_generator"] = rng_obj
    if is_mo(c):
        return mo.build_mo(c, **kw) + (None,)
    extra = [Probe()] if probe else []
    return wl.build(c, extra_ops=extra, evaluator=wl.PureEval(c["land"], c["delay"]), **kw)


def draw(rng, small=False):
    if rng.random() < 0.25:
        c = mo.draw_mo(rng, max_gen=rng.choice([1, 2, 3, 5]), pops=[4, 6, 8, 12, 20] if small or rng.random() < 0.9 else [30, 44, 70])
        c["delay"] = 0.0
        return c
    c = wl.draw_cfg(rng, max_gen=rng.choice([0, 1, 2, 3, 5]), big=0.0 if small else 0.03,
                    pops=[2, 4, 6, 8, 12, 20] if small else None)
    return c


def diff(a, b):
    if len(a) != len(b):
        return f"lengths {len(a)} and {len(b)}"
    for g, (x, y) in enumerate(zip(a, b)):
        if x != y:
            for k, (u, v) in enumerate(zip(x[0], y[0])):
                if u != v:
                    return f"generation {g} individual {k}: {u} / {v}"
            return f"generation {g}: best of run {x[1]} / {y[1]}"
    return None


def replays(rng, mon):
    c = draw(rng)
    probe = not is_mo(c) and rng.random() < 0.5 and c["enc"] == "float"
    hs = []
    conds = []
    for r in range(rng.choice([2, 2, 3])):
        cc = nuisance(rng, c) if not is_mo(c) else dict(
            c, exec=rng.choice(["thread", "thread", "process"]), workers=rng.choice([1, 2, 4]),
            method=rng.choice(["map", "submit"]))
        if rng.random() < 0.4:     # another run in between
            c2 = draw(rng, small=True)
            if is_mo(c2):
                c2["gens"] = 1
            a2, s2, _ = make(c2)
            a2.evolve()
            mon.event("intervening_runs")
        junk = shake(rng)
        algo, sp, _ = make(cc, probe)
        if rng.random() < 0.5:
            junk2 = shake(rng)
        hs.append(wl.history(algo, sp))
        conds.append((cc["exec"], cc["workers"], cc["method"], cc.get("delay")))
    for r in range(1, len(hs)):
        d = diff(hs[0], hs[r])
        mon.check(d is None, "two runs with the same seed and configuration differ", where=d, conditions=conds, cfg=c)
    mon.event("histories_compared", len(hs) - 1)
    mon.event("generations_compared", (len(hs) - 1) * len(hs[0]))
    if c["gens"]:
        mon.sig(wl.cfg_sig(c), conds)
        mon.show(cfg=c, conditions=conds, generations=len(hs[0]))


def unseeded(rng, mon):
    """A run that got no seed reports one that reproduces it."""
    c = draw(rng, small=True)
    algo, sp, _ = make(c, seed=None)
    shake(rng)
    h = wl.history(algo, sp)
    s = algo.random_seed
    mon.check(isinstance(s, (int, np.integer)) and 0 <= s < 2 ** 32, "the reported seed is no 32-bit number", seed=s)
    shake(rng)
    a2, sp2, _ = make(c, seed=s)
    d = diff(h, wl.history(a2, sp2))
    mon.check(d is None, "the reported seed does not reproduce the run", where=d, seed=s, cfg=c)
    mon.event("reported_seeds_replayed")
    mon.sig(wl.cfg_sig(c))


def seeding(rng, mon):
    """Seed discipline seen by a user-supplied generator; generations never repeat random choices."""
    domo = rng.random() < 0.25
    gens = rng.choice([0, 1, 2, 5, 9, 9, 33, 110])
    c = mo.draw_mo(rng, max_gen=gens, pops=[4, 6]) if domo else wl.draw_cfg(
        rng, max_gen=gens, pops=[2, 4, 6], encs=("float",))
    if not domo:
        c["elit"] = rng.choice([0.0, 0.5])
    seed = rng.choice([0, 1, 2 ** 32 - 1, 2 ** 32 - 2, 2 ** 32 - gens, 2 ** 31, rng.randrange(2 ** 32)]) % 2 ** 32
    rg = LogRNG()
    algo, sp, _ = make(c, probe=True, rng_obj=rg, seed=seed)
    rg.log.clear()
    at = []
    algo.register("init", lambda s, d: at.append(len(rg.log)))
    algo.register("after_generation", lambda s, d: at.append(len(rg.log)))
    algo.evolve()
    mon.eq(rg.log[:1], [seed], "the generator is not seeded with the run's seed first")
    mon.eq(at, list(range(1, gens + 2)), "the generator is not seeded once per generation")
    for s in rg.log:
        mon.check(isinstance(s, int) and 0 <= s < 2 ** 32, "seed out of the 32-bit range", seed=s, log=rg.log)
    mon.check(len(set(rg.log)) == len(rg.log), "a seed was used twice in one run", log=rg.log)
    mon.event("seeds_observed", len(rg.log))
    if not domo:
        probe = [o for o in sp.get_operators_sequence() if isinstance(o, Probe)][0]
        for j in (0, 1):
            vals = [t[j] for t in probe.log]
            mon.check(len(set(vals)) == len(vals), "the same random numbers were drawn in two generations",
                      generator="random" if j == 0 else "numpy", seed=seed, gens=gens)
        mon.event("random_draws_observed", 2 * len(probe.log))
        # the draws are a function of the seed: both generators are under control
        shake(rng)
        a2, sp2, _ = make(c, probe=True, seed=seed)
        a2.evolve()
        p2 = [o for o in sp2.get_operators_sequence() if isinstance(o, Probe)][0]
        mon.eq(p2.log, probe.log, "the random numbers drawn in a run are not determined by its seed", cfg=c)
    mon.sig(seed, gens, wl.cfg_sig(c))


def generation_seeds(rng, mon):
    """An explicitly given generation seed (0 included) decides how the generations are seeded, whatever the run's seed."""
    domo = rng.random() < 0.25
    gens = rng.choice([1, 2, 3, 6, 25, 80])
    c = mo.draw_mo(rng, max_gen=gens, pops=[4, 6]) if domo else wl.draw_cfg(
        rng, max_gen=gens, pops=[2, 4, 6], encs=("float",))
    gs = rng.choice([0, 0, 1, 2 ** 32 - 1, 2 ** 32 - 2, rng.randrange(2 ** 32)])
    s1 = rng.choice([0, 0, 1, 5, rng.randrange(2 ** 32)])
    s2 = rng.choice([0, 7, 2 ** 32 - 1, rng.randrange(2 ** 32)])
    logs = []
    for s, g in ((s1, gs), (s2, gs), (s1, gs), (gs, None)):
        rg = LogRNG()
        algo, sp, pr = make(c, probe=True, rng_obj=rg, seed=s, gen_seed=g)
        rg.log.clear()
        shake(rng)
        h = wl.history(algo, sp)
        mon.eq(rg.log[:1], [s], "the generator is not seeded with the run's seed first", generation_seed=g)
        mon.eq(len(rg.log), gens + 1, "the generator is not seeded once per generation", log=rg.log)
        mon.check(len(set(rg.log[1:])) == gens, "a seed was used for two generations", log=rg.log)
        mon.check(all(isinstance(x, int) and 0 <= x < 2 ** 32 for x in rg.log), "seed out of the 32-bit range", log=rg.log)
        logs.append((rg.log[1:], h))
    mon.eq(logs[1][0], logs[0][0], "the same generation seed gave other seeds for the generations", generation_seed=gs,
           run_seeds=(s1, s2))
    mon.eq(logs[3][0], logs[0][0], "a generation seed is not where the generations' seeds start from", generation_seed=gs,
           run_seed=s1)
    d = diff(logs[0][1], logs[2][1])
    mon.check(d is None, "two runs with the same seed and generation seed differ", where=d, seed=s1, generation_seed=gs)
    mon.event("generation_seeds_observed", 4 * gens)
    mon.sig(gs, s1, s2, gens, wl.cfg_sig(c))


def different_seeds(rng, mon):
    """Other seeds give other runs (the seed is really used)."""
    c = wl.draw_cfg(rng, encs=("float",), pops=[8], max_gen=1, warm=0)
    c["bounds"] = None
    r = random.Random(c["opseed"])
    if wl.vector_bounds(r, "float", c["length"]) in ((2.5, 2.5),) or c["length"] < 2:
        c["length"] = 8
    s1, s2 = rng.sample(range(2 ** 32), 2)
    hs = []
    for s in (s1, s2):
        algo, sp, _ = make(c, seed=s)
        hs.append(wl.history(algo, sp))
    cells = {x for h in hs for g, _ in h[0][0] for x in g}
    if len(cells) < 6:
        return       # degenerate bounds
    mon.check(hs[0][0][0] != hs[1][0][0], "two seeds give the same initial population", seeds=(s1, s2))
    # seeds that differ in one bit drive both generators differently
    draws = []
    for s in (s1, s1 ^ (1 << rng.randrange(32))):
        algo.set_generation_seed(s)
        draws.append((random.random(), float(np.random.random())))
    for j, name in enumerate(("random", "numpy")):
        mon.check(draws[0][j] != draws[1][j], "two seeds give the same random numbers", generator=name, seed=s1)
    mon.event("seed_pairs_compared")
    mon.sig(s1, s2)


def digest_batch(seed, n):
    """Digests of n runs drawn from a seed; also executed in another interpreter."""
    import hashlib
    rng = random.Random(seed)
    out = []
    for _ in range(n):
        c = draw(rng, small=True)
        algo, sp, _ = make(c)
        h = wl.history(algo, sp)
        out.append(hashlib.blake2b(repr(h).encode(), digest_size=12).hexdigest())
    return out


def hashseed(rng, mon):
    n = 12
    s = rng.getrandbits(40)
    want = digest_batch(s, n)
    hs = str(rng.choice([1, 7, rng.randrange(2, 4000000000)]))
    env = dict(os.environ, PYTHONHASHSEED=hs)
    code = ("import logging; from vk import core; core.bootstrap(); logging.disable(logging.CRITICAL); "
            f"from vk.checks import c06; print('DIGEST', ' '.join(c06.digest_batch({s}, {n})))")
    p = subprocess.run([sys.executable, "-c", code], cwd=HERE, env=env, capture_output=True, text=True)
    line = [l for l in p.stdout.splitlines() if l.startswith("DIGEST ")]
    if p.returncode and REPO + "/eckity" in p.stderr:
        mon.fail("valid runs raised in another interpreter", stderr=p.stderr[-1500:], hashseed=hs)
    if p.returncode or not line:
        raise Harness("subprocess failed: " + p.stderr[-800:])
    got = line[0].split()[1:]
    bad = [k for k in range(n) if got[k] != want[k]]
    if bad:
        r2 = random.Random(s)
        cs = [draw(r2, small=True) for _ in range(bad[0] + 1)]
        mon.fail("a run differs in another interpreter (hash seed)", hashseed=hs, cfg=cs[-1], differing=bad)
    mon.event("cross_interpreter_histories", n)
    mon.sig(s, hs)
    mon.show(hash_seed=hs, runs=n)


SCENARIOS = [
    Scenario(replays, 700, 12000, needs=("histories_compared", "intervening_runs")),
    Scenario(unseeded, 160, 2400, needs=("reported_seeds_replayed",)),
    Scenario(seeding, 240, 4000, needs=("seeds_observed", "random_draws_observed")),
    Scenario(generation_seeds, 160, 2400, needs=("generation_seeds_observed",)),
    Scenario(different_seeds, 60, 600, needs=("seed_pairs_compared",)),
    Scenario(hashseed, 32, 500, needs=("cross_interpreter_histories",)),
]
