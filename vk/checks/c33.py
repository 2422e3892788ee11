"""C33: only the order (and ratios) of fitness matter: direction and unit do not."""
import math
from fractions import Fraction

from eckity.termination_checkers import ThresholdFromTargetTerminationChecker
from eckity.termination_checkers.best_fitness_stagnation_termination_checker import \
    BestFitnessStagnationTerminationChecker

from vk import mo, wl
from vk.core import Scenario

PROPERTY = "C33"
LEVEL = "exploration"
RULE = ("A case draws a configuration and runs it twice with one seed: as it is, and rewritten - the scores negated and the "
        "direction reversed, the scores (with bloat weights, targets and thresholds) in units 2^k times smaller, or mapped "
        "by a strictly increasing exact function; multi-objective runs with another unit for every objective. Genomes, "
        "histories, reported individuals, generations run, averages, ranks and crowding of both runs are compared in every "
        "generation. Non-trivial: at least one generation of two runs compared; distinct by configuration and rewriting.")
ASSUMPTIONS = ["rewritings are exact in floating point (signs, powers of two, rational cubes), so that nothing rounds differently",
               "tournament selection only: fitness-proportionate selection depends on the values by definition"]


class Mapped(wl.PureEval):
    def __init__(self, land, f):
        super().__init__(land)
        self.f = f

    def evaluate_individual(self, individual):
        return self.f(super().evaluate_individual(individual))


def cube(x):
    if isinstance(x, float) and not math.isfinite(x):
        return x
    return Fraction(x) ** 3


def rewriting(rng, c):
    """(description, map of scores, reversed?, factor of the unit or None)"""
    k = rng.choice([0, 1, 3, 10] if c["land"] in ("tiny", "int", "bigint", "frac") else [-60, -20, -1, 0, 1, 3, 10, 50])
    u = 2 ** k if k >= 0 else 2.0 ** k
    if c["land"] == "huge":
        u = 1
    kind = rng.choice(["mirror", "mirror", "unit", "mirror unit", "cube", "mirror cube"])
    if "cube" in kind and (c["bloat"] or c["land"] in ("huge", "tiny")):
        kind = kind.replace("cube", "unit")
    s = -1 if "mirror" in kind else 1
    if "cube" in kind:
        return kind, (lambda x: s * cube(x)), s < 0, None
    if "unit" in kind:
        return f"{kind} {u}", (lambda x: x * u * s), s < 0, u
    return kind, (lambda x: -x), True, 1


def ident(x):
    return x


def checkers(spec, f, hib, u):
    out = []
    for kind, *a in spec:
        if kind == "stag":
            out.append(BestFitnessStagnationTerminationChecker(a[0]))
        else:
            out.append(ThresholdFromTargetTerminationChecker(optimal=f(a[0]), threshold=a[1] * u, higher_is_better=hib))
    if not out:
        return None
    return out if len(out) > 1 else out[0]


def one(c, f, rev, u, spec, bloat, mon):
    c = dict(c)
    c["hib"] = c["hib"] != rev
    c["bloat"] = bloat
    algo, sp, _ = wl.build(c, evaluator=Mapped(c["land"], f), termination_checker=checkers(spec, f, c["hib"], u))
    out = []

    def rec(s, d):
        inds = sp.individuals
        at = lambda x: next((i for i, y in enumerate(inds) if y is x), None)
        out.append({
            "genomes": [wl.genome(i) for i in inds],
            "fitness": [i.get_pure_fitness() for i in inds],
            "best of run": (wl.genome(s.best_of_run_), s.best_of_run_.get_pure_fitness()),
            "best of generation": at(s.best_of_gen) if s.best_of_gen is not None else None,
            "worst of generation": at(s.worst_of_gen) if s.worst_of_gen is not None else None,
            "best of subpopulation": at(sp.get_best_individual()),
            "worst of subpopulation": at(sp.get_worst_individual()),
            "history": [(tuple(i.selected_by), tuple(i.applied_operators)) for i in inds],
            "better than the first": [i.better_than(inds[0]) for i in inds],
            "average": sp.get_average_fitness() if u is not None else None,
        })
    algo.register("init", rec)
    algo.register("after_generation", rec)
    algo.evolve()
    return out, algo.final_generation_, algo.generation_num, wl.genome(algo.best_of_run_)


def same(a, b):
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b or a != a and b != b


def runs(rng, mon):
    c = wl.draw_cfg(rng, lands=sorted(wl.LANDSCAPES), elit=[0.0, 0.1, 0.25, 0.5])
    if c["sel"][0] == "fp":
        c["sel"] = ("t", rng.choice([1, 2, 3, 5]))
    what, f, rev, u = rewriting(rng, c)
    spec = []
    if u is not None and rng.random() < 0.4:
        if rng.random() < 0.6:
            spec.append(("stag", rng.choice([1, 2, 3])))
        if rng.random() < 0.6 and c["land"] not in ("tiny", "frac"):
            spec.append(("thr", rng.choice([0, 1, -1, 5, 900]), rng.choice([0, 1, 2, 25])))
    a = one(c, ident, False, 1, spec, c["bloat"], mon)
    b = one(c, f, rev, u, spec, c["bloat"] * (u or 1), mon)
    mon.eq(len(b[0]), len(a[0]), "generations observed", rewriting=what, spec=spec)
    for g, (x, y) in enumerate(zip(a[0], b[0])):
        for k in x:
            want = x[k]
            if k == "fitness":
                want = [f(v) for v in want]
            elif k == "best of run":
                want = (want[0], f(want[1]))
            elif k == "average":
                want = f(want) if u is not None and c["land"] != "bigint" and math.isfinite(want) and abs(want) > 1e-290 else None
            if want is None and k == "average":
                continue
            mon.check(same(want, y[k]), f"{k} depends on the direction or the unit of the scores", generation=g, rewriting=what,
                      cfg=c, want=want, got=y[k])
        mon.event("generations_compared")
        if g and "mirror" in what:
            mon.event("mirrored_generations")
        if g and "mirror" not in what:
            mon.event("rescaled_generations")
    mon.check(a[1:] == b[1:], "the end of the run depends on the direction or the unit of the scores", rewriting=what, a=a[1:3], b=b[1:3])
    if a[1] < c["gens"]:
        mon.event("stopped_early")
    mon.sig(wl.cfg_sig(c), what)
    mon.show(rewriting=what, enc=c["enc"], generations=a[1], land=c["land"], bloat=c["bloat"])


class MOMapped(mo.MOEval):
    def __init__(self, kind, m, us):
        super().__init__(kind, m)
        self.us = us

    def evaluate_individual(self, individual):
        return [x * u for x, u in zip(super().evaluate_individual(individual), self.us)]


def mo_one(c, us):
    algo, sp = mo.build_mo(c, evaluator=MOMapped(c["kind"], c["m"], us))
    out = []

    def rec(s, d):
        inds = sp.individuals
        out.append(([wl.genome(i) for i in inds], [[x / u for x, u in zip(i.get_pure_fitness(), us)] for i in inds],
                    [(i.fitness.front_rank, i.fitness.crowding) for i in inds],
                    None if s.best_of_gen is None else [[wl.genome(i) for i in f] for f in s.best_of_gen]))
    algo.register("init", rec)
    algo.register("after_generation", rec)
    algo.evolve()
    return out, algo.final_generation_


def mo_runs(rng, mon):
    c = mo.draw_mo(rng)
    us = [2.0 ** rng.choice([-60, -40, -12, -3, 0, 1, 5, 20, 50]) for _ in range(c["m"])]
    a, b = mo_one(c, [1.0] * c["m"]), mo_one(c, us)
    mon.eq(len(b[0]), len(a[0]), "generations observed")
    for g, (x, y) in enumerate(zip(a[0], b[0])):
        for k, p, q in zip(("genomes", "objectives", "ranks and crowding", "reported fronts"), x, y):
            mon.check(same(p, q), f"{k} of a multi-objective run depend on the units of the objectives", generation=g, units=us, cfg=c)
        mon.event("generations_compared")
    mon.event("mo_generations", len(a[0]) - 1)
    mon.eq(b[1], a[1], "final generation")
    mon.sig(sorted((k, str(v)) for k, v in c.items()), us)
    mon.show(units=us, generations=a[1], kind=c["kind"])


SCENARIOS = [
    Scenario(runs, 1600, 30000, needs=("generations_compared", "mirrored_generations", "rescaled_generations", "stopped_early")),
    Scenario(mo_runs, 400, 8000, needs=("mo_generations",)),
]
