"""C29: population queries and the choice of creators."""
import copy
import math

import numpy as np

from eckity.algorithms.simple_evolution import SimpleEvolution
from eckity.creators import GABitStringVectorCreator, GAFloatVectorCreator
from eckity.creators.creator import Creator
from eckity.fitness import SimpleFitness
from eckity.genetic_encodings.ga import BitStringVector, FloatVector
from eckity.genetic_operators import BitStringVectorFlipMutation, VectorKPointsCrossover
from eckity.population import Population
from eckity.subpopulation import Subpopulation

from vk import wl
from vk.core import Scenario

PROPERTY = "C29"
LEVEL = "exploration"
RULE = ("A case builds a population of 1-17 subpopulations with arbitrary evaluated individuals (both directions, programs with "
        "bloat weights, ties, signed zeros, infinities) and compares every query, in random order and repeatedly, with a direct "
        "computation; or creates subpopulations with 1-5 recording creators and arbitrary probabilities, once, again, with "
        "given individuals and inside a run; over many creations the chosen creators are compared with the configured "
        "probabilities. Non-trivial: a query or a creation was compared; distinct by population or configuration.")
ASSUMPTIONS = ["among individuals that tie for best or worst any one may be returned",
               "frequencies are judged with a 6.5-sigma band"]


def member(rng, gp, sets, hib, land, bw):
    if gp:
        ind = wl.make_tree(sets, wl.random_nodes(rng, sets, None, rng.choice([0, 1, 2, 3])), bw, hib)
    else:
        ind = FloatVector(fitness=SimpleFitness(higher_is_better=hib), length=2, bounds=(0.0, 1.0),
                          vector=[rng.choice([0.0, 0.5]), rng.choice([0.0, 0.5])])
    ind.fitness.set_fitness(wl.LANDSCAPES[land]((rng.random(),)))
    return ind


def aug(ind, bw, hib):
    s = ind.get_pure_fitness()
    if not bw:
        return s
    n = len(ind.tree)
    return s - bw * n if hib else s + bw * n


def queries(rng, mon):
    subs, info = [], []
    for _ in range(wl.rare(rng, [1, 1, 2, 3, 4], [5, 6, 9, 17], 0.08)):
        hib = rng.random() < 0.5
        gp = rng.random() < 0.5
        bw = rng.choice([0.0, 0.5, 1.0, 100.0]) if gp else 0.0
        land = rng.choice(["hash", "hash", "ties", "const", "neg", "nonneg", "int", "np", "close", "zeros", "inf", "huge", "tiny", "sum"])
        if land == "sum":
            land = "hash"
        if bw and land in ("huge", "tiny", "close"):
            land = "hash"
        sets = wl.untyped_sets(rng)
        inds = [member(rng, gp, sets, hib, land, bw) for _ in range(wl.rare(rng, [1, 2, 2, 3, 5, 8, 30], [70, 130, 300, 1100]))]
        if rng.random() < 0.3:
            for x in inds:
                x.gen = rng.choice([0, 1, 2, 40])
        order = rng.random()
        if order < 0.15:
            inds.sort(key=lambda i: i.get_pure_fitness())
        elif order < 0.3:
            inds.sort(key=lambda i: i.get_pure_fitness(), reverse=True)
        sp = Subpopulation(evaluator=None, creators=GAFloatVectorCreator(length=2), operators_sequence=[VectorKPointsCrossover()],
                           population_size=rng.choice([len(inds), len(inds), 200]), individuals=list(inds), higher_is_better=hib)
        subs.append(sp)
        info.append((inds, hib, bw))
    pop = Population(subs)
    outside = [member(rng, i[0][0].__class__ is not FloatVector, wl.untyped_sets(rng), i[1], "hash", 0.0) for i in info]
    outside += [inds[0].clone() for inds, _, _ in info]          # equal content, another individual
    outside += [copy.deepcopy(rng.choice(inds)) for inds, _, _ in info]  # the same, with the member's id

    def judge(i, ind, want_best, what):
        inds, hib, bw = info[i]
        mon.check(any(ind is x for x in inds), f"{what}: not a member of the subpopulation")
        a = [aug(x, bw, hib) for x in inds]
        t = (max(a) if hib else min(a)) if want_best else (min(a) if hib else max(a))
        mon.check(wl.close(aug(ind, bw, hib), t, 1e-13, 0), f"{what}: not the extreme of its subpopulation", got=aug(ind, bw, hib), want=t,
                  higher_is_better=hib, bloat=bw, all=sorted(a)[:6])

    def judge_mean(i, got, what):
        inds = info[i][0]
        v = [float(x.get_pure_fitness()) for x in inds]
        with np.errstate(all="ignore"):
            if not all(math.isfinite(x) for x in v) or math.isinf(sum(abs(x) for x in v)):
                mon.event("means_not_judged")
                return
            m = math.fsum(v) / len(v)
            mon.check(wl.close(float(got), m, 1e-9, 1e-12 * max(abs(x) for x in v)), f"{what}: not the arithmetic mean", got=got, want=m)

    asker = SimpleEvolution(pop, executor="thread", max_workers=1)
    for _ in range(rng.choice([3, 6])):
        q = rng.choice(["best", "worst", "avg", "bests", "worsts", "avgs", "contains", "find", "find_out"])
        i = rng.randrange(len(subs))
        with np.errstate(all="ignore"):
            if q == "best":
                judge(i, subs[i].get_best_individual(), True, "best individual")
            elif q == "worst":
                judge(i, subs[i].get_worst_individual(), False, "worst individual")
            elif q == "avg":
                judge_mean(i, subs[i].get_average_fitness(), "average fitness")
            elif q in ("bests", "worsts"):
                r = pop.get_best_individuals() if q == "bests" else pop.get_worst_individuals()
                mon.eq(len(r), len(subs), "number of per-subpopulation results")
                for j, x in enumerate(r):
                    judge(j, x, q == "bests", f"{q} of subpopulation {j}")
            elif q == "avgs":
                r = asker.get_average_fitness() if rng.random() < 0.3 else pop.get_average_fitness()
                mon.eq(len(r), len(subs), "number of per-subpopulation averages")
                for j, x in enumerate(r):
                    judge_mean(j, x, f"average of subpopulation {j}")
            elif q == "contains":
                x = rng.choice(info[i][0])
                mon.check(bool(subs[i].contains_individual(x)), "a member is not contained")
                for o in outside + [y for j, (inds, _, _) in enumerate(info) if j != i for y in inds[:2]]:
                    mon.check(not subs[i].contains_individual(o), "a non-member is contained", equal_content=wl.genome(o) == wl.genome(x))
            elif q == "find":
                x = rng.choice(info[i][0])
                mon.check(pop.find_individual_subpopulation(x) is subs[i], "found in the wrong subpopulation")
            else:
                o = rng.choice(outside)
                try:
                    r = pop.find_individual_subpopulation(o)
                except Exception:
                    mon.event("not_found_raised")
                else:
                    mon.fail("finding an individual of no subpopulation did not raise", got=r)
        mon.event("queries")
        for sp, (inds, _, _) in zip(subs, info):
            mon.check(len(sp.individuals) == len(inds) and all(a is b for a, b in zip(sp.individuals, inds)), "a query changed the population", query=q)
    mon.sig([[(wl.genome(i), wl.fit_key(i)) for i in inds] for inds, _, _ in info])
    mon.show(subpopulations=[(len(i[0]), i[1], i[2]) for i in info])


class Rec(Creator):
    def __init__(self, key, log):
        super().__init__()
        self.key = key
        self.log_ = log

    def create_individuals(self, n_individuals, higher_is_better):
        out = [BitStringVector(fitness=SimpleFitness(higher_is_better=higher_is_better), length=2, bounds=(0, 1), vector=[self.key % 2, 1])
               for _ in range(n_individuals)]
        self.log_.append((self.key, n_individuals, higher_is_better, out))
        self.created_individuals = out
        return out


def draw_pcr(rng, n):
    k = rng.choice(["none", "even", "point", "random", "random", "skew"])
    if k == "none":
        return None, [1 / n] * n
    if k == "even":
        p = [1 / n] * n
    elif k == "point":
        p = [0.0] * n
        p[rng.randrange(n)] = 1.0
    elif k == "skew" and n > 1:
        p = [0.01] * n
        p[rng.randrange(n)] = 1 - 0.01 * (n - 1)
    else:
        w = [rng.random() + 1e-6 for _ in range(n)]
        if n > 1 and rng.random() < 0.3:
            w[rng.randrange(n)] = 0.0
        p = [x / sum(w) for x in w]
    return p, p


def creation(rng, mon):
    n = rng.choice([1, 2, 2, 3, 5])
    reps = rng.choice([20, 60])
    pcr, p = draw_pcr(rng, n)
    size, hib = rng.choice([1, 2, 5, 12]), rng.random() < 0.5
    counts = [0] * n
    whole = rng.random() < 0.4
    single = n == 1 and rng.random() < 0.5
    nsub = rng.choice([1, 2, 3]) if whole else 1
    for _ in range(reps):
        log = []
        mk = lambda: Subpopulation(creators=Rec(0, log) if single else [Rec(i, log) for i in range(n)], pcr=None if pcr is None else list(pcr),
                                   population_size=size, evaluator=None, higher_is_better=hib, operators_sequence=[BitStringVectorFlipMutation()])
        subs = [mk() for _ in range(nsub)]
        obj = Population(subs)
        mon.check(log == [], "individuals were created on construction")
        if whole:
            obj.create_population_individuals()
        else:
            subs[0].create_subpopulation_individuals()
        mon.eq(len(log), nsub, "a subpopulation must be created by exactly one creator", calls=[l[0] for l in log])
        for sp, (key, k, h, out) in zip(subs, log):
            mon.eq((k, h), (size, hib), "creator asked for another size or direction")
            mon.check(len(sp.individuals) == size and all(a is b for a, b in zip(sp.individuals, out)), "the individuals are not those the creator made")
            mon.check(p[key] > 0, "a creator with probability 0 was used", pcr=p, used=key)
            counts[key] += 1
        # a second creation keeps the individuals
        if whole:
            obj.create_population_individuals()
        else:
            subs[0].create_subpopulation_individuals()
        mon.eq(len(log), nsub, "existing individuals were created again")
        for sp, (_, _, _, out) in zip(subs, log):
            mon.check(all(a is b for a, b in zip(sp.individuals, out)) and len(sp.individuals) == size, "existing individuals were replaced")
        mon.event("creations", nsub)
    tot = sum(counts)
    for i in range(n):
        mon.check(wl.stat_ok(counts[i], tot, min(1.0, p[i])), "creators are not chosen with their probabilities", counts=counts, pcr=p)
    mon.sig(n, p, size, hib, whole, nsub)
    mon.show(creators=n, pcr=[round(x, 3) for x in p], chosen=counts)


def many(rng, mon):
    """Frequencies over many creations."""
    n = rng.choice([2, 2, 3, 4])
    pcr, p = draw_pcr(rng, n)
    log = []
    crs = [Rec(i, log) for i in range(n)]
    N = 3000
    for _ in range(N):
        Subpopulation(creators=crs, pcr=pcr, population_size=1, evaluator=None, operators_sequence=[]).create_subpopulation_individuals()
    cnt = [sum(1 for l in log if l[0] == i) for i in range(n)]
    for i in range(n):
        mon.check(wl.stat_ok(cnt[i], N, min(1.0, p[i])), "creators are not chosen with their probabilities", counts=cnt, pcr=p)
    mon.event("creations", N)
    mon.sig(p)
    mon.show(pcr=[round(x, 3) for x in p], chosen=cnt)


def given(rng, mon):
    """Given individuals are used as they are; in a run creation happens exactly once."""
    c = wl.draw_cfg(rng, pops=[2, 4, 6], max_gen=rng.choice([0, 1, 3]), encs=("bit", "int", "float", "gp", "gpt"), warm=0)
    algo, sp, sets = wl.build(c)
    cr = sp.creators[0]
    calls = []
    orig = cr.create_individuals
    cr.create_individuals = lambda n, h: (calls.append((n, h)), orig(n, h))[1]
    first = {}
    use = rng.random() < 0.5
    if use:
        mine = orig(c["pop"], c["hib"])
        sp.individuals = mine
        gs = [wl.genome(i) for i in mine]

        def at_init(s, d):
            mon.check(len(sp.individuals) == len(mine) and all(a is b for a, b in zip(sp.individuals, mine)), "given individuals were not used as they are")
            mon.eq([wl.genome(i) for i in sp.individuals], gs, "given individuals were changed before the first generation")
            mon.event("given_used")
        algo.register("init", at_init)
    algo.evolve()
    if use:
        mon.eq(calls, [], "a creator was asked although individuals were given")
    else:
        mon.eq(calls, [(c["pop"], c["hib"])], "creation in a run must happen once, with the configured size and direction")
        mon.event("created_once")
    mon.sig(use, wl.cfg_sig(c))
    mon.show(enc=c["enc"], given=use, generations=c["gens"])


def given_counts(rng, mon):
    """Given individuals are used as they are whatever their number."""
    n = rng.choice([1, 2, 3, 5, 8, 20])
    size = rng.choice([n, n - 1, n + 1, 2 * n, 1, 200])
    hib = rng.random() < 0.5
    log = []
    inds = [BitStringVector(fitness=SimpleFitness(higher_is_better=hib), length=2, bounds=(0, 1), vector=[0, 1]) for _ in range(n)]
    for i in inds:
        if rng.random() < 0.5:
            i.fitness.set_fitness(rng.random())
    mine = list(inds)
    state = [(i.id, wl.genome(i), i.fitness.is_fitness_evaluated()) for i in inds]
    how = rng.choice(["argument", "attribute"])
    kw = dict(creators=[Rec(k, log) for k in range(rng.choice([1, 2]))], population_size=max(size, 1), evaluator=None, higher_is_better=hib,
              operators_sequence=[BitStringVectorFlipMutation()])
    sp = Subpopulation(individuals=mine, **kw) if how == "argument" else Subpopulation(**kw)
    if how == "attribute":
        sp.individuals = mine
    for _ in range(rng.choice([1, 2])):
        rng.choice([sp.create_subpopulation_individuals, Population([sp]).create_population_individuals])()
        mon.check(len(sp.individuals) == n and all(a is b for a, b in zip(sp.individuals, inds)), "given individuals were not used as they are",
                  given=n, population_size=size, now=len(sp.individuals))
        mon.eq(log, [], "a creator was asked although individuals were given", given=n, population_size=size)
        mon.eq([(i.id, wl.genome(i), i.fitness.is_fitness_evaluated()) for i in inds], state, "given individuals were changed")
        mon.event("given_used")
    mon.sig(n, size, hib, how, [s[2] for s in state])
    mon.show(given=n, population_size=size, how=how)


SCENARIOS = [
    Scenario(queries, 10000, 100000, needs=("queries", "not_found_raised")),
    Scenario(creation, 800, 12000, needs=("creations",)),
    Scenario(many, 16, 240, needs=("creations",)),
    Scenario(given_counts, 400, 6000, needs=("given_used",)),
    Scenario(given, 400, 6000, needs=("given_used", "created_once")),
]
