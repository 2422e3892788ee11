"""C22: non-dominated sorting."""
import math

from eckity.creators.ga_creators.simple_vector_creator import GAVectorCreator
from eckity.genetic_encodings.ga import IntVector
from eckity.multi_objective_evolution import NSGA2FrontSorting
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness
from eckity.population import Population
from eckity.subpopulation import Subpopulation

from vk import mo, wl
from vk.core import Scenario

PROPERTY = "C22"
LEVEL = "exploration"
RULE = ("A case draws 1-5 (now and then up to 12) objectives with a common direction or one per objective, 1-60 individuals whose objective values come "
        "from pools that give ties, duplicates, one front, chains, equal objectives, huge and tiny values, one or several "
        "subpopulations and a requested size, and sorts. A brute-force model recomputes dominance for all pairs, the front of "
        "every survivor, the front-by-front filling, the crowding distances (exactly, from the definition, when no two values of "
        "an objective are equal within a front; by bounds otherwise) and the cut of the last front. Distinct by objective "
        "values, directions and size.")
ASSUMPTIONS = ["no NaN or infinite objective values",
               "with equal values in a front the choice of the extreme individual and of the neighbours is free"]




def make(objs, hib, cache=False):
    out = []
    for k, o in enumerate(objs):
        f = NSGA2Fitness(higher_is_better=list(hib) if isinstance(hib, list) else hib, cache=cache)
        f.set_fitness(list(o))
        out.append(IntVector(f, 1, (0, 10 ** 6), vector=[k]))
    return out


def draw_objs(rng, n, m):
    kind = rng.choice(["cont", "cont", "cont", "ties", "ties", "dup", "line", "chain", "const", "grid", "huge", "onefree", "bin", "narrow",
                       "offset"])
    if kind == "cont":
        return kind, [[rng.uniform(-10, 10) for _ in range(m)] for _ in range(n)]
    if kind == "ties":
        return kind, [[float(rng.randrange(4)) for _ in range(m)] for _ in range(n)]
    if kind == "dup":
        base = [[rng.uniform(-1, 1) for _ in range(m)] for _ in range(max(1, n // 3))]
        return kind, [list(rng.choice(base)) for _ in range(n)]
    if kind == "line":
        ts = rng.sample(range(10 * n), n)
        return kind, [[float(t) if j % 2 == 0 else float(-t) for j in range(m)] for t in ts]
    if kind == "chain":
        ts = rng.sample(range(10 * n), n)
        return kind, [[float(t)] * m for t in ts]
    if kind == "const":
        return kind, [[1.0] * m for _ in range(n)]
    if kind == "grid":
        return kind, [[rng.randrange(8) for _ in range(m)] for _ in range(n)]
    if kind == "narrow":       # objective ranges far below 1
        sc = 10.0 ** -rng.choice([6, 9, 12, 30, 200])
        return kind, [[rng.uniform(-1, 1) * sc for _ in range(m)] for _ in range(n)]
    if kind == "offset":       # close together, far from zero
        return kind, [[1e6 + rng.randrange(4096) / 1024 / 1024 for _ in range(m)] for _ in range(n)]
    if kind == "huge":
        return kind, [[rng.choice([1e150, -1e150, 1e-150, 0.0, 1.0]) for _ in range(m)] for _ in range(n)]
    if kind == "onefree":
        return kind, [[rng.uniform(0, 1)] + [5.0] * (m - 1) for _ in range(n)]
    return kind, [[float(rng.randrange(2)) for _ in range(m)] for _ in range(n)]


def dirs_of(hib, m):
    return list(hib) if isinstance(hib, list) else [hib] * m


def crowding_model(objs):
    """Definition; None where equal values make it ambiguous."""
    n, m = len(objs), len(objs[0])
    for j in range(m):
        if len({o[j] for o in objs}) != n:
            return None
    d = [0.0] * n
    for j in range(m):
        order = sorted(range(n), key=lambda i: objs[i][j])
        span = objs[order[-1]][j] - objs[order[0]][j]
        d[order[0]] = d[order[-1]] = math.inf
        for q in range(1, n - 1):
            d[order[q]] += (objs[order[q + 1]][j] - objs[order[q - 1]][j]) / span
    return d


def judge(mon, inds, objs, dirs, size, res, kind):
    m = len(dirs)
    pos = {id(i): k for k, i in enumerate(inds)}
    mon.eq(len(res), size, "number of survivors", n=len(inds), kind=kind)
    mon.check(all(id(r) in pos for r in res) and len({id(r) for r in res}) == len(res),
              "survivors are not distinct individuals of the source")
    fr = mo.fronts(objs, dirs)
    rank = {}
    for k, f in enumerate(fr):
        for i in f:
            rank[i] = k + 1
    got = {pos[id(r)] for r in res}
    left = size
    for k, f in enumerate(fr):
        inside = [i for i in f if i in got]
        take = min(left, len(f))
        mon.eq(len(inside), take, f"individuals taken from front {k + 1}", front=len(f), wanted=take, kind=kind)
        left -= take
        if not take:
            continue
        for i in inside:
            mon.eq(inds[i].fitness.front_rank, k + 1, "front number of a survivor", objectives=objs[i])
            mon.event("fronts_checked")
        cr = [inds[i].fitness.crowding for i in f]
        model = crowding_model([objs[i] for i in f])
        if model is not None:
            for c, w, i in zip(cr, model, f):
                mon.check(c == w or (math.isfinite(c) and math.isfinite(w) and wl.close(c, w, 1e-9)),
                          "crowding distance differs from its definition", got=c, want=w, objectives=objs[i], front=len(f))
            mon.event("crowding_exact", len(f))
        else:
            for c in cr:
                mon.check(c == math.inf or -1e-9 <= c <= m * (1 + 1e-9), "crowding distance out of its range", got=c)
            for j in range(m):
                vals = [objs[i][j] for i in f]
                for ext in (min(vals), max(vals)):
                    at = [c for c, v in zip(cr, vals) if v == ext]
                    mon.check(math.inf in at, "no individual with an extreme value has infinite crowding", objective=j, value=ext,
                              crowding=at)
            # every infinite one is an extreme of some objective
            for c, i in zip(cr, f):
                if c == math.inf:
                    ok = any(objs[i][j] in (min(objs[q][j] for q in f), max(objs[q][j] for q in f)) for j in range(m))
                    mon.check(ok, "an individual that is no extreme has infinite crowding", objectives=objs[i])
            mon.event("crowding_bounds", len(f))
        if take < len(f):
            kept = [inds[i].fitness.crowding for i in f if i in got]
            cut = [inds[i].fitness.crowding for i in f if i not in got]
            mon.check(min(kept) >= max(cut), "the last front is not cut by descending crowding distance", kept=kept, cut=cut)
            mon.event("cut_fronts")
    # survivors come front by front
    ranks = [rank[pos[id(r)]] for r in res]
    mon.check(ranks == sorted(ranks), "survivors are not filled in front by front", ranks=ranks)
    # comparison of survivors
    for a in res[:6]:
        for b in res[:6]:
            ra, rb = a.fitness.front_rank, b.fitness.front_rank
            want = ra < rb or (ra == rb and a.fitness.crowding > b.fitness.crowding)
            mon.eq(bool(a.better_than(b)), want, "better_than disagrees with front and crowding",
                   first=(ra, a.fitness.crowding), second=(rb, b.fitness.crowding))
            mon.event("comparisons")


def sorting(rng, mon):
    m = wl.rare(rng, [1, 2, 2, 2, 3, 3, 4, 5], [7, 9, 12], 0.04)
    hib = rng.choice([True, False, [rng.random() < 0.5 for _ in range(m)], [rng.random() < 0.5 for _ in range(m)]])
    dirs = dirs_of(hib, m)
    nsub = rng.choice([1, 1, 1, 2])
    sorter = NSGA2FrontSorting()
    for rep in range(rng.choice([1, 1, 2])):
        groups, subs = [], []
        size = None
        for _ in range(nsub):
            n = wl.rare(rng, [1, 2, 2, 3, 4, 5, 8, 8, 13, 20, 30], [60, 60, 60, 130, 260])
            kind, objs = draw_objs(rng, n, m)
            inds = make(objs, hib)
            if rng.random() < 0.3:
                # the individuals have been sorted before, with other objective values
                NSGA2FrontSorting().select_for_population(Population([Subpopulation(
                    evaluator=mo.MOEval("cont", m), individuals=list(inds), higher_is_better=hib, population_size=n,
                    operators_sequence=[], creators=GAVectorCreator(length=1, fitness_type=NSGA2Fitness))]), n)
                kind, objs = draw_objs(rng, n, m)
                for i, o in zip(inds, objs):
                    i.fitness.set_not_evaluated()
                    i.fitness.set_fitness(list(o))
                mon.event("sorted_again")
            groups.append((inds, objs, kind))
            subs.append(Subpopulation(evaluator=mo.MOEval("cont", m), individuals=list(inds), higher_is_better=hib,
                                      population_size=n, operators_sequence=[],
                                      creators=GAVectorCreator(length=1, fitness_type=NSGA2Fitness)))
        small = min(len(g[0]) for g in groups)
        if rng.random() < 0.4:
            size = rng.choice([1, small, rng.randint(1, small), max(1, small - 1)])
        pop = Population(subs)
        if rng.random() < 0.3:
            # some of the individuals have been sorted among themselves, with the same objective values
            for inds, _, _ in groups:
                part = [i for i in inds if rng.random() < 0.6]
                if part:
                    NSGA2FrontSorting().select_for_population(Population([Subpopulation(
                        evaluator=mo.MOEval("cont", m), individuals=part, higher_is_better=hib, population_size=len(part),
                        operators_sequence=[], creators=GAVectorCreator(length=1, fitness_type=NSGA2Fitness))]), len(part))
                    mon.event("sorted_before")
        if size is None:
            sorter.select_for_population(pop)
        else:
            sorter.select_for_population(pop, size)
        for sp, (inds, objs, kind) in zip(subs, groups):
            want = size if size is not None else len(inds) // 2
            for i, o in zip(inds, objs):
                mon.eq(list(i.get_pure_fitness()), list(o), "sorting changed an individual's objective values")
            judge(mon, inds, objs, dirs, want, sp.individuals, kind)
            mon.event("sortings")
            if len(inds) > 1:
                mon.sig(hib, want, objs)
                mon.show(objectives=m, directions=hib, individuals=len(inds), kept=want, kind=kind,
                         fronts=[len(f) for f in mo.fronts(objs, dirs)][:8])


def pairs(rng, mon):
    """Dominance of single pairs, both ways, and its order axioms on triples."""
    m = wl.rare(rng, [1, 2, 2, 3, 4], [6, 8, 11], 0.05)
    hib = rng.choice([True, False, [rng.random() < 0.5 for _ in range(m)]])
    dirs = dirs_of(hib, m)
    n = 4
    kind, objs = draw_objs(rng, n, m)
    if rng.random() < 0.5:
        # neighbours: equal except in one objective
        objs = [list(objs[0]) for _ in range(n)]
        for o in objs[1:]:
            j = rng.randrange(m)
            o[j] = rng.choice([math.nextafter(o[j], math.inf), math.nextafter(o[j], -math.inf), o[j] + 1, o[j] - 1, o[j]])
    inds = make(objs, hib)
    for a in range(n):
        for b in range(n):
            want = mo.dominates(objs[a], objs[b], dirs)
            got = inds[a].fitness.dominate(inds[a], inds[b].fitness, inds[b])
            mon.eq(bool(got), want, "dominance", first=objs[a], second=objs[b], directions=hib)
            mon.event("pairs")
    mon.sig(hib, objs)
    mon.show(objectives=objs, directions=hib)


def comparison(rng, mon):
    """better_than and equal_to for given fronts and crowdings."""
    inds = make([[1.0, 2.0]] * 4, rng.choice([True, False]))
    vals = []
    fronts = rng.choice([[1, 1, 2, 3], [1, 1, 2, 3], [9, 10, 11, 12], [99, 100, 101, 256, 257], [1, 40, 300, 1000, 1001]])
    gaps = rng.choice([[0.0, 0.5, 0.5, 1.25, math.inf], [0.0, 1e-12, 1e-9, 2e-9], [1e9, 1e9 + 1e-3, 1e300, math.inf]])
    for i in inds:
        r, c = rng.choice(fronts), rng.choice(gaps)
        i.fitness.front_rank, i.fitness.crowding = r, c
        vals.append((r, c))
    for a in range(4):
        for b in range(4):
            (ra, ca), (rb, cb) = vals[a], vals[b]
            mon.eq(bool(inds[a].better_than(inds[b])), ra < rb or (ra == rb and ca > cb), "better_than", first=vals[a],
                   second=vals[b])
            mon.eq(bool(inds[a].fitness.equal_to(inds[a], inds[b].fitness, inds[b])), (ra, ca) == (rb, cb), "equal_to",
                   first=vals[a], second=vals[b])
            mon.event("comparisons")
    mon.sig(vals)
    mon.show(front_and_crowding=vals)


SCENARIOS = [
    Scenario(sorting, 4000, 80000, needs=("sortings", "sorted_again", "sorted_before", "cut_fronts", "crowding_exact", "crowding_bounds", "comparisons")),
    Scenario(pairs, 4000, 80000, needs=("pairs",)),
    Scenario(comparison, 400, 4000, needs=("comparisons",)),
]
