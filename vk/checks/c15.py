"""C15: tree creators."""
import copy

from eckity.creators import FullCreator, GrowCreator, HalfCreator
from eckity.fitness import GPFitness
from eckity.genetic_encodings.gp import FunctionNode

from vk import wl
from vk.core import Scenario

PROPERTY = "C15"
LEVEL = "exploration"
RULE = ("A case draws a typed or untyped configuration, a depth range (0 to 5), a size, a direction and a bloat weight and "
        "creates populations, twice with the same creator. An independent parser measures the depth of every leaf; "
        "half-and-half populations are judged by exact counts when the grow part never prunes or always prunes, and by "
        "cumulative counts otherwise; direction and bloat weight are observed by setting and comparing fitness. Statistical "
        "cases pool thousands of nodes for the pruning probability and the reach of functions, terminals and constants. "
        "Non-trivial: a population with a function node; distinct by configuration and trees.")
ASSUMPTIONS = ["statistical limits at 6.5 standard deviations and 6 counts",
               "typed configurations are closed (each type has functions and terminals)"]


def kw_of(sets, depth, bloat):
    return dict(init_depth=depth, function_set=list(sets["funcs"]), terminal_set=copy.copy(sets["terms"]),
                erc_range=sets["erc"], root_type=sets["root"], bloat_weight=bloat)


def depth_range(rng, sets):
    if max(wl.n_args(f) for f in sets["funcs"]) == 1 and rng.random() < 0.5:
        a = rng.choice([0, 2, 5, 9])
        return a, a + rng.choice([0, 1, 4, 9])
    top = 3 if max(wl.n_args(f) for f in sets["funcs"]) >= 4 else 4 if max(wl.n_args(f) for f in sets["funcs"]) >= 3 else 5
    a = rng.choice([0, 0, 1, 1, 2, 2, 3])
    b = min(top, a + rng.choice([0, 0, 1, 1, 2, 3]))
    return min(a, b), b


def carried(rng, mon, ind, hib, bloat, sets):
    """Direction and bloat weight, observed through fitness."""
    try:
        ind.get_pure_fitness()
    except Exception:
        pass
    else:
        mon.fail("a created individual already has a fitness")
    v = rng.choice([0.0, -3.5, 12.25])
    ind.fitness.set_fitness(v)
    n = len(ind.tree)
    want = v - bloat * n if hib else v + bloat * n
    mon.check(wl.close(ind.get_augmented_fitness(), want), "created individual carries a wrong bloat weight or direction",
              got=ind.get_augmented_fitness(), want=want, bloat=bloat, hib=hib, size=n)
    mon.eq(ind.get_pure_fitness(), v, "pure fitness")
    other = wl.make_tree(sets, list(ind.tree), bloat=bloat, hib=hib)
    other.fitness = GPFitness(fitness=v + 1, bloat_weight=bloat, higher_is_better=hib)
    mon.eq(other.better_than(ind), hib, "comparison direction of a created individual (other first)")
    mon.eq(ind.better_than(other), not hib, "comparison direction of a created individual")
    mon.check(ind.fitness.higher_is_better == hib, "created individual carries a wrong direction")
    mon.event("fitness_configurations_checked")


def leaves(mon, ind, what):
    try:
        root = wl.parse(ind.tree)
    except ValueError as e:
        mon.fail(f"{what}: not a complete expression: {e}")
    return [l.depth for l in root.leaves()]


def individuals(mon, pop, n, sets, what):
    mon.eq(len(pop), n, f"{what}: number of created individuals")
    mon.check(len({id(i) for i in pop}) == n and len({i.id for i in pop}) == n, f"{what}: individuals are not distinct")
    mon.check(len({id(i.tree) for i in pop}) == n and len({id(i.fitness) for i in pop}) == n,
              f"{what}: individuals share state")
    for i in pop:
        mon.eq(i.erc_range, sets["erc"], f"{what}: constant range of the individual")
        mon.check(i.root_type is sets["root"], f"{what}: root type of the individual")
        mon.eq(list(i.function_set), list(sets["funcs"]), f"{what}: function set of the individual")
        mon.eq(set(i.terminal_set), set(sets["terms"]), f"{what}: terminal set of the individual")


def constants(mon, ind, sets):
    for x in ind.tree:
        if not isinstance(x, FunctionNode) and not isinstance(x.value, str):
            ok = any(wl.same_const(k, x.value) for k in sets["terms"] if not isinstance(k, str))
            mon.check(ok or wl.is_erc_value(x.value, sets), "constant is not declared nor within the range and of its type",
                      value=x.value, erc=sets["erc"])
            mon.event("constants_checked")


def simple(rng, mon):
    sets = wl.gp_sets(rng)
    a, b = depth_range(rng, sets)
    bloat = rng.choice([0.0, 0.25, 1.0, 100.0, -0.5])
    hib = rng.random() < 0.5
    full = rng.random() < 0.5
    kw = kw_of(sets, (a, b), bloat)
    pr = None
    if not full:
        pr = rng.choice([0.0, 0.1, 0.5, 0.5, 0.9, 1.0])
        kw["p_prune"] = pr
    cr = (FullCreator if full else GrowCreator)(**kw)
    for rep in range(2):
        n = wl.rare(rng, [1, 1, 2, 5, 9], [33, 65, 130])
        pop = cr.create_individuals(n, hib)
        individuals(mon, pop, n, sets, "full" if full else "grow")
        for ind in pop:
            ds = leaves(mon, ind, "full" if full else "grow")
            if full:
                mon.check(set(ds) == {b}, "a leaf of a full tree is not at the maximal depth", leaves=sorted(set(ds)), b=b, a=a)
            else:
                mon.check(a <= min(ds) and max(ds) <= b, "a leaf of a grown tree is outside the depth range",
                          leaves=sorted(set(ds)), a=a, b=b)
                if pr == 0.0:
                    mon.check(set(ds) == {b}, "a grown tree was pruned with probability 0", leaves=ds, b=b)
                if pr == 1.0:
                    mon.check(set(ds) == {a}, "a grown tree was not pruned with probability 1", leaves=ds, a=a)
            mon.eq(ind.depth(), max(ds), "reported depth")
            constants(mon, ind, sets)
            carried(rng, mon, ind, hib, bloat, sets)
            mon.event("full_trees" if full else "grown_trees")
            if len(ind.tree) > 1:
                mon.sig(full, a, b, wl.genome(ind))
                mon.show(kind="full" if full else "grow", a=a, b=b, leaves=sorted(ds)[:10], size=len(ind.tree))
        hib = not hib


def half(rng, mon):
    sets = wl.gp_sets(rng)
    a, b = depth_range(rng, sets)
    b = min(b, a + rng.choice([3, 3, 5, 9]))
    groups = b - a + 1
    bloat = rng.choice([0.0, 0.25, 7.0])
    hib = rng.random() < 0.5
    kw = kw_of(sets, (a, b), bloat)
    pr = rng.choice([None, None, 0.0, 1.0, 0.3])
    if pr is None:
        cr = HalfCreator(**kw)
    else:
        cr = HalfCreator(grow_creator=GrowCreator(**kw_of(sets, (a, b), bloat), p_prune=pr),
                         full_creator=FullCreator(**kw_of(sets, (a, b), bloat)), **kw)
    for rep in range(2):
        g = rng.choice([1, 1, 2, 3])
        n = 2 * groups * g + rng.choice([0, 0, 1, 2 * groups - 1, rng.randrange(2 * groups)])
        pop = cr.create_individuals(n, hib)
        individuals(mon, pop, n, sets, "half")
        rest = n - 2 * groups * g
        alls, maxs = {}, {}
        for ind in pop:
            ds = leaves(mon, ind, "half")
            mon.check(a <= min(ds) and max(ds) <= b, "half-and-half: leaf outside the depth range", leaves=ds, a=a, b=b)
            if len(set(ds)) == 1:
                alls[ds[0]] = alls.get(ds[0], 0) + 1
            maxs[max(ds)] = maxs.get(max(ds), 0) + 1
            constants(mon, ind, sets)
            carried(rng, mon, ind, hib, bloat, sets)
        cum = 0
        for d in range(a, b + 1):
            low = g + (rest if d == b else 0)
            mon.check(alls.get(d, 0) >= low, "half-and-half: too few full trees of a depth", depth=d, got=alls.get(d, 0),
                      want_at_least=low, n=n, a=a, b=b)
            cum += maxs.get(d, 0)
            need = 2 * g * (d - a + 1) + (rest if d == b else 0)
            mon.check(cum >= need, "half-and-half: too few trees up to a depth", depth=d, got=cum, want_at_least=need, n=n)
            if pr == 0.0:
                mon.eq(alls.get(d, 0), 2 * g + (rest if d == b else 0), "half-and-half without pruning: full trees per depth",
                       depth=d, n=n, a=a, b=b)
            if pr == 1.0:
                w = g + (rest if d == b else 0) + (groups * g if d == a else 0)
                mon.eq(alls.get(d, 0), w, "half-and-half with certain pruning: trees per depth", depth=d, n=n, a=a, b=b)
        mon.event("half_populations")
        mon.sig(a, b, n, pr, tuple(sorted(maxs.items())), hib, bloat)
        mon.show(a=a, b=b, n=n, pruning=pr, max_depths=sorted(maxs.items()), full=sorted(alls.items()))
        hib = not hib


def half_big(rng, mon):
    """Large half-and-half populations: exact counts per depth."""
    f = rng.choice([wl.h_neg, wl.uf.f_add])
    sets = {"typed": False, "funcs": [f], "terms": ["x"], "erc": None, "root": None, "vars": {"x": None}}
    a = rng.choice([0, 1])
    b = a + rng.choice([0, 1, 1, 2])
    groups = b - a + 1
    g = rng.choice([70, 129, 300])
    n = 2 * groups * g + rng.choice([0, rng.randrange(2 * groups)])
    pr = rng.choice([0.0, 1.0])
    cr = HalfCreator(grow_creator=GrowCreator(**kw_of(sets, (a, b), 0.0), p_prune=pr),
                     full_creator=FullCreator(**kw_of(sets, (a, b), 0.0)), **kw_of(sets, (a, b), 0.0))
    pop = cr.create_individuals(n, True)
    individuals(mon, pop, n, sets, "half")
    alls = {}
    for ind in pop:
        ds = set(leaves(mon, ind, "half"))
        mon.check(len(ds) == 1, "half-and-half with certain or no pruning: uneven leaves", leaves=sorted(ds), a=a, b=b)
        d = ds.pop()
        alls[d] = alls.get(d, 0) + 1
    rest = n - 2 * groups * g
    for d in range(a, b + 1):
        want = (2 * g if pr == 0.0 else g + (groups * g if d == a else 0)) + (rest if d == b else 0)
        mon.eq(alls.get(d, 0), want, "large half-and-half population: trees per depth", depth=d, n=n, a=a, b=b, pruning=pr)
    mon.event("large_half_populations")
    mon.sig("big", a, b, n, pr, f.__name__)
    mon.show(a=a, b=b, n=n, pruning=pr, depths=sorted(alls.items()))


def half_law(rng, mon):
    """The grown half really is grown: with pruning probability p, the chance of a leaf as early as possible."""
    f = rng.choice([wl.h_neg, wl.uf.f_add, wl.h_three])
    a = rng.choice([0, 1, 2])
    b = a + rng.choice([1, 2])
    groups = b - a + 1
    k = wl.n_args(f)
    p = 0.5
    g = 60
    n = 2 * groups * g
    sets = {"typed": False, "funcs": [f], "terms": ["x"], "erc": None, "root": None, "vars": {"x": None}}
    cr = HalfCreator(**kw_of(sets, (a, b), 0.0))
    T = 6
    cnt = 0
    for _ in range(T):
        for ind in cr.create_individuals(n, True):
            ds = leaves(mon, ind, "half")
            cnt += set(ds) == {a}
    # depth group a: both halves always; other groups: the grown half with p^(number of nodes at depth a)
    q = p ** (k ** a)
    free = T * g * (groups - 1)
    mon.check(wl.stat_ok(cnt - 2 * g * T, free, q), "half-and-half: share of grown trees is off", minimal_trees=cnt,
              certain=2 * g * T, of=free, probability=q, a=a, b=b)
    mon.event("law_comparisons")
    mon.sig(a, b, f.__name__)
    mon.show(a=a, b=b, function=f.__name__, minimal_trees=cnt, expected=2 * g * T + free * q)


def pruning(rng, mon):
    sets = wl.untyped_sets(rng, n_funcs=rng.choice([1, 2, 4]))
    a = rng.choice([0, 1, 2])
    b = a + rng.choice([1, 2, 3])
    p = rng.choice([0.05, 0.25, 0.5, 0.5, 0.8])
    if (1 - p) * max(wl.n_args(f) for f in sets["funcs"]) <= 1.05 and rng.random() < 0.7:
        b = a + rng.choice([4, 6, 9, 14])        # the expected size stays small however deep the range is
    kw = kw_of(sets, (a, b), 0.0)
    if p != 0.5 or rng.random() < 0.5:
        kw["p_prune"] = p
    cr = GrowCreator(**kw)
    K, hits, seen = 3000, 0, 0
    deep = [0, 0]
    while seen < K:
        for ind in cr.create_individuals(10, True):
            for q in wl.parse(ind.tree).all():
                if a <= q.depth < b and seen < K:
                    seen += 1
                    hits += not isinstance(q.node, FunctionNode)
                    if q.depth >= a + 3:
                        deep[0] += 1
                        deep[1] += not isinstance(q.node, FunctionNode)
    if deep[0]:
        mon.check(wl.stat_ok(deep[1], deep[0], p), "share of leaves deep between the depths is not the pruning probability",
                  leaves=deep[1], nodes=deep[0], p=p, a=a, b=b)
        mon.event("deep_nodes", deep[0])
    mon.check(wl.stat_ok(hits, K, p), "share of leaves between the depths is not the pruning probability", leaves=hits, nodes=K,
              p=p, a=a, b=b)
    mon.event("law_comparisons")
    mon.sig(a, b, p, len(sets["funcs"]))
    mon.show(a=a, b=b, p=p, leaves=hits, nodes=K)


def reach(rng, mon):
    """Every function and terminal of the sets, and the whole constant range, can occur."""
    sets = wl.gp_sets(rng)
    if rng.random() < 0.6:
        if not sets["typed"]:
            sets["erc"] = rng.choice([(0, 1), (-2, 2), (3, 3), (-1.0, 1.0), (0.0, 5.0), (-4, -2), (0.0, 1e-5), (-1e-9, 1e-9),
                                      (5.0, 5.00001), (-1e12, 1e12), (0, 40), (-60, 60), (1000, 1130)])
        elif int in sets["vars"].values():
            sets["erc"] = rng.choice([(0, 1), (-2, 2), (3, 3), (-33, 33), (-70, -1)])
        elif float in sets["vars"].values():
            sets["erc"] = rng.choice([(-1.0, 1.0), (0.0, 5.0), (1e-7, 3e-7)])
    full = rng.random() < 0.5
    cls = FullCreator if full else GrowCreator
    types = {wl.hints(f)[1] for f in sets["funcs"]} if sets["typed"] else {None}
    erc_t = None if sets["erc"] is None else type(sets["erc"][0])
    for t in types:
        fs = [f for f in sets["funcs"] if not sets["typed"] or wl.hints(f)[1] is t]
        ts = [k for k in sets["terms"] if not sets["typed"] or sets["terms"][k] is t]
        erc_here = sets["erc"] is not None and (not sets["typed"] or erc_t is t)
        s2 = {**sets, "root": t}
        # depth 1: the root is one of the functions; depth 0: one of the terminals
        roots, terms, ercs = set(), set(), []
        N = 60 * max(len(fs), len(ts) + 1)
        for ind in cls(**kw_of(s2, (1, 1), 0.0)).create_individuals(N, True):
            roots.add(ind.tree[0].function)
        mon.eq(roots, set(fs), "functions that occur at the root")
        n_erc = 0
        span = 0 if not erc_here else (sets["erc"][1] - sets["erc"][0] + 1 if erc_t is int else 2)
        N2 = (60 if span < 50 else 35) * (len(ts) + 1) * max(1, span)
        for ind in cls(**kw_of(s2, (0, 0), 0.0)).create_individuals(N2, True):
            v = ind.tree[0].value
            if isinstance(v, str) or any(wl.same_const(k, v) for k in ts if not isinstance(k, str)):
                terms.add((type(v).__name__, v))
            else:
                n_erc += 1
            if not isinstance(v, str):
                ercs.append(v)
        mon.eq(terms, {(type(k).__name__, k) for k in ts}, "terminals that occur")
        if erc_here:
            lo, hi = sets["erc"]
            if erc_t is int:
                want = set(range(lo, hi + 1))
                mon.check(want <= {v for v in ercs if type(v) is int}, "integers of the constant range that never occur",
                          want=want, got=set(ercs))
            else:
                got = [v for v in ercs if type(v) is float]
                mon.check(min(got) <= lo + (hi - lo) / 4 and max(got) >= hi - (hi - lo) / 4,
                          "random constants do not cover their range", erc=sets["erc"], lowest=min(got), highest=max(got))
                free = [v for v in got if not any(wl.same_const(k, v) for k in ts if not isinstance(k, str))]
                mon.check(lo == hi or len(set(free)) >= 0.9 * len(free), "random constants repeat", erc=sets["erc"], drawn=len(free),
                          distinct=len(set(free)))
            mon.event("constant_ranges_covered")
        mon.event("types_reached")
        mon.sig(sorted(f.__name__ for f in fs), [str(k) for k in ts], sets["erc"], full)
        mon.show(functions=len(fs), terminals=len(ts), erc=sets["erc"], trees=N + N2)


SCENARIOS = [
    Scenario(simple, 2400, 40000, needs=("full_trees", "grown_trees", "constants_checked", "fitness_configurations_checked")),
    Scenario(half, 800, 12000, needs=("half_populations",)),
    Scenario(half_big, 24, 240, needs=("large_half_populations",)),
    Scenario(half_law, 24, 240, needs=("law_comparisons",)),
    Scenario(pruning, 64, 800, needs=("law_comparisons",)),
    Scenario(reach, 160, 2000, needs=("constant_ranges_covered", "types_reached")),
]
