"""C10: selection."""
import math
from math import comb

from eckity.fitness import SimpleFitness
from eckity.genetic_encodings.ga import IntVector
from eckity.genetic_operators import ElitismSelection, FitnessProportionateSelection, TournamentSelection

from vk import wl
from vk.checks.c09 import snap, config
from vk.core import Scenario

PROPERTY = "C10"
LEVEL = "exploration"
RULE = ("A case draws a population (vectors or trees, ties, bloat weights, direction), a selection method and a prefilled "
        "destination and calls select / apply_operator / act. The monitor compares source snapshots before and after, the "
        "destination's old content by identity, and every new individual with the source individual it names as its "
        "original. Distribution cases accumulate thousands of picks and compare win counts per rank with the binomial law "
        "(6.5 standard deviations and 6 counts). Non-trivial: at least one individual selected from two or more; distinct by parameters.")
ASSUMPTIONS = ["statistical limits at 6.5 standard deviations; fitness-proportionate selection is only required to be monotone",
               "selection method and individuals are configured with the same direction"]
Z = 6.5


def population(rng, n, hib, vals, gp=False, bloat=0.0):
    out = []
    if gp:
        sets = wl.untyped_sets(rng)
        for v in vals:
            t = wl.make_tree(sets, wl.random_nodes(rng, sets, depth=rng.choice([1, 2, 3])), bloat=bloat, hib=hib)
            t.fitness.set_fitness(v)
            out.append(t)
    else:
        for k, v in enumerate(vals):
            out.append(IntVector(SimpleFitness(v, higher_is_better=hib), 2, (0, 10 ** 6), vector=[k, rng.randrange(5)],
                                 update_parents=False))
    return out


def adj(ind, hib, bloat):
    v = ind.get_pure_fitness()
    if not bloat:
        return v
    n = len(ind.tree)
    return v - bloat * n if hib else v + bloat * n


def check_new(mon, src, by_id, new, name, ids):
    for c in new:
        mon.check(c.cloned_from in by_id, "selected individual is no clone of a source individual")
        o = by_id[c.cloned_from]
        mon.eq(wl.genome(c), wl.genome(o), "selected individual's genome differs from its original's")
        mon.eq(config(c), config(o), "selected individual's configuration differs from its original's")
        mon.check(c.id not in ids, "selected individual reuses an id")
        ids.add(c.id)
        mon.eq(c.selected_by, [name], "selection history of the selected individual")
        mon.eq(c.applied_operators, [], "operator history of the selected individual")
    seen = {}
    for i in src:
        seen.update(wl.state_ids(i))
    for c in new:
        for i, part in wl.state_ids(c).items():
            mon.check(i not in seen, f"selected individual shares its {part} with another individual")
        seen.update(wl.state_ids(c))
    mon.event("selected_individuals", len(new))


def contract(rng, mon):
    n = wl.rare(rng, [1, 2, 2, 3, 4, 5, 8, 13, 20], [33, 65, 130, 260], p=0.04)
    hib = rng.random() < 0.5
    gp = rng.random() < 0.4
    bloat = rng.choice([0.0, 0.5, 10.0, -1.0]) if gp else 0.0
    kind = rng.choice(["t", "tn", "fp", "el", "el"])
    if kind == "fp":
        vals = [rng.choice([0.0, 1.0, 0.5, rng.uniform(0, 5)]) for _ in range(n)]
        if rng.random() < 0.3 and sum(vals):        # scores whose sum is one, or nearly
            t = sum(vals) * rng.choice([1, 1, 1 + 1e-6, 1 - 1e-6, 1 + 1e-9, 1 - 1e-5])
            vals = [v / t for v in vals]
        if hib or bloat < 0:
            bloat = 0.0
    else:
        e = rng.choice([1e-15, 1e-12, 1e-9, 1e-7, 1e-5])
        pool = rng.choice([[0.0, 1.0], [3.0], [-1.0, 0.0, 2.5, 7.0], None, [0.0, -0.0], [math.inf, -math.inf, 0.0],
                           [1e308, -1e308, 1.0], [1.0 + k * e for k in range(9)], [k * e for k in range(-4, 5)],
                           [-3.0 + k * e for k in range(4)]])
        vals = [rng.choice(pool) if pool else rng.gauss(0, 3) for _ in range(n)]
    src = population(rng, n, hib, vals, gp, bloat)
    pre = population(rng, rng.randint(0, n), hib, [0.0] * n)[:rng.randint(0, n)]
    if rng.random() < 0.4:
        pre = []
    dest = list(pre)
    rng.shuffle(src)
    m = rng.choice([1, 2, 3, 7, n, n, max(1, n - 1)])
    sel = {"t": lambda: TournamentSelection(m, hib), "tn": lambda: TournamentSelection(min(m, n), hib, replace=False),
           "fp": lambda: FitnessProportionateSelection(hib),
           "el": lambda: ElitismSelection(rng.randint(0, n), hib)}[kind]()
    before = [snap(i) for i in src]
    pre_snap = [snap(i) for i in pre]
    order = list(src)
    given = src
    how = rng.randrange(3)
    if how == 0:
        res = sel.select(given, dest)
    elif how == 1:
        res = sel.apply_operator((given, dest))
    else:
        res = sel.act((given, dest))
    mon.check(len(given) == n and all(a is b for a, b in zip(given, order)), "the source list was changed")
    for i, b in zip(src, before):
        now = snap(i)
        mon.check(now == b, "a source individual was changed", changed=[k for k in b if b[k] != now[k]])
    mon.check(len(res) == len(dest) and all(a is b for a, b in zip(res, dest)), "the result is not the destination")
    mon.check(len(dest) >= len(pre) and all(a is b for a, b in zip(dest, pre)), "the destination's content was moved")
    for i, b in zip(pre, pre_snap):
        mon.eq(snap(i), b, "an individual of the destination was changed")
    new = dest[len(pre):]
    by_id = {i.id: i for i in src}
    if kind == "el":
        mon.eq(len(new), sel.num_elites, "number of elites added")
        got = [adj(by_id[c.cloned_from], hib, bloat) for c in new if c.cloned_from in by_id]
        want = sorted((adj(i, hib, bloat) for i in src), reverse=hib)[:sel.num_elites]
        mon.eq(got, want, "elites are not the best individuals, best first", hib=hib)
        mon.check(len({c.cloned_from for c in new}) == len(new), "an individual was selected as elite twice")
    else:
        mon.eq(len(dest), n, "size of the destination after selection", prefill=len(pre), kind=kind)
        if kind == "tn" and len(new):
            mm = min(m, n)
            worst = sorted((adj(i, hib, bloat) for i in src), reverse=hib)
            limit = worst[n - mm]
            for c in new:
                a = adj(by_id[c.cloned_from], hib, bloat)
                mon.check(not wl.better(limit, a, hib), "one of the m-1 worst won a tournament without replacement",
                          got=a, limit=limit, m=mm)
    check_new(mon, src, by_id, new, type(sel).__name__, {i.id for i in src} | {i.id for i in pre})
    if n > 1 and new:
        mon.sig(kind, n, m, len(pre), hib, gp, bloat, tuple(vals))
        mon.show(kind=kind, n=n, m=m, prefill=len(pre), scores=vals)


def tournament_law(rng, mon):
    """Win counts per fitness class against the exact law."""
    n = rng.choice([2, 3, 4, 5, 6, 8, 10])
    m = rng.choice([1, 2, 3, 4, 7, 15])
    repl = rng.random() < 0.6
    if not repl:
        m = min(m, n)
    hib = rng.random() < 0.5
    gp = rng.random() < 0.25
    bloat = rng.choice([0.0, 3.0]) if gp else 0.0
    vals = rng.choice([[float(k) for k in range(n)], [float(-k) for k in range(n)], [rng.gauss(0, 5) for _ in range(n)],
                       [float(rng.randrange(3)) for _ in range(n)], [1.0 + k * 2e-16 for k in range(n)],
                       [7.0 + k * rng.choice([1e-12, 1e-9, 1e-7]) for k in range(n)]])
    vals = list(vals)
    rng.shuffle(vals)
    src = population(rng, n, hib, vals, gp, bloat)
    rng.shuffle(src)
    sel = TournamentSelection(m, hib, replace=repl)
    T = 0
    wins = {}
    by_id = {i.id: adj(i, hib, bloat) for i in src}
    target = 2500
    # what the destination already holds (elites) does not change who can take part
    pre = rng.choice([0, 0, 1, n - 1, rng.randrange(n)])
    held = [i.clone() for i in src[:pre]]
    while T < target:
        for c in sel.select(src, list(held))[pre:]:
            a = by_id[c.cloned_from]
            wins[a] = wins.get(a, 0) + 1
            T += 1
    ranked = sorted(by_id.values(), reverse=hib)
    pos = 0
    for a in sorted(set(ranked), reverse=hib):
        k = ranked.count(a)
        # a wins iff no better individual takes part and one of its class does
        if repl:
            p = ((n - pos) / n) ** m - ((n - pos - k) / n) ** m
        else:
            p = (comb(n - pos, m) - comb(n - pos - k, m)) / comb(n, m)
        pos += k
        got = wins.get(a, 0)
        if p <= 0:
            mon.eq(got, 0, "an individual that cannot win a tournament did")
        else:
            sd = math.sqrt(T * p * (1 - p))
            mon.check(wl.stat_ok(got, T, p), "tournament winners do not follow the law", wins=got,
                      expected=round(T * p, 1), sd=round(sd, 1), n=n, m=m, replace=repl, hib=hib, rank=pos, scores=vals)
        mon.event("law_comparisons")
    mon.event("tournaments", T)
    mon.sig(n, m, repl, hib, pre, tuple(vals))
    mon.show(n=n, m=m, replace=repl, hib=hib, wins=sorted(wins.items()))


def fp_law(rng, mon):
    n = rng.choice([2, 3, 4, 6])
    hib = rng.random() < 0.5
    vals = rng.choice([[float(k) for k in range(n)], [rng.random() for _ in range(n)], [1.0 / n] * n,
                       [float(rng.randrange(3)) for _ in range(n)], [0.0] * n, [0.5] + [0.5 / (n - 1)] * (n - 1),
                       [rng.uniform(0, 20) for _ in range(n)], [100.0 + k for k in range(n)],
                       [0.0] + [rng.uniform(0, 1) for _ in range(n - 1)], [0.0] + [rng.uniform(0, 0.1) for _ in range(n - 1)],
                       [0.0, 1.0] + [rng.choice([0.0, 1.0, 0.25, 3.0]) for _ in range(n - 2)],
                       [rng.choice([1e-6, 1e-3, 0.05, 0.7, 1.0, 2.0, 50.0]) for _ in range(n)]])
    vals = list(vals)
    rng.shuffle(vals)
    src = population(rng, n, hib, vals)
    rng.shuffle(src)         # creation order and ids say nothing about the position
    vals = [i.get_pure_fitness() for i in src]
    sel = FitnessProportionateSelection(hib)
    by_id = {i.id: k for k, i in enumerate(src)}
    cnt = [0] * n
    T = 0
    pre = rng.choice([0, 0, 0, n - 1, rng.randrange(n)])
    held = [i.clone() for i in src[:pre]]
    while T < 2000:
        for c in sel.select(src, list(held))[pre:]:
            cnt[by_id[c.cloned_from]] += 1
            T += 1
    for a in range(n):
        for b in range(n):
            if vals[a] == vals[b] or wl.better(vals[a], vals[b], hib):
                mon.check(cnt[a] >= cnt[b] - Z * math.sqrt(cnt[a] + cnt[b] + 1),
                          "fitness-proportionate selection prefers a worse individual", scores=vals, counts=cnt, hib=hib)
                mon.event("fp_comparisons")
    # negative fitness is rejected, without touching the destination
    bad = list(vals)
    bad[rng.randrange(n)] = -rng.choice([1e-9, 1.0, 100.0])
    src2 = population(rng, n, hib, bad)
    dest = []
    try:
        sel.select(src2, dest)
    except Exception:
        mon.event("negative_rejections")
    else:
        mon.fail("negative fitness was accepted", scores=bad)
    mon.sig(n, hib, tuple(vals))
    mon.show(scores=vals, counts=cnt, hib=hib)


SCENARIOS = [
    Scenario(contract, 4000, 60000, needs=("selected_individuals",)),
    Scenario(tournament_law, 240, 3000, needs=("tournaments", "law_comparisons")),
    Scenario(fp_law, 320, 4000, needs=("fp_comparisons", "negative_rejections")),
]
