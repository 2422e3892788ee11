"""C09: clones."""
from eckity.fitness import GPFitness, SimpleFitness
from eckity.genetic_encodings.ga import BitStringVector, FloatVector, IntVector, Vector
from eckity.genetic_operators import (BitStringVectorFlipMutation, ERCMutation, FloatVectorGaussNPointMutation,
                                      IntVectorNPointMutation, SubtreeCrossover, SubtreeMutation,
                                      VectorKPointsCrossover)
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness

from vk import wl
from vk.core import Scenario

PROPERTY = "C09"
LEVEL = "exploration"
RULE = ("A case starts from an individual made by a creator, a constructor or an operator sequence (all encodings, bounds "
        "forms, fitness classes, caching, parents recording), and runs a random program of clone, operator, genome edit, "
        "fitness update and history steps on a growing family of clones. After every step the monitor compares the complete "
        "snapshots of all individuals that were not addressed with their snapshots before the step, and at every clone the "
        "contract of the new individual. Non-trivial: at least one clone followed by a modification; distinct by program.")
ASSUMPTIONS = ["fitness of a clone may be carried over or not (see C28); it must never be a wrong value"]


def fit_snap(f):
    d = {"cls": type(f).__name__, "hib": f.higher_is_better if not isinstance(f.higher_is_better, list)
         else tuple(f.higher_is_better), "cache": f.cache, "rel": f.is_relative_fitness,
         "bloat": getattr(f, "bloat_weight", None)}
    return d


def fit_val(f):
    if not f.is_fitness_evaluated():
        return None
    v = f.get_pure_fitness()
    return tuple(v) if isinstance(v, list) else v


def config(ind):
    d = {"cls": type(ind).__name__, "gen": ind.gen, "up": ind.update_parents, "fit": fit_snap(ind.fitness)}
    if isinstance(ind, Vector):
        b = ind.bounds
        d.update(bounds=(type(b).__name__, [tuple(x) for x in b] if isinstance(b, list) else tuple(b)), length=ind.length)
    else:
        d.update(fs=[f for f in ind.function_set], ts=dict(ind.terminal_set), erc=ind.erc_range, root=ind.root_type)
    return d


def snap(ind):
    return {"config": config(ind), "genome": wl.genome(ind), "id": ind.id, "cloned_from": ind.cloned_from,
            "sel": list(ind.selected_by), "ops": list(ind.applied_operators),
            "parents": list(ind.parents) if ind.update_parents else None,
            "fitness": fit_val(ind.fitness), "size": ind.size()}


def make_fitness(rng, gp):
    hib = rng.random() < 0.5
    cache = rng.random() < 0.4
    r = rng.random()
    if r < 0.2:
        f = NSGA2Fitness(higher_is_better=rng.choice([hib, [True, False]]), cache=cache)
        if rng.random() < 0.6:
            f.set_fitness([rng.random(), rng.random()])
        return f
    if gp or r < 0.5:
        f = GPFitness(higher_is_better=hib, cache=cache, bloat_weight=rng.choice([0.0, 0.1, 2.0]))
    else:
        f = SimpleFitness(higher_is_better=hib, cache=cache)
    if rng.random() < 0.6:
        f.set_fitness(rng.choice([0.0, -1.5, 1e300, rng.random()]))
    return f


def make_ind(rng):
    enc = rng.choice(["bit", "int", "float", "gp", "gpt"])
    up = rng.random() < 0.4
    if enc in wl.CREATORS:
        n = wl.rare(rng, [1, 2, 3, 6, 12], [65, 300, 1100], 0.02)
        b = wl.vector_bounds(rng, enc, n)
        cls = {"bit": BitStringVector, "int": IntVector, "float": FloatVector}[enc]
        if rng.random() < 0.5:
            ind = wl.CREATORS[enc](length=n, bounds=b, update_parents=up).create_individuals(1, rng.random() < 0.5)[0]
        else:
            tmp = cls(make_fitness(rng, False), n, b)
            ind = cls(make_fitness(rng, False), n, b, vector=[tmp.get_random_number_in_bounds(i) for i in range(n)],
                      update_parents=up)
        sets = None
    else:
        sets = wl.typed_sets(rng) if enc == "gpt" else wl.untyped_sets(rng)
        ind = wl.make_tree(sets, wl.random_nodes(rng, sets, sets["root"], depth=rng.choice([1, 2, 3])), update_parents=up)
        ind.fitness = make_fitness(rng, True)
    if rng.random() < 0.5:
        ind.selected_by.append("S")
        ind.applied_operators.extend(["A", "B"])
        if up:
            ind.parents.extend([3, 4])
    ind.gen = rng.randrange(5)
    return ind, enc, sets


def modify(rng, ind, enc, others):
    """One modification of `ind` (and possibly of one partner it is crossed with). Returns (what, touched)."""
    k = rng.choice(["op", "op", "edit", "edit", "fit", "hist", "bounds", "sets"])
    if k == "sets":
        if isinstance(ind, Vector):
            return "none", []
        if rng.random() < 0.5:
            ind.function_set.append(rng.choice([wl.h_neg, wl.h_three]) if ind.root_type is None else rng.choice(ind.function_set))
        else:
            ind.terminal_set["extra%d" % rng.randrange(3)] = ind.root_type
        return "sets", [ind]
    if k == "bounds":
        if not isinstance(ind, Vector) or not isinstance(ind.bounds, list) or not ind.bounds:
            return "none", []
        j = rng.randrange(len(ind.bounds))
        lo, hi = ind.bounds[j]
        ind.bounds[j] = (lo, hi + 1)
        return "bounds", [ind]
    if k == "fit":
        if rng.random() < 0.4:
            ind.set_fitness_not_evaluated()
        else:
            if isinstance(ind.fitness, NSGA2Fitness):
                ind.fitness.set_not_evaluated()
                ind.fitness.set_fitness([rng.random(), rng.random()])
            else:
                ind.fitness.set_fitness(rng.random())
        return "fitness", [ind]
    if k == "hist":
        ind.selected_by.append("X%d" % rng.randrange(9))
        ind.applied_operators.append("Y")
        if ind.update_parents:
            ind.parents.append(rng.randrange(99))
        ind.gen += rng.choice([1, 1, 1, 1, 70, 5000])
        return "history", [ind]
    if k == "edit":
        if isinstance(ind, Vector):
            e = rng.randrange(5)
            if e == 0 or not ind.vector:
                ind.add_cell(rng.randrange(9))
            elif e == 1:
                ind.set_cell_value(rng.randrange(ind.size()), 99)
            elif e == 2:
                ind.replace_vector_part([7], rng.randrange(ind.size()))
            elif e == 3:
                ind.get_vector()[0] = -5
            else:
                ind.set_vector([1] * rng.choice([1, ind.size()]))
            return "edit%d" % e, [ind]
        leaves = [n for n in ind.tree if not hasattr(n, "function")]
        if leaves and rng.random() < 0.5:
            rng.choice(leaves).value = 12345
        else:
            ind.tree.insert(0, wl.TerminalNode(7, ind.root_type))
            del ind.tree[1:]
        return "treeedit", [ind]
    if isinstance(ind, Vector):
        in_b = ind.vector and ind.size() == ind.length and (not isinstance(ind.bounds, list) or
                                                             len(ind.bounds) == ind.size())
        if not in_b:
            return "none", []
        mut = {"bit": BitStringVectorFlipMutation, "int": IntVectorNPointMutation,
               "float": FloatVectorGaussNPointMutation}[enc]()
        peers = [o for o in others if o.size() == ind.size() and ind.size() > 1]
        if peers and rng.random() < 0.5:
            p = rng.choice(peers)
            VectorKPointsCrossover(k=1).apply_operator([ind, p])
            return "kxo", [ind, p]
        mut.apply_operator([ind])
        return "mutation", [ind]
    try:
        wl.parse(ind.tree)
    except ValueError:
        return "none", []
    peers = [o for o in others if o.size() > 0]
    r = rng.random()
    if peers and r < 0.4:
        p = rng.choice(peers)
        SubtreeCrossover().apply_operator([ind, p])
        return "subx", [ind, p]
    (SubtreeMutation(init_depth=(1, 2)) if r < 0.7 else ERCMutation()).apply_operator([ind])
    return "treemut", [ind]


def families(rng, mon):
    first, enc, sets = make_ind(rng)
    fam = [first]
    ids = {first.id}
    prog = []
    cloned = modified = False
    for _ in range(rng.choice([3, 8, 20])):
        ind = rng.choice(fam)
        before = [snap(i) for i in fam]
        if len(fam) == 1 or (rng.random() < 0.35 and len(fam) < 8):
            c = ind.clone()
            for i, b in zip(fam, before):
                mon.eq(snap(i), b, "cloning changed the original or another individual")
            mon.check(c is not ind, "clone returned the same object")
            mon.check(type(c) is type(ind), "clone has another class")
            mon.eq(wl.genome(c), wl.genome(ind), "the clone's genome differs")
            mon.eq(config(c), config(ind), "the clone's configuration differs")
            mon.check(c.id not in ids, "the clone's id was used before", id=c.id)
            mon.eq(c.cloned_from, ind.id, "the clone does not refer to its original")
            mon.eq((c.selected_by, c.applied_operators), ([], []), "the clone's history is not empty")
            if ind.update_parents:
                mon.eq(c.parents, [], "the clone's parents are not empty")
            fv = fit_val(c.fitness)
            mon.check(fv is None or fv == fit_val(ind.fitness), "the clone has a made-up fitness", got=fv,
                      want=fit_val(ind.fitness))
            mine = wl.state_ids(c)
            for o in fam:
                for i, part in wl.state_ids(o).items():
                    mon.check(i not in mine, f"the clone shares its {part} with another individual")
            ids.add(c.id)
            fam.append(c)
            cloned = True
            mon.event("clones")
            prog.append("clone")
        else:
            what, touched = modify(rng, ind, enc, [o for o in fam if o is not ind])
            for i, b in zip(fam, before):
                if any(i is t for t in touched):
                    continue
                now = snap(i)
                mon.check(now == b, "a modification of one individual shows in another", modification=what,
                          changed=[k for k in b if b[k] != now[k]], relation=(i.cloned_from, [t.id for t in touched]))
            if touched and cloned:
                modified = True
                mon.event("modifications")
                mon.event("mod:" + what)
            prog.append(what)
    if cloned and modified:
        mon.sig(enc, tuple(prog), wl.genome(first))
        mon.show(encoding=enc, program=prog, genome=wl.genome(first))


SCENARIOS = [
    Scenario(families, 4000, 80000, needs=("clones", "modifications", "mod:kxo", "mod:subx", "mod:treemut", "mod:mutation",
                                           "mod:bounds", "mod:sets")),
]
