"""C21: genetic operators act with their probability and keep records."""
from eckity.fitness import SimpleFitness
from eckity.genetic_encodings.ga import BitStringVector, FloatVector, IntVector
from eckity.genetic_operators import (BitStringVectorFlipMutation, BitStringVectorNFlipMutation, ERCMutation,
                                      FloatVectorGaussNPointMutation, FloatVectorGaussOnePointMutation,
                                      FloatVectorUniformNPointMutation, FloatVectorUniformOnePointMutation,
                                      GeneticOperator, IntVectorNPointMutation, IntVectorOnePointMutation,
                                      SubtreeCrossover, SubtreeMutation, VectorKPointsCrossover)
from eckity.genetic_operators.failable_operator import FailableOperator
from eckity.genetic_operators.mutations.identity_transformation import IdentityTransformation

from vk import wl
from vk.checks.c09 import snap
from vk.core import Scenario

PROPERTY = "C21"
LEVEL = "exploration"
RULE = ("A case draws an operator (all library operators, user-defined ones that work in place, return new individuals or fail) "
        "with a probability, and individuals with and without fitness, history and parent recording, and applies the operator "
        "once or many times through apply_operator or act, alone or in sequences. The monitor compares full snapshots before "
        "and after: nothing changed, or fitness gone, exactly the operator's name appended to every result and the given "
        "ids recorded as parents. Law cases compare the number of acts (in total, per fitness class and for consecutive "
        "applications) with the binomial law. Distinct by operator, parameters and individuals.")
ASSUMPTIONS = ["statistical limits at 6.5 standard deviations and 6 counts",
               "the fallback of the Gaussian mutations may additionally record the uniform mutation that did the work, before its own name"]


class InPlace(GeneticOperator):
    def __init__(self, probability=1.0, arity=1, events=None):
        super().__init__(probability=probability, arity=arity, events=events)
        self.acts = 0

    def apply(self, individuals):
        self.acts += 1
        return individuals


class NewOnes(GeneticOperator):
    """Returns individuals other than the given ones."""

    def __init__(self, probability=1.0, arity=1, events=None):
        super().__init__(probability=probability, arity=arity, events=events)
        self.acts = 0

    def apply(self, individuals):
        self.acts += 1
        return [i.clone() for i in individuals]


class Failing(FailableOperator):
    def __init__(self, probability=1.0, arity=1, events=None, attempts=2):
        super().__init__(probability=probability, arity=arity, events=events, attempts=attempts)
        self.acts = 0

    def attempt_operator(self, payload, attempt_num):
        if attempt_num == 0:
            self.acts += 1
        return False, payload


USER = [InPlace, NewOnes, Failing]


def draw_op(rng, fam, n, p):
    """(operator, arity)"""
    k = rng.random()
    if k < 0.35:
        cls = rng.choice(USER)
        a = rng.choice([1, 1, 2, 3])
        return cls(probability=p, arity=a), a
    if k < 0.4:
        return IdentityTransformation(probability=p), 1
    if fam == "gp":
        return rng.choice([(SubtreeCrossover(probability=p), 2), (SubtreeCrossover(probability=p, arity=3), 3),
                           (SubtreeMutation(probability=p, init_depth=(1, 2)), 1), (ERCMutation(probability=p), 1)])
    if n > 1 and rng.random() < 0.3:
        return VectorKPointsCrossover(probability=p, k=rng.randint(1, n - 1)), 2
    m = rng.randint(1, n)
    if fam == "bit":
        return rng.choice([lambda: BitStringVectorFlipMutation(probability=p),
                           lambda: BitStringVectorNFlipMutation(probability=p, n=m)])(), 1
    if fam == "int":
        return rng.choice([lambda: IntVectorOnePointMutation(probability=p),
                           lambda: IntVectorNPointMutation(probability=p, n=m)])(), 1
    return rng.choice([lambda: FloatVectorUniformOnePointMutation(probability=p),
                       lambda: FloatVectorUniformNPointMutation(probability=p, n=m),
                       lambda: FloatVectorGaussOnePointMutation(probability=p, sigma=rng.choice([0.01, 1.0, 1e9])),
                       lambda: FloatVectorGaussNPointMutation(probability=p, n=m, sigma=rng.choice([0.01, 1e9]))])(), 1


def draw_ind(rng, fam, n, sets, up):
    fit = rng.choice([None, 0.0, -5.0, 1e6])
    if fam == "gp":
        ind = wl.make_tree(sets, wl.random_nodes(rng, sets, sets["root"], rng.choice([1, 2])), update_parents=up)
        if fit is not None:
            ind.fitness.set_fitness(fit)
    else:
        cls = {"bit": BitStringVector, "int": IntVector, "float": FloatVector}[fam]
        b = {"bit": (0, 1), "int": (0, 9), "float": (0.0, 1.0)}[fam]
        ind = cls(SimpleFitness(fitness=fit, higher_is_better=True, cache=rng.random() < 0.3), n, b,
                  vector=[cls(SimpleFitness(), n, b).get_random_number_in_bounds(i) for i in range(n)], update_parents=up)
    if rng.random() < 0.3:
        ind.gen = rng.choice([1, 7, 60, 1000])
    if rng.random() < 0.5:
        ind.applied_operators.extend(rng.choice([["A"], ["A", "B"], ["InPlace"] * rng.choice([1, 2, 4]), ["A"] * rng.choice([10, 50])]))
        ind.selected_by.append("S")
        if up:
            ind.parents.extend(rng.choice([[901, 902], [901], [ind.id], [ind.id] * rng.choice([3, 9, 40]), list(range(900, 900 + rng.choice([5, 17, 120])))]))
    return ind


def fallback_names(name):
    return {"FloatVectorGaussOnePointMutation": "FloatVectorUniformOnePointMutation",
            "FloatVectorGaussNPointMutation": "FloatVectorUniformNPointMutation"}.get(name)


def check_application(rng, mon, op, inds, must=None, how=None):
    """Applies op; decides from its records whether it acted; checks both contracts. Returns (acted, results)."""
    before = [snap(i) for i in inds]
    given = list(inds)
    res = (how or rng.choice([op.apply_operator, op.act]))(given)
    name = type(op).__name__
    same = len(res) == len(inds) and all(a is b for a, b in zip(res, inds))
    acted = not (same and all(snap(i) == b for i, b in zip(inds, before)))
    if must is not None:
        mon.eq(acted, must, f"{name} with probability {int(must)} " + ("did not act" if must else "acted"))
    mon.event("acts" if acted else "abstentions")
    if not acted:
        return False, res
    ids = [b["id"] for b in before]
    mon.eq([i.id for i in inds], ids, f"{name} changed the ids of the given individuals")
    for i in inds:
        mon.check(not i.fitness.is_fitness_evaluated(), f"{name} acted and left a previous fitness")
        try:
            v = i.get_pure_fitness()
        except Exception:
            pass
        else:
            mon.fail(f"{name} acted and left a readable fitness", value=v)
    by_id = {b["id"]: b for b in before}
    for k, r in enumerate(res):
        old = by_id.get(r.id)
        base = old["ops"] if old else []
        pbase = old["parents"] if old else []
        new = r.applied_operators[len(base):]
        mon.check(r.applied_operators[:len(base)] == base, f"{name} changed the earlier operator history",
                  before=base, after=r.applied_operators)
        fb = fallback_names(name)
        ok = new == [name] or (fb is not None and new == [fb, name])
        mon.check(ok, f"{name} is not recorded exactly once at the end of the history", recorded=new)
        mon.check(not r.fitness.is_fitness_evaluated() or old is None, f"a result of {name} has a fitness")
        if r.update_parents:
            add = r.parents[len(pbase):]
            mon.check(r.parents[:len(pbase)] == pbase, f"{name} changed the earlier parents")
            if new == [name]:
                mon.eq(sorted(add), sorted(ids), f"parents recorded by {name}")
            else:
                mon.eq(set(add), set(ids), f"parents recorded by {name} and its fallback")
            mon.event("parents_checked")
        if old is not None:
            mon.eq(r.selected_by, old["sel"], f"{name} changed the selection history")
    return True, res


def single(rng, mon):
    fam = rng.choice(["bit", "int", "float", "gp"])
    n = rng.choice([1, 2, 3, 6])
    sets = wl.gp_sets(rng)
    p = rng.choice([0, 0.0, 1, 1.0, 0.5, 0.5, 0.3, 0.9])
    op, a = draw_op(rng, fam, n, p)
    mon.eq(op.get_operator_arity(), a, "reported arity")
    inds = [draw_ind(rng, fam, n, sets, rng.random() < 0.5) for _ in range(a)]
    must = True if p == 1 else False if p == 0 else None
    acted, _ = check_application(rng, mon, op, inds, must)
    mon.event("single_applications")
    mon.sig(type(op).__name__, p, fam, n, acted, [wl.genome(i) for i in inds], [i.applied_operators for i in inds])
    mon.show(operator=type(op).__name__, p=p, acted=acted, history=[i.applied_operators for i in inds])


def sequences(rng, mon):
    fam = rng.choice(["bit", "int", "float", "gp"])
    n = rng.choice([2, 3, 6])
    sets = wl.gp_sets(rng)
    ops = [draw_op(rng, fam, n, rng.choice([0, 1, 0.5, 0.5])) for _ in range(rng.choice([2, 3, 4]))]
    inds = [draw_ind(rng, fam, n, sets, rng.random() < 0.5) for _ in range(6)]
    start = {i.id: len(i.applied_operators) for i in inds}
    want = {i.id: [] for i in inds}
    for step in range(rng.choice([3, 8, 8, 8, 40])):
        op, a = rng.choice(ops)
        idx = rng.sample(range(len(inds)), a)
        if fam == "gp" and sum(len(i.tree) for i in inds) > 600:
            break
        group = [inds[j] for j in idx]
        bystanders = [i for i in inds if all(i is not g for g in group)]
        watch = [snap(i) for i in bystanders]
        names = [list(g.applied_operators) for g in group]
        acted, res = check_application(rng, mon, op, group)
        for i, w in zip(bystanders, watch):
            mon.eq(snap(i), w, "an operator changed an individual it was not given")
        for j, r, nm, g in zip(idx, res, names, group):
            inds[j] = r
            if acted and r.id in want:
                want[r.id] = want[r.id] + r.applied_operators[len(nm):]
            elif acted:
                want[r.id] = list(r.applied_operators)
                start[r.id] = 0
    for i in inds:
        mon.eq(i.applied_operators[start[i.id]:], want[i.id], "operator history is not in order of application")
    mon.event("histories_checked", len(inds))
    mon.sig(fam, [i.applied_operators for i in inds])
    mon.show(encoding=fam, histories=[i.applied_operators for i in inds])


def law(rng, mon):
    """Number of acts against the binomial law."""
    fam = rng.choice(["bit", "int", "float", "gp"])
    n = rng.choice([2, 4])
    sets = wl.gp_sets(rng)
    p = rng.choice([0.01, 0.05, 0.2, 0.5, 0.5, 0.8, 0.95, 1.0, 0.0, 0.004, 0.996, 0.125, 0.03])
    op, a = draw_op(rng, fam, n, p)
    N = 2000
    if p in (0.004, 0.996, 0.03):
        a = rng.choice([1, 1, 2, 3, 3, 5])
        op, N = InPlace(probability=p, arity=a), 30000
    per = {}
    flags = []
    fits = [None, 0.0, 1e9, -1e9]
    # nothing, a foreign name, the operator's own name several times in a row
    own = rng.choice([1, 2, 3, 5, 20])
    hists = [lambda: [], lambda: ["X"], lambda: [type(op).__name__] * own]
    protos = [draw_ind(rng, fam, n, sets, False) for _ in range(a)]
    for t in range(N):
        if fam == "gp" and t % 10 == 0:
            group = [wl.make_tree(sets, [wl.FunctionNode(x.function) if isinstance(x, wl.FunctionNode)
                                         else wl.TerminalNode(x.value, x.node_type) for x in q.tree]) for q in protos]
        elif t == 0:
            group = list(protos)
        f = fits[t % 4]
        for g in group:
            g.applied_operators = hists[t % 3]()
            if f is None:
                g.set_fitness_not_evaluated()
            else:
                g.fitness.set_fitness(f)
        res = op.apply_operator(list(group))
        acted = res[0] is not group[0] or res[0].applied_operators != hists[t % 3]()
        flags.append(acted)
        c = per.setdefault((t % 4, t % 3), [0, 0])
        c[0] += 1
        c[1] += acted
    tot = sum(flags)
    mon.check(wl.stat_ok(tot, N, p), "number of acts does not match the probability", acts=tot, of=N, p=p,
              operator=type(op).__name__)
    for k, (c, h) in per.items():
        mon.check(wl.stat_ok(h, c, p), "acting depends on fitness or history", group=k, acts=h, of=c, p=p)
    for dim in (0, 1):
        for v in {k[dim] for k in per}:
            c = sum(per[k][0] for k in per if k[dim] == v)
            h = sum(per[k][1] for k in per if k[dim] == v)
            mon.check(wl.stat_ok(h, c, p), "acting depends on " + ("fitness", "history")[dim], group=v, acts=h, of=c, p=p)
    pairs = sum(1 for x, y in zip(flags[::2], flags[1::2]) if x and y)
    mon.check(wl.stat_ok(pairs, N // 2, p * p), "consecutive applications are not independent", both=pairs, of=N // 2, p=p,
              operator=type(op).__name__)
    mon.event("law_comparisons", 2 + len(per))
    mon.event("law_applications", N)
    mon.sig(type(op).__name__, p, fam, n)
    mon.show(operator=type(op).__name__, p=p, acts=tot, applications=N)


SCENARIOS = [
    Scenario(single, 8000, 80000, needs=("acts", "abstentions", "parents_checked")),
    Scenario(sequences, 2400, 20000, needs=("histories_checked",)),
    Scenario(law, 160, 2400, needs=("law_comparisons",)),
]
