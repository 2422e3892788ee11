"""C14: well-formed, well-typed trees."""
import copy

from eckity.base import typed_functions as tf
from eckity.creators import FullCreator, GrowCreator, HalfCreator
from eckity.genetic_encodings.gp import FunctionNode, TerminalNode
from eckity.genetic_operators import ERCMutation, SubtreeCrossover, SubtreeMutation

from vk import wl
from vk.core import Scenario, Skip

PROPERTY = "C14"
LEVEL = "exploration"
RULE = ("A case draws a typed (1-4 types, including a user-defined one, declared constants, random constants) or untyped "
        "function/terminal configuration and creates trees with every creator, then applies a random sequence of subtree "
        "crossovers (2-4 trees), subtree mutations and constant mutations, alone, through a breeder, or in whole runs. After "
        "every creation and every operator application an independent parser and type checker validates every tree. "
        "Non-trivial: a validated tree with at least one function; distinct by tree.")
ASSUMPTIONS = ["typed configurations are closed: every type has at least one function and one terminal or constant of it "
               "(configurations that are not closed may be rejected with an error instead)",
               "random constants come from the constant range until a constant mutation has been applied, and keep its "
               "number type afterwards in typed programs"]


def note(mon, ind):
    if len(ind.tree) > 1:
        mon.sig(wl.genome(ind))
        mon.show(tree=[wl.node_key(n)[1] for n in ind.tree][:12], size=len(ind.tree))


def creator(rng, sets, n, kinds=("full", "grow", "half")):
    a = rng.choice([0, 1, 1, 2, 2, 3]) if not sets["typed"] else rng.choice([1, 1, 2, 2, 3])
    b = a + rng.choice([0, 0, 1, 2, 2])
    if max(wl.n_args(f) for f in sets["funcs"]) >= 3:
        b = min(b, 4)
        a = min(a, b)
    kind = rng.choice(kinds)
    if kind == "half" and n < 2 * (b + 1 - a):
        kind = "grow"
    kw = dict(init_depth=(a, b), function_set=list(sets["funcs"]), terminal_set=copy.copy(sets["terms"]),
              erc_range=sets["erc"], root_type=sets["root"], bloat_weight=rng.choice([0.0, 0.5]))
    if kind == "grow":
        kw["p_prune"] = rng.choice([0.0, 0.2, 0.5, 0.9, 1.0])
    return kind, {"full": FullCreator, "grow": GrowCreator, "half": HalfCreator}[kind](**kw), (a, b)


def creation(rng, mon):
    sets = wl.gp_sets(rng)
    n = wl.rare(rng, [1, 2, 5, 10, 16], [60, 130])
    kind, cr, _ = creator(rng, sets, n)
    for ind in cr.create_individuals(n, rng.random() < 0.5):
        wl.check_tree(mon, ind, sets, f"{kind} creator")
        note(mon, ind)
        mon.event("created_" + kind)
        if rng.random() < 0.3:
            primitives(rng, mon, ind, sets)


def primitives(rng, mon, ind, sets):
    """The building blocks used by creators and operators."""
    types = sorted({wl.hints(f)[1] for f in sets["funcs"]}, key=str) if sets["typed"] else [None]
    t = rng.choice(types)
    f = ind.random_function(t)
    mon.check(isinstance(f, FunctionNode) and any(f.function is g for g in sets["funcs"]), "random_function")
    mon.check(f.node_type is t, "random_function of a wrong type", got=f.node_type, want=t)
    mon.eq(f.n_args, wl.n_args(f.function), "number of arguments of a function node")
    v = ind.random_terminal(t)
    mon.check(isinstance(v, TerminalNode), "random_terminal returned no terminal", got=v)
    probe = {**sets, "root": t}
    declared = [k for k, kt in (sets["terms"].items() if sets["typed"] else ((k, None) for k in sets["terms"]))
                if kt is t and (k == v.value if isinstance(k, str) or isinstance(v.value, str) else wl.same_const(k, v.value))]
    mon.check(declared or (wl.is_erc_value(v.value, probe) and (not sets["typed"] or type(sets["erc"][0]) is t)),
              "random_terminal is not of the requested type", value=v.value, want=t, terminals=sets["terms"], erc=sets["erc"])
    mon.check(v.node_type is t, "random_terminal carries a wrong type")
    # a type without functions or terminals gives none, never one of another type
    if sets["typed"]:
        for other in (str, complex):
            mon.check(ind.random_function(other) is None, "random_function of an unknown type is not None")
            mon.check(ind.random_terminal(other) is None, "random_terminal of an unknown type is not None")
            mon.check(ind.random_subtree(other) is None, "random_subtree of an unknown type is not None")
    before = list(ind.tree)
    want = rng.choice(types + [None])
    sub = ind.random_subtree(want)
    mon.check(len(before) == len(ind.tree) and all(x is y for x, y in zip(before, ind.tree)), "random_subtree changed the tree")
    if sub is not None:
        at = [i for i, x in enumerate(before) if x is sub[0]]
        mon.check(len(at) == 1, "random_subtree is not part of the tree")
        root = wl.parse(before)
        node = next(p for p in root.all() if p.start == at[0])
        mon.check(len(sub) == node.end - node.start and all(x is y for x, y in zip(sub, before[node.start:node.end])),
                  "random_subtree is not a complete subtree", got=[wl.node_key(x)[1] for x in sub])
        if sets["typed"]:
            mon.check(node.start != 0, "random_subtree returned the root of a typed tree")
            if want is not None:
                mon.check(sub[0].node_type is want, "random_subtree of a wrong type", got=sub[0].node_type, want=want)
        mon.event("subtrees_picked")
    mon.event("primitive_checks")


def draw_op(rng, npop):
    k = rng.random()
    d = rng.choice([(0, 1), (1, 1), (1, 2), (2, 2), (0, 2), (2, 3)])
    if k < 0.45:
        m = rng.choice([2, 2, 2, 3, 4])
        m = min(m, npop)
        return "xo", m, SubtreeCrossover(probability=1, arity=m, attempts=rng.choice([1, 1, 3]))
    if k < 0.8:
        return "sm", 1, SubtreeMutation(probability=1, init_depth=d, attempts=rng.choice([1, 2]))
    return "erc", 1, ERCMutation(probability=1, mu=rng.choice([0, 0, 5]), sigma=rng.choice([0.1, 1, 30]))


def sequences(rng, mon):
    sets = wl.gp_sets(rng)
    n = rng.choice([2, 3, 4, 6, 8])
    if sets["typed"]:
        # subtrees of depth 0 of a type exist, depth-bounded growth needs functions only
        pass
    kind, cr, _ = creator(rng, sets, n, ("full", "grow"))
    pop = cr.create_individuals(n, True)
    mutated = False
    ops = [draw_op(rng, n) for _ in range(rng.choice([1, 2, 3]))]
    for step in range(rng.choice([3, 10, 25])):
        name, m, op = rng.choice(ops)
        if sum(len(i.tree) for i in pop) > 4000:
            break
        idx = rng.sample(range(n), m)
        group = [pop[i] for i in idx]
        if rng.random() < 0.2:
            group = [g.clone() for g in group]
        res = rng.choice([op.apply_operator, op.apply])(list(group))
        mutated |= name == "erc"
        mon.eq(len(res), m, f"number of trees returned by {name}")
        for i, g in zip(idx, res):
            pop[i] = g
        for ind in pop:
            wl.check_tree(mon, ind, sets, f"after {name} (step {step})", mutated_consts=mutated)
        seen = {}
        for q, ind in enumerate(pop):
            for x in ind.tree:
                mon.check(id(x) not in seen, f"after {name}: a node is shared by two trees")
                seen[id(x)] = q
        for g in res:
            note(mon, g)
        mon.event("op_" + name)
        if rng.random() < 0.1:
            primitives(rng, mon, rng.choice(pop), sets) if not mutated else None


def large(rng, mon):
    """Deep and big trees: nothing may be cut off, capped or lost."""
    typed = rng.random() < 0.4
    kind = rng.choice(["unary", "unary", "big", "chains", "chains", "chains"])
    d = rng.choice([17, 18, 20, 25, 33, 40])
    if kind == "unary":
        sets = {"typed": typed, "funcs": [tf.neg_float, tf.sqrt_float] if typed else [wl.h_neg, wl.uf.f_sqrt],
                "terms": {"x": float, 2.5: float} if typed else ["x", 3], "erc": None, "root": float if typed else None,
                "vars": {"x": None}}
        kw = dict(function_set=list(sets["funcs"]), terminal_set=copy.copy(sets["terms"]), root_type=sets["root"])
        cls = rng.choice([FullCreator, GrowCreator, HalfCreator])
        lo = rng.choice([d, d - 1]) if cls is HalfCreator else rng.choice([1, d])
        pop = cls(init_depth=(lo, d), **kw).create_individuals(4, True)
    elif kind == "big":
        sets = {"typed": typed, "funcs": [tf.add2floats] if typed else [wl.uf.f_add, wl.uf.f_mul], "terms":
                {"x": float, "y": float} if typed else ["x", "y"], "erc": None, "root": float if typed else None, "vars": {"x": None}}
        kw = dict(function_set=list(sets["funcs"]), terminal_set=copy.copy(sets["terms"]), root_type=sets["root"])
        b = rng.choice([10, 11, 12])
        pop = FullCreator(init_depth=(b, b), **kw).create_individuals(2, True)
        for ind in pop:
            mon.eq((ind.size(), len(ind.tree)), (2 ** (b + 1) - 1,) * 2, "size of a full binary tree", depth=b)
    else:
        sets = wl.gp_sets(rng)
        pop = [wl.make_tree(sets, wl.chain_nodes(rng, sets, sets["root"], d)) for _ in range(4)]
    for ind in pop:
        wl.check_tree(mon, ind, sets, "large tree")
    mon.event("largest:" + kind)
    for step in range(2 if kind == "big" else 6):
        if sum(len(i.tree) for i in pop) > 40000:
            break
        op = rng.choice([SubtreeCrossover(), SubtreeCrossover(), SubtreeMutation(init_depth=(2, 4))])
        grp = rng.sample(range(len(pop)), op.arity)
        res = op.apply_operator([pop[i] for i in grp])
        for i, r in zip(grp, res):
            pop[i] = r
            wl.check_tree(mon, r, sets, f"large tree after {type(op).__name__}")
            c = r.clone()
            wl.check_tree(mon, c, sets, "clone of a large tree")
            mon.eq(wl.genome(c), wl.genome(r), "clone of a large tree")
        mon.event("op_on_large")
    for ind in pop:
        note(mon, ind)


def open_types(rng, mon):
    """Configurations in which some type lacks functions: an error is fine, an ill-formed tree is not."""
    funcs = rng.sample([wl.t_itef, wl.t_lt, wl.t_mix, wl.t_i2f, tf.add2floats, wl.t_b2i, wl.t_addi, wl.t_m_of, wl.t_f_of],
                       rng.choice([1, 2, 3]))
    args = {t for f in funcs for t in wl.hints(f)[0]}
    names = list("xyzuvw")
    terms = {}
    for t in sorted(args, key=str):
        terms[names.pop()] = t
    root = rng.choice([wl.hints(f)[1] for f in funcs])
    sets = {"typed": True, "funcs": funcs, "terms": terms, "erc": None, "root": root, "vars": dict(terms)}
    a = rng.choice([0, 1, 1, 2])
    b = a + rng.choice([0, 1, 2])
    cls = rng.choice([FullCreator, GrowCreator])
    cr = cls(init_depth=(a, b), function_set=list(funcs), terminal_set=dict(terms), root_type=root)
    try:
        pop = cr.create_individuals(rng.choice([1, 4]), True)
    except ValueError:
        mon.event("rejected_configurations")
        mon.sig("rejected", [f.__name__ for f in funcs], a, b)
        return
    for ind in pop:
        wl.check_tree(mon, ind, sets, "open-typed creator")
        note(mon, ind)
    op = SubtreeCrossover(probability=1)
    if len(pop) > 1:
        op.apply_operator([pop[0], pop[1]])
        for ind in pop:
            wl.check_tree(mon, ind, sets, "open-typed crossover")
            note(mon, ind)
    mon.event("open_typed_populations")


def runs(rng, mon):
    c = wl.draw_cfg(rng, encs=("gp", "gpt"), max_gen=rng.choice([1, 3, 5]), pops=[4, 6, 8, 12])
    algo, sp, sets = wl.build(c)
    erc = "erc" in c["ops"]

    def look(s, d):
        for ind in sp.individuals:
            if len(ind.tree) > 3000:
                raise Skip()
            wl.check_tree(mon, ind, sets, f"generation {s.generation_num}", mutated_consts=erc)
            note(mon, ind)
        mon.event("generations_validated")

    algo.register("init", look)
    algo.register("after_generation", look)
    algo.evolve()
    wl.check_tree(mon, algo.best_of_run_, sets, "best of run", mutated_consts=erc)


SCENARIOS = [
    Scenario(creation, 2400, 40000, needs=("created_full", "created_grow", "created_half", "subtrees_picked", "primitive_checks")),
    Scenario(sequences, 1200, 20000, needs=("op_xo", "op_sm", "op_erc")),
    Scenario(large, 120, 2000, needs=("op_on_large", "largest:unary", "largest:big", "largest:chains")),
    Scenario(open_types, 400, 5000, needs=("rejected_configurations", "open_typed_populations")),
    Scenario(runs, 160, 2000, needs=("generations_validated",)),
]
