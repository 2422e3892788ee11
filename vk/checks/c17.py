"""C17: tree mutations."""
import math
from numbers import Number

import numpy as np
from eckity.genetic_encodings.gp import FunctionNode, TerminalNode
from eckity.genetic_operators import ERCMutation, SubtreeCrossover, SubtreeMutation

from vk import wl
from vk.checks.c09 import config, snap
from vk.checks.c16 import copy_nodes, keys, spans
from vk.core import Scenario

PROPERTY = "C17"
LEVEL = "exploration"
RULE = ("A case builds individuals from one or several typed or untyped configurations and applies one mutation operator object "
        "to them in turn while bystanders (clones, relatives by crossover, other individuals) are watched. An offline checker "
        "searches for the complete subtree whose replacement by a well-typed subtree of the configured depth explains the "
        "result, respectively the one numeric leaf that changed. Reach and law cases repeat a mutation on the same tree "
        "until every candidate should have been seen dozens of times. Non-trivial: a mutation that changed a tree; distinct "
        "by trees before and after.")
ASSUMPTIONS = ["typed configurations are closed", "statistical limits at 6.5 standard deviations and 6 counts",
               "untyped integer constants may become floats"]


def draw_tree(rng, sets, max_nodes=60):
    if rng.random() < 0.04:
        return wl.make_tree(sets, wl.chain_nodes(rng, sets, sets["root"], rng.choice([12, 18, 30])))
    if rng.random() < 0.03 and not sets["typed"]:       # large trees
        best = []
        for d in range(3, 10):
            nodes = wl.random_nodes(rng, sets, sets["root"], d, p_leaf=0.0)
            if len(nodes) > 500:
                break
            best = nodes
        return wl.make_tree(sets, best)
    while True:
        nodes = wl.random_nodes(rng, sets, sets["root"], wl.rare(rng, [0, 1, 1, 2, 2, 3], [4, 5], 0.04), p_leaf=rng.choice([0.0, 0.3, 0.6]))
        if len(nodes) <= max_nodes:
            return wl.make_tree(sets, nodes)


def explain_replace(before, after, typed, depth):
    """Spans of `before` whose replacement by a complete subtree of the right type and depth gives `after`."""
    kb, ka = keys(before), keys(after)
    lo, hi = depth
    out = []
    ends = {p.start: p for p in wl.parse(after).all()}
    for s, e, t in spans(before, typed):
        ln = len(ka) - (len(kb) - (e - s))
        if ln < 1 or s not in ends:
            continue
        if ka[:s] != kb[:s] or ka[s + ln:] != kb[e:]:
            continue
        p = ends[s]
        if p.end != s + ln or (typed and p.node.node_type is not t):
            continue
        ds = [l.depth - p.depth for l in p.leaves()]
        if lo <= min(ds) and max(ds) <= hi:
            out.append((s, e, s + ln))
    return out


def watch(others):
    return [(o, snap(o)) for o in others]


def unaffected(mon, watched, what):
    for o, s in watched:
        now = snap(o)
        mon.check(now == s, f"{what} changed another individual", changed=[k for k in s if s[k] != now[k]])
        mon.event("bystanders_checked")


def subtree(rng, mon):
    configs = [wl.gp_sets(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    depth = rng.choice([(0, 0), (0, 1), (1, 1), (1, 2), (2, 2), (2, 3), (0, 3), None])
    kw = {} if depth is None else {"init_depth": depth}
    op = SubtreeMutation(probability=1, attempts=rng.choice([1, 1, 3]), **kw)
    depth = depth or (2, 4)
    if depth[1] > 3:
        for c in configs:
            c["funcs"] = [f for f in c["funcs"] if wl.n_args(f) <= 2] if not c["typed"] else c["funcs"]
            if not c["funcs"]:
                c["funcs"] = [wl.h_neg]
    pop = []
    for c in configs:
        t = draw_tree(rng, c)
        pop.append((t, c))
        if rng.random() < 0.5:
            pop.append((t.clone(), c))
        if rng.random() < 0.3:
            u = draw_tree(rng, c)
            SubtreeCrossover(probability=1).apply([t, u])
            pop.append((u, c))
    for step in range(rng.choice([1, 2, 5])):
        t, sets = rng.choice(pop)
        if len(t.tree) > 700:
            continue
        before, cfg = list(t.tree), config(t)
        kb = keys(before)
        kept = {id(n) for n in before}
        w = watch([o for o, _ in pop if o is not t])
        res = rng.choice([op.apply_operator, op.apply, op.act])([t])
        mon.check(len(res) == 1, "number of trees returned")
        r = res[0]
        wl.check_tree(mon, r, sets, "after subtree mutation")
        ka = keys(r.tree)
        mon.eq(config(r), cfg, "the mutation changed the individual's configuration")
        unaffected(mon, w, "subtree mutation")
        if sets["typed"] and len(before) == 1:
            mon.eq(ka, kb, "a typed tree without a non-root node was changed")
            mon.event("nothing_to_mutate")
            continue
        ex = explain_replace(before, r.tree, sets["typed"], depth)
        mon.check(bool(ex), "no replacement of one complete subtree by one of the configured type and depths explains the result",
                  before=[k[1] for k in kb], after=[k[1] for k in ka], depth=depth, typed=sets["typed"])
        mon.event("subtree_mutations")
        if len(kb) > 200:
            mon.event("large_trees_mutated")
        if ka != kb:
            mon.sig(kb, ka)
            mon.show(before=[k[1] for k in kb][:10], after=[k[1] for k in ka][:12], depth=depth)


def subtree_reach(rng, mon):
    typed = rng.random() < 0.5
    sets = wl.typed_sets(rng, allow_meters=False) if typed else wl.untyped_sets(rng, n_funcs=rng.choice([2, 3]))
    if not typed:
        sets["funcs"] = [f for f in sets["funcs"] if wl.n_args(f) <= 3] or [wl.uf.f_add]
    while True:
        nodes = wl.random_nodes(rng, sets, sets["root"], rng.choice([1, 2, 2, 3]), p_leaf=0.4)
        if 2 <= len(nodes) <= 12:
            break
    dup = rng.random() < 0.5
    if not dup:
        # leaves that no new subtree contains (functions of the type keep their place)
        for i, n in enumerate(nodes):
            if isinstance(n, TerminalNode):
                nodes[i] = TerminalNode(f"old{i}", n.node_type)
    D = rng.choice([1, 1, 2])
    op = SubtreeMutation(probability=1, init_depth=(D, D))
    t = wl.make_tree(sets, copy_nodes(nodes))
    cand = spans(nodes, typed)
    pos = {(s, e): k for k, (s, e, _) in enumerate(cand)}
    cnt = [0] * len(cand)
    certain = [0] * len(cand)
    N = 60 * len(cand)
    for _ in range(N):
        t.tree = copy_nodes(nodes)
        op.apply([t])
        ex = explain_replace(nodes, t.tree, typed, (D, D))
        mon.check(bool(ex), "no replacement of one complete subtree explains the result",
                  before=[k[1] for k in keys(nodes)], after=[k[1] for k in keys(t.tree)], depth=(D, D))
        for s, e, _ in ex:
            cnt[pos[(s, e)]] += 1
        if len(ex) == 1:
            certain[pos[ex[0][:2]]] += 1
        mon.event("subtree_mutations")
    for k, c in enumerate(cand):
        mon.check(cnt[k] > 0, "a subtree is never replaced", tree=[x[1] for x in keys(nodes)], start=c[0], end=c[1], counts=cnt)
        mon.event("candidates_reached")
    mon.sig(keys(nodes), D)
    mon.show(tree=[x[1] for x in keys(nodes)], counts=cnt, certain=certain)


def subtree_depths(rng, mon):
    """Every depth of the configured range occurs, however small the mutated tree is."""
    f = rng.choice([wl.h_neg, wl.uf.f_add])
    sets = {"typed": False, "funcs": [f], "terms": ["x"], "erc": None, "root": None, "vars": {"x": None}}
    a = rng.choice([0, 1, 2])
    b = a + rng.choice([0, 1, 2])
    op = SubtreeMutation(probability=1, init_depth=(a, b))
    seen = {}
    N = 300
    for _ in range(N):
        t = wl.make_tree(sets, [TerminalNode("x")])
        op.apply([t])
        d = max(l.depth for l in wl.parse(t.tree).leaves())
        seen[d] = seen.get(d, 0) + 1
    mon.eq(sorted(seen), list(range(a, b + 1)), "depths of the new subtrees", depth=(a, b), counts=seen, function=f.__name__)
    mon.event("depth_ranges_covered")
    mon.sig("depths", a, b, f.__name__)


def const_tree(rng, kind):
    """A tree with numeric constants (declared and random), equal ones included."""
    if kind == "untyped":
        sets = wl.untyped_sets(rng)
        sets["erc"] = rng.choice([(-1.0, 1.0), (0, 5), (2, 2), None, (-900, 900)])
        sets["terms"] = rng.choice([["x"], ["x", 3.0], ["x", 1000, -250, 0.125], ["x", 7e6, 40], ["x", "y", 0.0, 4], ["x", np.float64(2.25)],
                                    ["x", np.int64(3), np.float64(-1.5), 0.5]])
    else:
        sets = wl.typed_sets(rng)
        if rng.random() < 0.4 and int in sets["vars"].values():
            sets["erc"] = (0, 3)
    while True:
        nodes = wl.random_nodes(rng, sets, sets["root"], rng.choice([0, 1, 2, 2, 3]), p_leaf=0.3)
        if len(nodes) <= 40:
            break
    if rng.random() < 0.4:
        # equal constants, as distinct nodes and as the very same value object
        v = rng.choice([0, 1, 7, -3])
        for n in nodes:
            if isinstance(n, TerminalNode) and type(n.value) is int and rng.random() < 0.7:
                n.value = v
    return sets, nodes


def numeric(nodes):
    return [i for i, n in enumerate(nodes) if isinstance(n, TerminalNode) and isinstance(n.value, Number)
            and not isinstance(n.value, bool)]


def erc(rng, mon):
    mu, sg = rng.choice([0, 0, 5, -2.5]), rng.choice([0.1, 1, 30, 1e-6])
    op = ERCMutation(probability=1, mu=mu, sigma=sg)
    pop = []
    for _ in range(rng.choice([1, 2, 3])):
        sets, nodes = const_tree(rng, rng.choice(["typed", "untyped"]))
        t = wl.make_tree(sets, nodes)
        pop.append((t, sets))
        if rng.random() < 0.6:
            pop.append((t.clone(), sets))
    for step in range(rng.choice([1, 3])):
        t, sets = rng.choice(pop)
        before = [(wl.node_key(n), getattr(n, "value", None)) for n in t.tree]
        nums = numeric(t.tree)
        cfg = config(t)
        w = watch([o for o, _ in pop if o is not t])
        r = rng.choice([op.apply_operator, op.apply, op.act])([t])[0]
        mon.eq(config(r), cfg, "the mutation changed the individual's configuration")
        unaffected(mon, w, "constant mutation")
        mon.eq(len(r.tree), len(before), "constant mutation changed the number of nodes")
        changed = [i for i, n in enumerate(r.tree) if wl.node_key(n) != before[i][0]]
        mon.check(set(changed) <= set(nums), "constant mutation changed a node that is no numeric constant",
                  changed=[(before[i][0], wl.node_key(r.tree[i])) for i in changed])
        mon.check(len(changed) <= 1, "constant mutation changed several nodes", changed=[before[i][0] for i in changed])
        wl.check_tree(mon, r, sets, "after constant mutation", mutated_consts=True)
        if not nums:
            mon.event("nothing_to_mutate")
            continue
        if not changed:
            # only rounding (integers, or noise far below the value's precision) may hide the noise
            ok = any(r.tree[i].node_type is int or abs(r.tree[i].value) * 1e-14 > abs(sg) for i in nums)
            mon.check(ok, "constant mutation changed nothing", constants=[before[i][1] for i in nums], mu=mu, sigma=sg)
            continue
        i = changed[0]
        old, new = before[i][1], r.tree[i].value
        mon.check(isinstance(new, (int, float)) and not isinstance(new, bool) and math.isfinite(new), "new constant is no number",
                  new=new)
        slack = 0.51 if r.tree[i].node_type is int else 1e-6 * (1 + abs(old))
        mon.check(abs(new - old - mu) <= 9 * sg + slack, "the shift is not plausible for the configured noise", old=old, new=new,
                  mu=mu, sigma=sg)
        mon.event("constants_mutated")
        mon.sig(before[i][0], wl.node_key(r.tree[i]))
        mon.show(old=old, new=new, mu=mu, sigma=sg, node_type=wl.tname(r.tree[i].node_type))


def erc_law(rng, mon):
    """Every numeric constant can be chosen; the noise has the configured mean and deviation."""
    while True:
        sets, nodes = const_tree(rng, rng.choice(["typed", "untyped"]))
        nums = numeric(nodes)
        if nums:
            break
    mu, sg = rng.choice([0, 3.0, -40.0]), rng.choice([0.5, 1, 20.0])
    op = ERCMutation(mu=mu, sigma=sg)
    t = wl.make_tree(sets, copy_nodes(nodes))
    N = max(400, 60 * len(nums))
    cnt = {i: 0 for i in nums}
    shifts = []
    for _ in range(N):
        t.tree = copy_nodes(nodes)
        op.apply([t])
        for i in nums:
            d = t.tree[i].value - nodes[i].value
            if d != 0:
                cnt[i] += 1
                if t.tree[i].node_type is not int:
                    shifts.append(d)
    hidden = 0.9 if any(nodes[i].node_type is int for i in nums) else 0.0
    for i in nums:
        # integer noise may round to nothing most of the time when it is small
        if not (hidden and sg < 1 and abs(mu) < 1):
            mon.check(cnt[i] > 0, "a numeric constant is never mutated", tree=[k[1] for k in keys(nodes)], index=i, counts=cnt)
            mon.event("candidates_reached")
    n = len(shifts)
    if n >= 200:
        m = sum(shifts) / n
        sd = math.sqrt(sum((x - m) ** 2 for x in shifts) / (n - 1))
        mon.check(abs(m - mu) <= 6.5 * sg / math.sqrt(n), "mean of the noise", got=m, want=mu, sigma=sg, n=n)
        mon.check(abs(sd / sg - 1) <= 6.5 * 0.75 / math.sqrt(n) + 0.02, "deviation of the noise", got=sd, want=sg, n=n)
        mon.event("law_comparisons")
    mon.sig(keys(nodes), mu, sg)
    mon.show(constants=len(nums), counts=list(cnt.values()), mu=mu, sigma=sg)


SCENARIOS = [
    Scenario(subtree, 2400, 40000, needs=("subtree_mutations", "bystanders_checked", "nothing_to_mutate", "large_trees_mutated")),
    Scenario(subtree_reach, 120, 1600, needs=("candidates_reached",)),
    Scenario(subtree_depths, 40, 400, needs=("depth_ranges_covered",)),
    Scenario(erc, 2400, 40000, needs=("constants_mutated", "nothing_to_mutate", "bystanders_checked")),
    Scenario(erc_law, 120, 1600, needs=("candidates_reached", "law_comparisons")),
]
