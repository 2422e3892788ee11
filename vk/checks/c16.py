"""C16: subtree crossover."""
from eckity.genetic_encodings.gp import FunctionNode, TerminalNode
from eckity.genetic_operators import SubtreeCrossover

from vk import wl
from vk.checks.c09 import config
from vk.core import Scenario

PROPERTY = "C16"
LEVEL = "exploration"
RULE = ("A case builds m = 2..5 trees (random expressions, clones of each other, trees full of equal nodes, single nodes; "
        "typed and untyped), crosses them and lets an offline checker search for a consistent cyclic choice of complete, "
        "same-typed subtrees that explains every result; nodes are compared by value and, for sharing, by identity. Reach "
        "cases give each tree its own vocabulary, so that every exchange identifies the chosen subtrees, and repeat until "
        "each candidate should have been seen dozens of times. Non-trivial: a crossover that changed a tree; distinct by "
        "trees before and after.")
ASSUMPTIONS = ["the crossed trees are distinct individuals with the same function and terminal sets",
               "a candidate that is not chosen although expected at least 40 times counts as unreachable"]


def keys(nodes):
    return [wl.node_key(n) for n in nodes]


def spans(nodes, typed):
    """Candidate subtrees as (start, end, type)."""
    root = wl.parse(nodes)
    return [(p.start, p.end, p.node.node_type) for p in root.all() if not typed or p.start > 0]


def explain(before, after, typed):
    """All cyclic-consistent explanations, as a list of one tuple of spans each (at most 2 are returned)."""
    m = len(before)
    cand = [spans(b, typed) for b in before]
    kb = [keys(b) for b in before]
    ka = [keys(a) for a in after]
    # rel[i]: pairs (choice in tree i-1, choice in tree i) that explain tree i
    rel = []
    for i in range(m):
        j = (i - 1) % m
        pairs = {}
        for p, (s0, e0, t0) in enumerate(cand[j]):
            for q, (s, e, t) in enumerate(cand[i]):
                if typed and t is not t0:
                    continue
                if len(ka[i]) != len(kb[i]) - (e - s) + (e0 - s0):
                    continue
                if ka[i][:s] == kb[i][:s] and ka[i][s:s + e0 - s0] == kb[j][s0:e0] and ka[i][s + e0 - s0:] == kb[i][e:]:
                    pairs.setdefault(p, []).append(q)
        rel.append(pairs)
    out = []

    def walk(i, first, cur, acc):
        if len(out) > 1:
            return
        if i == m:
            # tree 0 receives from tree m-1
            if first in rel[0].get(cur, ()):
                out.append(tuple(cand[k][c] for k, c in enumerate(acc)))
            return
        for q in rel[i].get(cur, ()):
            walk(i + 1, first, q, acc + [q])

    for f in range(len(cand[0])):
        walk(1, f, f, [f])
    return out


def no_sharing(mon, trees):
    seen = set()
    for t in trees:
        for n in t.tree:
            mon.check(id(n) not in seen, "a node is shared between trees (or occurs twice in one)", node=wl.node_key(n))
            seen.add(id(n))


def observe(mon, op, trees, typed, how="apply_operator"):
    """Applies the crossover; returns (explanation or None if unchanged, before keys, after keys)."""
    m = len(trees)
    before = [list(t.tree) for t in trees]
    kb = [keys(b) for b in before]
    cfg = [config(t) for t in trees]
    res = getattr(op, how)(list(trees))
    mon.eq(len(res), m, "number of trees returned")
    after = [list(t.tree) for t in res]
    ka = [keys(a) for a in after]
    no_sharing(mon, res)
    mon.eq([config(t) for t in res], cfg, "the crossover changed an individual's configuration")
    mon.check(sorted((repr(k) for t in kb for k in t)) == sorted((repr(k) for t in ka for k in t)),
              "nodes are not conserved over all trees", before=kb, after=ka)
    mon.event("crossovers")
    ex = explain(before, after, typed)
    if ka == kb and not ex:
        return None, kb, ka
    if not ex:
        mon.fail("no cyclic exchange of complete same-typed subtrees explains the result",
                 before=[[k[1] for k in t] for t in kb], after=[[k[1] for k in t] for t in ka], typed=typed)
    mon.event("explained_exchanges")
    return ex, kb, ka


def general(rng, mon):
    sets = wl.gp_sets(rng)
    m = rng.choice([2, 2, 2, 3, 4, 5])
    trees = []
    while len(trees) < m:
        if trees and rng.random() < 0.25:
            trees.append(rng.choice(trees).clone())
            continue
        depth = wl.rare(rng, [0, 1, 1, 2, 2, 3], [4, 5], 0.04)
        nodes = wl.random_nodes(rng, sets, sets["root"], depth, p_leaf=rng.choice([0.0, 0.3, 0.6]))
        if len(nodes) > 60:
            continue
        trees.append(wl.make_tree(sets, nodes))
    op = SubtreeCrossover(probability=1, arity=m, attempts=rng.choice([1, 1, 2, 5]))
    for rep in range(rng.choice([1, 1, 3])):
        if sum(len(t.tree) for t in trees) > 300:
            break
        types = []
        for t in trees:
            types.append({x[2] for x in spans(t.tree, sets["typed"])})
        common = set.intersection(*types)
        ex, kb, ka = observe(mon, op, trees, sets["typed"], rng.choice(["apply_operator", "apply", "act"]))
        if not common:
            mon.check(ka == kb, "trees without a same-typed subtree were changed")
            mon.event("no_common_type")
        elif all(s == common for s in types):
            mon.check(ex is not None, "no exchange although every pick has a same-typed partner")
        if ka != kb:
            mon.sig(kb, ka)
            mon.show(before=[[k[1] for k in t][:8] for t in kb], after=[[k[1] for k in t][:8] for t in ka])
            mon.event("changed")
        for t in trees:
            wl.check_tree(mon, t, sets, "after crossover", mutated_consts=False)


def _fn(name, args, ret):
    ns = {"float": float, "bool": bool, "int": int}
    if ret is None:
        src = f"def {name}({', '.join('a%d' % i for i in range(len(args)))}):\n    return 0"
    else:
        src = (f"def {name}({', '.join('a%d: %s' % (i, a) for i, a in enumerate(args))}) -> {ret}:\n    return {ret}(0)")
    exec(src, ns)
    return ns[name]


def vocab(v, typed):
    """Functions and terminals that only tree v uses (several arities and types)."""
    if typed:
        fs = [_fn(f"ff{v}", ["float", "bool"], "float"), _fn(f"fb{v}", ["bool", "float"], "bool"),
              _fn(f"fg{v}", ["float"], "float"), _fn(f"fi{v}", ["int", "int"], "int"), _fn(f"fh{v}", ["int"], "float")]
        ts = {f"x{v}": float, f"b{v}": bool, f"i{v}": int}
    else:
        fs = [_fn(f"u{v}", [0], None), _fn(f"w{v}", [0, 0], None), _fn(f"q{v}", [0, 0, 0], None)]
        ts = {f"x{v}": None}
    return fs, ts


def build_vocab(rng, m, typed, sizes=None):
    funcs, terms, voc = [], {}, []
    for v in range(m):
        f, t = vocab(v, typed)
        funcs += f
        terms.update(t)
        voc.append((f, t))
    sets = {"typed": typed, "funcs": funcs, "terms": terms if typed else list(terms), "erc": None,
            "root": float if typed else None, "vars": dict(terms)}
    protos = []
    for v in range(m):
        f, t = voc[v]
        sub = {**sets, "funcs": f, "terms": t if typed else list(t)}
        while True:
            lo, hi = sizes[v] if sizes else (2, 11)
            nodes = wl.random_nodes(rng, sub, sets["root"], rng.choice([1, 2, 2, 3]) if hi < 12 else rng.choice([4, 5, 6, 9]),
                                    p_leaf=0.4 if hi < 12 else 0.2)
            if lo <= len(nodes) <= hi:
                break
        protos.append(nodes)
    return sets, protos


def copy_nodes(nodes):
    return [FunctionNode(n.function) if isinstance(n, FunctionNode) else TerminalNode(n.value, n.node_type) for n in nodes]


def blocks(mon, kp, ka, pos, cand, typed):
    """Trees with own vocabularies: which candidate of each tree was replaced."""
    # own vocabulary: the foreign block of tree i is what tree i-1 gave away
    m = len(kp)
    out = []
    for i in range(m):
        j = (i - 1) % m
        own = {k for k in kp[i]}
        foreign = [q for q, k in enumerate(ka[i]) if k not in own]
        mon.check(foreign and foreign[-1] - foreign[0] + 1 == len(foreign), "received nodes are not one contiguous subtree",
                  before=[k[1] for k in kp[i]], after=[k[1] for k in ka[i]])
        s, ln = foreign[0], len(foreign)
        e = len(kp[i]) - (len(ka[i]) - s - ln)
        mon.check((s, e) in pos[i] and ka[i] == kp[i][:s] + ka[i][s:s + ln] + kp[i][e:],
                  "the replaced part is not one complete subtree", before=[k[1] for k in kp[i]], after=[k[1] for k in ka[i]])
        out.append(pos[i][(s, e)])
        give = ka[i][s:s + ln]
        mon.check(any(kp[j][c[0]:c[1]] == give and (not typed or c[2] is cand[i][pos[i][(s, e)]][2]) for c in cand[j]),
                  "the received part is not a same-typed complete subtree of the previous tree",
                  received=[k[1] for k in give], tree=i, previous=[k[1] for k in kp[j]])
    return out


def reach_big(rng, mon):
    """The same for a tree of 35 to 110 nodes, full of equal nodes."""
    reach(rng, mon, big=True)


def reach(rng, mon, big=False):
    typed = rng.random() < (0.3 if big else 0.6)
    m = 2 if big else rng.choice([2, 2, 2, 3])
    sizes = [(35, 110), (2, 4)] if big else None
    if big and rng.random() < 0.5:
        sizes.reverse()
    sets, protos = build_vocab(rng, m, typed, sizes)
    cand = [spans(p, typed) for p in protos]
    # expected probability of every candidate, for picks that are uniform given the type
    n0 = len(cand[0])
    prob = [[0.0] * len(c) for c in cand]
    for q, (s, e, t) in enumerate(cand[0]):
        same = [[k for k, c in enumerate(cand[i]) if c[2] is t or not typed] for i in range(1, m)]
        if all(same):
            prob[0][q] += 1 / n0
            for i in range(1, m):
                for k in same[i - 1]:
                    prob[i][k] += 1 / n0 / len(same[i - 1])
    ps = [p for row in prob for p in row if p > 0]
    if not ps:
        mon.event("nothing_to_exchange")
        ps = [1.0]
    N = int(40 / min(ps)) + 1
    N = min(N, 6000)
    op = SubtreeCrossover(probability=1, arity=m)
    cnt = [[0] * len(c) for c in cand]
    pos = [{(c[0], c[1]): k for k, c in enumerate(row)} for row in cand]
    base = [wl.make_tree(sets, copy_nodes(p)) for p in protos]
    kp = [keys(p) for p in protos]
    for _ in range(N):
        for t, p in zip(base, protos):
            t.tree = copy_nodes(p)
        op.apply(list(base))
        ka = [keys(t.tree) for t in base]
        if ka == kp:
            mon.event("unchanged")
            continue
        for i, k in enumerate(blocks(mon, kp, ka, pos, cand, typed)):
            cnt[i][k] += 1
        mon.event("exchanges")
    for i in range(m):
        for k, c in enumerate(cand[i]):
            if prob[i][k] * N >= 40:
                mon.check(cnt[i][k] > 0, "a subtree is never chosen", tree=[x[1] for x in kp[i]], start=c[0], end=c[1],
                          expected=round(prob[i][k] * N), which_tree=i, counts=cnt[i])
                mon.event("candidates_reached")
    mon.sig(kp)
    mon.show(trees=[[x[1] for x in k] for k in kp], crossovers=N, counts=cnt)


def large(rng, mon):
    """Deep and big trees with own vocabularies: every exchange, however large, is carried out exactly."""
    typed = rng.random() < 0.4
    m = rng.choice([2, 2, 3])
    sets, _ = build_vocab(rng, m, typed)
    protos = []
    for v in range(m):
        f, t = vocab(v, typed)
        own = {x.__name__: x for x in sets["funcs"]}
        sub = {**sets, "funcs": [own[x.__name__] for x in f], "terms": t if typed else list(t)}
        if rng.random() < 0.5:
            nodes = wl.chain_nodes(rng, sub, sets["root"], rng.choice([12, 20, 40]))
        else:
            nodes = wl.random_nodes(rng, sub, sets["root"], rng.choice([4, 5, 6]), p_leaf=0.1)
            if len(nodes) > 700:
                nodes = wl.chain_nodes(rng, sub, sets["root"], 30)
        protos.append(nodes)
    cand = [spans(p, typed) for p in protos]
    pos = [{(c[0], c[1]): k for k, c in enumerate(row)} for row in cand]
    kp = [keys(p) for p in protos]
    op = SubtreeCrossover(probability=1, arity=m)
    base = [wl.make_tree(sets, copy_nodes(p)) for p in protos]
    types = [{x[2] for x in c} for c in cand]
    for _ in range(40):
        for t, p in zip(base, protos):
            t.tree = copy_nodes(p)
        op.apply(list(base))
        ka = [keys(t.tree) for t in base]
        if ka == kp:
            mon.check(typed and not all(x == types[0] for x in types), "no exchange although every pick has a partner",
                      sizes=[len(k) for k in kp])
            continue
        got = blocks(mon, kp, ka, pos, cand, typed)
        no_sharing(mon, base)
        if sum(cand[i][k][1] - cand[i][k][0] for i, k in enumerate(got)) > 60:
            mon.event("large_exchanges")
        if all(cand[i][k][0] == 0 for i, k in enumerate(got)):
            mon.event("root_exchanges")
    mon.sig(kp)
    mon.show(sizes=[len(k) for k in kp], typed=typed)


def mismatch(rng, mon):
    """Typed trees whose non-root nodes have no type in common, or that have no non-root node."""
    sets, _ = build_vocab(rng, 2, True)
    f0 = {f.__name__: f for f in sets["funcs"]}
    mk = lambda names: [FunctionNode(f0[n]) if n in f0 else TerminalNode(n, sets["terms"][n]) for n in names]
    shapes = {"float": ["fg0", "x0"], "float2": ["fg1", "fg0", "x1"], "int": ["fh0", "i0"],
              "int2": ["fh1", "fi0", "i0", "i1"], "single": ["x0"], "single2": ["x1"]}
    typ = {"float": {float}, "float2": {float}, "int": {int}, "int2": {int}, "single": set(), "single2": set()}
    a, b = rng.choice(list(shapes)), rng.choice(list(shapes))
    trees = [wl.make_tree(sets, mk(shapes[a])), wl.make_tree(sets, mk(shapes[b]))]
    op = SubtreeCrossover(probability=1, attempts=rng.choice([1, 2, 4]))
    ids = [[id(n) for n in t.tree] for t in trees]
    ex, kb, ka = observe(mon, op, trees, True)
    if typ[a] & typ[b]:
        mon.check(ex is not None, "same-typed subtrees were not exchanged", a=a, b=b)
    else:
        mon.check(ka == kb, "trees without a same-typed subtree were changed", a=a, b=b)
        mon.eq([[id(n) for n in t.tree] for t in trees], ids, "nodes of unchanged trees")
        mon.event("mismatches")
    mon.sig(a, b)
    mon.show(a=shapes[a], b=shapes[b], exchanged=bool(ex))


SCENARIOS = [
    Scenario(general, 3200, 60000, needs=("explained_exchanges", "changed", "no_common_type")),
    Scenario(reach, 64, 800, needs=("exchanges", "candidates_reached")),
    Scenario(reach_big, 24, 240, needs=("exchanges", "candidates_reached")),
    Scenario(large, 160, 2400, needs=("large_exchanges",)),
    Scenario(mismatch, 160, 800, needs=("mismatches",)),
]
