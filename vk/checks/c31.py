"""C31: programs built node by node."""
import copy

from eckity.fitness import GPFitness
from eckity.genetic_encodings.gp import FunctionNode, TerminalNode, Tree

from vk import wl
from vk.core import Scenario

PROPERTY = "C31"
LEVEL = "exploration"
RULE = ("A case draws a typed or untyped function/terminal configuration and a random or deep expression over it, and appends its "
        "nodes one by one to an empty tree. Before a node, nodes of every other type are offered; after the last one, nodes of "
        "any type. A model (a stack of the types that are still expected) says which of them have to be taken. Size, root and "
        "contents are compared after every call, the finished program is executed and compared with an independent "
        "interpreter; trees are emptied and built again, several trees are built alternately. Non-trivial: a finished tree "
        "with at least one function; distinct by tree.")
ASSUMPTIONS = ["only functions and variables of the configuration are offered, and constants of one of its types",
               "an untyped function as the root of a typed tree is accepted or rejected (the test suite uses one)"]


def h_seven(a, b, c, d, e, f, g):
    return a - b + c - d + e - f + g


class Meta:
    """Expected types of the nodes to come, innermost first."""

    def __init__(self, sets):
        self.sets, self.stack = sets, [sets["root"] if sets["typed"] else None]

    def expects(self):
        return self.stack[-1] if self.stack else "nothing"

    def feed(self, node):
        self.stack.pop()
        if isinstance(node, FunctionNode):
            args = wl.hints(node.function)[0]
            self.stack += [t if self.sets["typed"] else None for t in reversed(args)]


def empty(sets):
    return Tree(fitness=GPFitness(), function_set=list(sets["funcs"]), terminal_set=copy.copy(sets["terms"]), erc_range=sets["erc"],
                root_type=sets["root"])


def offers(rng, sets):
    """One node of every type that occurs in the configuration, and of some that do not."""
    out = []
    if sets["typed"]:
        for f in sets["funcs"]:
            out.append(FunctionNode(f))
        for k, t in sets["terms"].items():
            out.append(TerminalNode(k, t))
        out += [TerminalNode("s", str), TerminalNode(1, None), TerminalNode(True, bool), TerminalNode(2, int), TerminalNode(0.5, float)]
    else:
        out += [TerminalNode(1, int), TerminalNode(0.5, float), TerminalNode("x", str), TerminalNode(True, bool)]
    rng.shuffle(out)
    return out


def same(tree, want):
    return len(tree.tree) == len(want) and all(a is b for a, b in zip(tree.tree, want))


def refuse(mon, tree, node, fed, why):
    try:
        tree.add_tree(node)
    except ValueError:
        mon.event("refused_nodes")
    except Exception as e:
        mon.fail(f"adding a node that does not fit raised {type(e).__name__} instead of ValueError", why=why, error=str(e))
    else:
        mon.fail("a node that does not fit was accepted", why=why, node=wl.node_key(node), node_type=node.node_type,
                 tree=[wl.node_key(x)[1] for x in fed])
    mon.check(same(tree, fed), "a refused node changed the tree", why=why)


class Building:
    def __init__(self, rng, mon, sets):
        self.rng, self.mon, self.sets = rng, mon, sets
        self.tree = empty(sets)
        mon.eq(self.tree.size(), 0, "size of a tree without nodes")
        self.plan()

    def plan(self):
        rng, sets = self.rng, self.sets
        root = sets["root"] if sets["typed"] else None
        if rng.random() < 0.25:
            self.nodes = wl.chain_nodes(rng, sets, root, rng.choice([4, 8, 15]))
        else:
            self.nodes = wl.random_nodes(rng, sets, root, rng.choice([0, 1, 2, 3, 4]), rng.choice([0.1, 0.3, 0.5]))
        self.meta = Meta(sets)
        self.fed = []

    def step(self):
        rng, mon, tree = self.rng, self.mon, self.tree
        want = self.meta.expects()
        if rng.random() < 0.5:
            for o in offers(rng, self.sets)[:rng.choice([1, 3, 8])]:
                if o.node_type is not want and not (not self.fed and o.node_type is None):
                    refuse(mon, tree, o, self.fed, f"expected {want}")
        node = self.nodes[len(self.fed)]
        try:
            tree.add_tree(node)
        except ValueError as e:
            mon.fail("a node that fits was refused", error=str(e)[:200], expected=want, node=wl.node_key(node),
                     tree=[wl.node_key(x)[1] for x in self.fed])
        self.fed.append(node)
        self.meta.feed(node)
        mon.event("accepted_nodes")
        mon.check(same(tree, self.fed), "the tree is not the sequence of the nodes added", got=[wl.node_key(x)[1] for x in tree.tree],
                  want=[wl.node_key(x)[1] for x in self.fed])
        mon.eq(tree.size(), len(self.fed), "size")
        mon.check(tree.root is self.fed[0], "root is not the first node")

    @property
    def done(self):
        return len(self.fed) == len(self.nodes)

    def finish(self):
        rng, mon, tree, sets = self.rng, self.mon, self.tree, self.sets
        assert not self.meta.stack
        for o in offers(rng, sets)[:4] + [copy.deepcopy(rng.choice(self.nodes))]:
            refuse(mon, tree, o, self.fed, "complete")
        mon.event("complete_programs")
        p = wl.parse(self.nodes)
        mon.eq(tree.depth(), max(x.depth for x in p.all()), "depth")
        # filters
        for name, fl in (("functions", lambda n: isinstance(n, FunctionNode)), ("all", lambda n: True), ("none", lambda n: False),
                         ("type", lambda n, t=rng.choice(self.nodes).node_type: n.node_type is t)):
            got = tree.filter_tree(fl)
            want = [n for n in self.nodes if fl(n)]
            mon.check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), "filter_tree", filter=name)
        env = wl.draw_env(rng, sets)
        import numpy as np
        with np.errstate(all="ignore"):
            got, want = tree.execute(**env), wl.interp(self.nodes, env)
        mon.check(wl.same_value(got, want), "value of a program built node by node", got=got, want=want)
        if len(self.nodes) > 1:
            mon.sig(wl.genome(tree))
            mon.show(typed=sets["typed"], program=[wl.node_key(n)[1] for n in self.nodes][:12])


def construct(rng, mon):
    sets = wl.gp_sets(rng)
    if not sets["typed"] and rng.random() < 0.15:       # functions of many arguments
        sets["funcs"] = [rng.choice([wl.h_five, h_seven]), wl.h_neg]
    builds = [Building(rng, mon, sets) for _ in range(rng.choice([1, 1, 2, 3]))]
    rounds = rng.choice([1, 1, 2])
    for r in range(rounds):
        todo = list(builds)
        while todo:
            b = rng.choice(todo)
            b.step()
            if b.done:
                b.finish()
                todo.remove(b)
            elif rng.random() < 0.02:
                b.tree.empty_tree()
                mon.eq(b.tree.size(), 0, "size of an emptied tree")
                b.plan()
                mon.event("restarted")
        for b in builds:
            mon.check(same(b.tree, b.fed), "building one tree changed another")
        if r + 1 < rounds:
            for b in builds:
                old = list(b.tree.tree)
                b.tree.empty_tree()
                mon.eq(b.tree.size(), 0, "size of an emptied tree")
                mon.check(len(old) == len(b.fed), "emptied")
                b.plan()
                mon.event("restarted")


def twins(k):
    def f(x, y):
        return x + k * y
    return f


def nodes(rng, mon):
    """Equality and description of nodes."""
    sets = wl.typed_sets(rng) if rng.random() < 0.6 else wl.untyped_sets(rng)
    fs = list(sets["funcs"])
    for f in fs:
        a, b = FunctionNode(f), FunctionNode(f)
        mon.check(a == b and not a != b, "nodes of one function are not equal", f=f.__name__)
        mon.eq(a.n_args, wl.n_args(f), "number of arguments")
        mon.check(a.node_type is (wl.hints(f)[1] if sets["typed"] else None), "type of a function node", f=f.__name__)
        mon.eq(str(a), f.__name__, "name of a function node")
        for g in fs:
            if g is not f:
                mon.check(FunctionNode(g) != a and not FunctionNode(g) == a, "nodes of different functions are equal", f=f.__name__, g=g.__name__)
        c = copy.deepcopy(a)
        mon.check(c == a and c.function is f and c.n_args == a.n_args, "copy of a function node")
    vals = [("x", float), ("x", int), ("y", float), (1, int), (1, float), (None, None), ("x", None), (True, bool), (0.5, float), ("f_add", None),
            ("X", float), ("x ", float), ("x0", float), ("x00", float), (-0.5, float), (None, float)]
    for v, t in vals:
        a = TerminalNode(v, t)
        mon.check(a == TerminalNode(v, t), "terminal nodes of one value and type are not equal", value=v)
        mon.eq(str(a), str(v), "text of a terminal node")
        for w, u in vals:
            if (w, u) != (v, t) or type(w) is not type(v):
                mon.check(not a == TerminalNode(w, u), "terminal nodes that differ are equal", a=(v, t), b=(w, u))
        for f in fs[:3]:
            mon.check(not a == FunctionNode(f) and not FunctionNode(f) == a, "a terminal equals a function node")
        for o in (v, None, "x", 3):
            mon.check(not a == o, "a node equals something else", other=o)
    # functions that only share their name, constants that only share their value
    same = [twins(k) for k in range(3)]
    for f in same:
        for g in same:
            mon.check((FunctionNode(f) == FunctionNode(g)) == (f is g), "equality of nodes of different functions with one name")
    for v, w in [(1, True), (1, 1.0), (0, False), (0.0, False), ("1", 1), (2, 2.0)]:
        for t in (None, float):
            mon.check(not TerminalNode(v, t) == TerminalNode(w, t), "terminal nodes that differ are equal", a=v, b=w)
    mon.event("equalities", len(fs) * len(fs) + len(vals) ** 2)
    mon.sig("nodes", tuple(f.__name__ for f in fs))


SCENARIOS = [
    Scenario(construct, 3000, 60000, needs=("accepted_nodes", "refused_nodes", "complete_programs", "restarted")),
    Scenario(nodes, 300, 3000, needs=("equalities",)),
]
