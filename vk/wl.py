"""Shared workload generators and observers (public API of EC-KitY only)."""
import copy
from fractions import Fraction
import hashlib
import inspect
import math
import random as _random
import struct
import threading
import time
import typing

import numpy as np

from eckity.algorithms import SimpleEvolution
from eckity.base import typed_functions as tf
from eckity.base import untyped_functions as uf
from eckity.base.types import t_argmax
from eckity.breeders import SimpleBreeder
from eckity.creators import (FullCreator, GABitStringVectorCreator, GAFloatVectorCreator,
                             GAIntVectorCreator, GrowCreator, HalfCreator)
from eckity.evaluators import SimpleIndividualEvaluator, SimplePopulationEvaluator
from eckity.genetic_encodings.ga import BitStringVector, FloatVector, IntVector, Vector
from eckity.genetic_encodings.gp import FunctionNode, TerminalNode, Tree
from eckity.genetic_operators import (BitStringVectorFlipMutation, BitStringVectorNFlipMutation,
                                      ERCMutation, FloatVectorGaussNPointMutation,
                                      FloatVectorGaussOnePointMutation,
                                      FloatVectorUniformNPointMutation,
                                      FloatVectorUniformOnePointMutation, GeneticOperator,
                                      FitnessProportionateSelection, IntVectorNPointMutation,
                                      IntVectorOnePointMutation, SubtreeCrossover, SubtreeMutation,
                                      TournamentSelection, VectorKPointsCrossover)
from eckity.population import Population
from eckity.subpopulation import Subpopulation


# ------------------------------------------------------------------ genomes
def num(x):
    """Exact, hashable form of a number (type included)."""
    if isinstance(x, float):
        return ("f", struct.pack(">d", x).hex() if x == x else "nan")
    if isinstance(x, bool):
        return ("b", x)
    if isinstance(x, int):
        return ("i", x)
    return (type(x).__name__, repr(x))


def node_key(n):
    if isinstance(n, FunctionNode):
        return ("F", n.function.__name__, tname(n.node_type))
    v = n.value
    return ("T", num(v) if not isinstance(v, str) else v, tname(n.node_type))


def tname(t):
    return None if t is None else t.__name__


def genome(ind):
    if isinstance(ind, Vector):
        return tuple(num(x) for x in ind.vector)
    return tuple(node_key(n) for n in ind.tree)


def h64(*key):
    return int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), "big")


# ------------------------------------------------------------------ fitness landscapes
def _f_hash(g):
    return (h64(g) % 2000001 - 1000000) / 1000.0


def _f_ties(g):
    return float(h64(g) % 3)


def _f_const(g):
    return 7.0


def _f_neg(g):
    return -1.0 - (h64(g) % 100000) / 7.0


def _f_huge(g):
    return (h64(g) % 1999 - 999) * 1e300


def _f_tiny(g):
    return (h64(g) % 1999 - 999) * 5e-324


def _f_nonneg(g):
    return (h64(g) % 1000) / 100.0


def _f_int(g):
    return int(h64(g) % 50) - 25


def _f_npfloat(g):
    return np.float64(_f_hash(g))


def _f_zeros(g):
    # signed zeros and a few others: -0.0 == 0.0 must count as a tie
    return (0.0, -0.0, 1.0, -1.0)[h64(g) % 4]


def _f_close(g):
    # values that differ in the last bits only
    v = 1.0
    for _ in range(h64(g) % 5):
        v = math.nextafter(v, 2.0)
    return v


def _f_inf(g):
    k = h64(g) % 10
    return math.inf if k == 0 else -math.inf if k == 1 else _f_hash(g)


def _f_bigint(g):
    # integers beyond the precision of floats
    return 10 ** 17 + int(h64(g) % 5) - 2


def _f_frac(g):
    return Fraction(int(h64(g) % 19) - 9, 7)


def _f_sum(g):
    s = 0.0
    for x in g:
        if x[0] == "i" or x[0] == "b":
            s += x[1]
        elif x[0] == "f":
            s += struct.unpack(">d", bytes.fromhex(x[1]))[0]
        else:
            s += 1
    return float(s)


LANDSCAPES = {"hash": _f_hash, "ties": _f_ties, "const": _f_const, "neg": _f_neg, "huge": _f_huge,
              "tiny": _f_tiny, "nonneg": _f_nonneg, "int": _f_int, "np": _f_npfloat,
              "zeros": _f_zeros, "close": _f_close, "inf": _f_inf, "sum": _f_sum, "bigint": _f_bigint, "frac": _f_frac}
USUAL = [k for k in LANDSCAPES if k != "frac"]
NONNEG = ("nonneg", "ties", "const")


class PureEval(SimpleIndividualEvaluator):
    """Deterministic evaluator; delay scrambles completion order."""

    def __init__(self, land="hash", delay=0.0, salt=0):
        super().__init__()
        self.land = land
        self.delay = delay
        self.salt = salt

    def evaluate_individual(self, individual):
        g = genome(individual)
        s = LANDSCAPES[self.land](g)
        if self.delay:
            time.sleep((h64("d", g, self.salt) % 8) * self.delay)
        return s


class CountingEval(PureEval):
    """Records every evaluation (thread executor only)."""

    def __init__(self, land="hash", delay=0.0, salt=0):
        super().__init__(land, delay, salt)
        self.log = []          # (id of the object, genome, score) in completion order
        self._lock = threading.Lock()

    def evaluate_individual(self, individual):
        s = super().evaluate_individual(individual)
        with self._lock:
            self.log.append((individual, genome(individual), s))
        return s

    def __getstate__(self):
        d = self.__dict__.copy()
        d["_lock"] = None
        d["log"] = []
        return d

    def __setstate__(self, d):
        self.__dict__.update(d)
        self._lock = threading.Lock()

    def drain(self):
        with self._lock:
            out, self.log = self.log, []
        return out


# ------------------------------------------------------------------ GP sets
def h_id(x):
    return x


def h_neg(x):
    return -x


def h_three(x, y, z):
    return x + y - z


def h_four(x, y, z, w):
    return x - y + z - w


def h_five(a, b, c, d, e):
    return a + b + c - d - e


UNTYPED_SAFE = [uf.f_add, uf.f_sub, uf.f_mul, uf.f_div, uf.f_sqrt, uf.f_log, uf.f_abs, uf.f_neg,
                uf.f_inv, uf.f_max, uf.f_min, uf.f_iflte0, uf.f_ifgt0, uf.f_iflte, uf.f_ifgt,
                uf.f_not, uf.f_if_then_else, h_three, h_four]


class Meters(float):
    pass


def t_lt(x: float, y: float) -> bool:
    return np.less(x, y)


def t_itef(c: bool, x: float, y: float) -> float:
    return np.where(c, x, y)


def t_b2i(b: bool) -> int:
    return np.multiply(b, 3)


def t_i2f(i: int) -> float:
    return np.multiply(i, 1.5)


def t_ineg(i: int) -> bool:
    return np.less(i, 0)


def t_addi(x: int, y: int) -> int:
    return np.add(x, y)


def t_muli(x: int, y: int) -> int:
    return np.multiply(x, y)


def t_itei(c: bool, x: int, y: int) -> int:
    return np.where(c, x, y)


def t_mix(i: int, b: bool, x: float) -> float:
    return np.where(b, x, i)


def t_m_of(x: float) -> Meters:
    return np.multiply(x, 0.5)


def t_m_add(a: Meters, b: Meters) -> Meters:
    return np.add(a, b)


def t_f_of(a: Meters) -> float:
    return np.multiply(a, 2.0)


TYPED_POOL = [tf.add2floats, tf.sub2floats, tf.mul2floats, tf.div2floats, tf.sqrt_float, tf.log_float,
              tf.abs_float, tf.neg_float, tf.inv_float, tf.max2floats, tf.min2floats, tf.iflte0_floats,
              tf.ifgt0_floats, tf.iflte_floats, tf.ifgt_floats, tf.and2floats, tf.or2floats,
              tf.not2floats, tf.and2ints, tf.or2ints, tf.not2ints, tf.if_then_else3ints,
              tf.and2bools, tf.or2bools, tf.not2bools, tf.if_then_else3bools,
              t_lt, t_itef, t_b2i, t_i2f, t_ineg, t_addi, t_muli, t_itei, t_mix,
              t_m_of, t_m_add, t_f_of]


def hints(f):
    """(argument types, return type), independently of the library's helpers."""
    sig = inspect.signature(f)
    h = typing.get_type_hints(f)
    return [h.get(a) for a in sig.parameters], h.get("return")


def n_args(f):
    return len(inspect.signature(f).parameters)


VAR_NAMES = ["x", "y", "z", "a0", "pos", "val", "x0", "x1", "foo", "d", "AB", "X1", "ZETA", "_t", "camelCase",
             "x_1", "e", "nan", "args", "kwargs", "res", "λ"]


def untyped_sets(rng, n_funcs=None, consts=None, names=None):
    k = n_funcs or rare(rng, [1, 2, 2, 3, 4, 6, 8], [len(UNTYPED_SAFE)], 0.04)
    funcs = rng.sample(UNTYPED_SAFE, k)
    names = list(names) if names else rng.sample(VAR_NAMES, rng.choice([1, 1, 2, 3, 4]))
    terms = list(names)
    if consts if consts is not None else rng.random() < 0.4:
        terms += rng.sample([0, 1, -1, 2.5, -0.75, 10], rng.choice([1, 2, 3]))
    rng.shuffle(terms)
    erc = rng.choice([None, None, (-1.0, 1.0), (0.0, 5.0), (-3, 3), (2.0, 2.0), (1, 1)])
    return {"typed": False, "funcs": funcs, "terms": terms, "erc": erc, "root": None,
            "vars": {n: None for n in names}}


def typed_sets(rng, allow_meters=True, names=None, types=None):
    """A type-closed typed configuration: each type has functions, terminals and is an argument."""
    pool = [float, int, bool] + ([Meters] if allow_meters else [])
    for _ in range(200):
        S = set(types) if types else set(rng.sample(pool, rng.choice([1, 1, 2, 2, 3, len(pool)])))
        cand = [f for f in TYPED_POOL if set(hints(f)[0]) | {hints(f)[1]} <= S]
        k = rare(rng, [2, 3, 5, 8, 12], [len(TYPED_POOL)], 0.04)
        funcs = rng.sample(cand, min(k, len(cand)))
        rets = {hints(f)[1] for f in funcs}
        args = {t for f in funcs for t in hints(f)[0]}
        if rets == S and args == S:
            break
    else:
        S = {float}
        funcs = [tf.add2floats, tf.neg_float]
    nm = list(names) if names else rng.sample(VAR_NAMES, len(VAR_NAMES))
    terms, variables = {}, {}
    for t in sorted(S, key=lambda t: t.__name__):
        for _ in range(rng.choice([1, 1, 2])):
            if nm:
                v = nm.pop()
                terms[v] = t
                variables[v] = t
    consts = rng.random() < 0.5
    if consts:
        if float in S and rng.random() < 0.6:
            terms[rng.choice([2.5, -0.75])] = float
        if int in S and rng.random() < 0.6:
            terms[rng.choice([7, -4])] = int
        if bool in S and rng.random() < 0.6:
            terms[rng.choice([True, False])] = bool
    erc = None
    ercs = [e for e in [(-1.0, 1.0), (0.0, 3.0), (-2, 2), (0, 1)] if type(e[0]) in S]
    if ercs and rng.random() < 0.6:
        erc = rng.choice(ercs)
    root = rng.choice(sorted({hints(f)[1] for f in funcs}, key=lambda t: t.__name__))
    items = list(terms.items())
    rng.shuffle(items)
    return {"typed": True, "funcs": funcs, "terms": dict(items), "erc": erc, "root": root,
            "vars": variables}


def gp_sets(rng):
    return typed_sets(rng) if rng.random() < 0.5 else untyped_sets(rng)


def make_tree(sets, nodes, bloat=0.0, hib=False, update_parents=False):
    from eckity.fitness import GPFitness
    return Tree(fitness=GPFitness(bloat_weight=bloat, higher_is_better=hib),
                function_set=list(sets["funcs"]),
                terminal_set=copy.copy(sets["terms"]), erc_range=sets["erc"],
                root_type=sets["root"], tree=nodes, update_parents=update_parents)


def random_nodes(rng, sets, t=None, depth=3, p_leaf=0.3, d=0):
    """Harness-side random well-typed prefix expression (independent of the creators)."""
    fs = [f for f in sets["funcs"] if hints(f)[1] == t] if sets["typed"] else sets["funcs"]
    leaf = d >= depth or not fs or (d > 0 and rng.random() < p_leaf)
    if not leaf:
        f = rng.choice(fs)
        out = [FunctionNode(f)]
        for at in hints(f)[0]:
            out += random_nodes(rng, sets, at if sets["typed"] else None, depth, p_leaf, d + 1)
        return out
    if sets["typed"]:
        ts = [k for k, v in sets["terms"].items() if v is t]
    else:
        ts = list(sets["terms"])
    if sets["erc"] is not None and (not sets["typed"] or type(sets["erc"][0]) is t):
        lo, hi = sets["erc"]
        ts = ts + [rng.uniform(lo, hi) if isinstance(lo, float) else rng.randint(lo, hi)]
    return [TerminalNode(rng.choice(ts), t if sets["typed"] else None)]


def chain_nodes(rng, sets, t, depth):
    """A deep, thin well-typed expression: one path of the given depth (or as deep as the types allow), leaves elsewhere."""
    fs = [f for f in sets["funcs"] if hints(f)[1] == t] if sets["typed"] else sets["funcs"]
    if depth <= 0 or not fs:
        return random_nodes(rng, sets, t, depth=0)
    f = rng.choice(fs)
    args = hints(f)[0]
    k = rng.randrange(len(args))
    out = [FunctionNode(f)]
    for i, at in enumerate(args):
        at = at if sets["typed"] else None
        out += chain_nodes(rng, sets, at, depth - 1) if i == k else random_nodes(rng, sets, at, depth=0)
    return out


# ------------------------------------------------------------------ tree validation
class Node:
    __slots__ = ("node", "kids", "start", "end", "depth", "parent", "arg")

    def leaves(self):
        if not self.kids:
            yield self
        for k in self.kids:
            yield from k.leaves()

    def all(self):
        yield self
        for k in self.kids:
            yield from k.all()


def parse(nodes):
    """Parses a prefix list; returns the root Node, or raises ValueError."""
    def rec(i, depth, parent, arg):
        if i >= len(nodes):
            raise ValueError(f"expression ends early (length {len(nodes)})")
        n = Node()
        n.node, n.start, n.depth, n.parent, n.arg = nodes[i], i, depth, parent, arg
        n.kids = []
        j = i + 1
        if isinstance(nodes[i], FunctionNode):
            for a in range(n_args(nodes[i].function)):
                k = rec(j, depth + 1, n, a)
                n.kids.append(k)
                j = k.end
        elif not isinstance(nodes[i], TerminalNode):
            raise ValueError(f"not a tree node: {nodes[i]!r}")
        n.end = j
        return n
    root = rec(0, 0, None, None)
    if root.end != len(nodes):
        raise ValueError(f"{len(nodes) - root.end} nodes left over")
    return root


def is_erc_value(v, sets, in_range=True):
    e = sets["erc"]
    if e is None or type(v) is not type(e[0]):
        return False
    return (not in_range) or (min(e) <= v <= max(e))


def same_const(a, b):
    return type(a) is type(b) and a == b


def check_tree(mon, ind, sets, what, mutated_consts=False):
    """Well-formedness and typing monitor. Returns the parsed expression."""
    nodes = ind.tree
    try:
        root = parse(nodes)
    except ValueError as e:
        mon.fail(f"{what}: tree is not a complete prefix expression: {e}", tree=[node_key(n) for n in nodes])
    mon.event("trees_validated")
    mon.event("nodes_validated", len(nodes))
    desc = None
    for p in root.all():
        n = p.node
        if isinstance(n, FunctionNode):
            mon.check(any(n.function is f for f in sets["funcs"]),
                      f"{what}: function not in the function set", node=n)
            args, ret = hints(n.function)
            if sets["typed"]:
                mon.check(n.node_type is ret, f"{what}: function node carries a wrong type", node=n,
                          node_type=n.node_type, want=ret)
            else:
                mon.check(n.node_type is None, f"{what}: untyped node carries a type", node=n)
        else:
            v = n.value
            if sets["typed"]:
                declared = [k for k, t in sets["terms"].items()
                            if (k == v if isinstance(v, str) else (not isinstance(k, str) and same_const(k, v)))
                            and t is n.node_type]
                erc_ok = (is_erc_value(v, sets, not mutated_consts)
                          and n.node_type is type(sets["erc"][0]))
                mut_ok = (mutated_consts and not isinstance(v, (str, bool)) and n.node_type in (int, float)
                          and type(v) is n.node_type)
                mon.check(bool(declared) or erc_ok or mut_ok,
                          f"{what}: terminal is neither declared with its node type nor a constant of the range",
                          value=v, node_type=n.node_type, terminals=sets["terms"], erc=sets["erc"])
            else:
                declared = any((k == v if isinstance(v, str) else (not isinstance(k, str) and same_const(k, v)))
                               for k in sets["terms"])
                mut_ok = mutated_consts and not isinstance(v, str)
                mon.check(declared or is_erc_value(v, sets) or mut_ok,
                          f"{what}: terminal is neither in the terminal set nor in the constant range",
                          value=v, terminals=sets["terms"], erc=sets["erc"])
                mon.check(n.node_type is None, f"{what}: untyped terminal carries a type", node=n)
        if sets["typed"]:
            want = sets["root"] if p.parent is None else hints(p.parent.node.function)[0][p.arg]
            mon.check(n.node_type is want,
                      f"{what}: " + ("root type" if p.parent is None else "argument type") + " is wrong",
                      node=n, got=n.node_type, want=want,
                      parent=None if p.parent is None else p.parent.node)
    mon.eq(ind.size(), len(nodes), f"{what}: size disagrees with the number of nodes")
    mon.eq(ind.depth(), max(l.depth for l in root.leaves()), f"{what}: depth disagrees with the expression")
    ids = [id(n) for n in nodes]
    mon.check(len(set(ids)) == len(ids), f"{what}: a node object occurs twice in one tree")
    return root


# ------------------------------------------------------------------ operators
class Opaque(GeneticOperator):
    """User-defined operator: rewrites genomes in place with values never seen before, records its inputs."""
    counter = 10 ** 6

    def __init__(self, probability=1.0, arity=1, events=None):
        super().__init__(probability=probability, arity=arity, events=events)
        self.seen = []

    def apply(self, individuals):
        self.seen.append(list(individuals))
        for ind in individuals:
            if isinstance(ind, Vector):
                for i in range(ind.size()):
                    Opaque.counter += 1
                    ind.set_cell_value(i, Opaque.counter)
        return individuals


def vector_ops(rng, enc, length, allow_opaque=False):
    """A random operator sequence for a vector encoding: list of (description, factory)."""
    pr = lambda: rng.choice([0.0, 0.2, 0.5, 0.9, 1.0, 1.0])
    ops = []
    if length >= 2 and rng.random() < 0.8:
        k = rng.randint(1, min(length - 1, rng.choice([1, 2, 3, 6])))
        p = pr()
        ops.append((f"kxo(k={k},p={p})", lambda k=k, p=p: VectorKPointsCrossover(probability=p, k=k)))
    n = rng.randint(1, length)
    p = pr()
    pe = rng.choice([0.0, 0.1, 0.5, 1.0])
    sg = rng.choice([0.01, 1.0, 50.0])
    if enc == "bit":
        ops.append(rng.choice([
            (f"flip(p={p})", lambda: BitStringVectorFlipMutation(probability=p)),
            (f"nflip(n={n},pe={pe},p={p})",
             lambda: BitStringVectorNFlipMutation(probability=p, n=n, probability_for_each=pe))]))
    elif enc == "int":
        ops.append(rng.choice([
            (f"int1(pe={pe},p={p})", lambda: IntVectorOnePointMutation(probability=p, probability_for_each=pe)),
            (f"intn(n={n},p={p})", lambda: IntVectorNPointMutation(probability=p, n=n))]))
    else:
        ops.append(rng.choice([
            (f"fu1(p={p})", lambda: FloatVectorUniformOnePointMutation(probability=p)),
            (f"fun(n={n},p={p})", lambda: FloatVectorUniformNPointMutation(n=n, probability=p)),
            (f"fg1(s={sg},p={p})", lambda: FloatVectorGaussOnePointMutation(probability=p, sigma=sg)),
            (f"fgn(n={n},s={sg},p={p})", lambda: FloatVectorGaussNPointMutation(n=n, probability=p, sigma=sg))]))
    rng.shuffle(ops)
    return ops


def vector_bounds(rng, enc, length):
    if enc == "bit":
        return [(0, 1)] * length if rng.random() < 0.25 else (0, 1)
    if enc == "int":
        mk = lambda: rng.choice([(0, 1), (0, 9), (-5, 5), (3, 3), (-100, -90), (0, 10 ** 9), (-1, 0)])
    else:
        mk = lambda: rng.choice([(0.0, 1.0), (-1.0, 1.0), (2.5, 2.5), (-1e6, 1e6), (-7.0, -6.5), (0.0, 1e-9)])
    if rng.random() < 0.5:
        return [mk() for _ in range(length)]
    return mk()


CREATORS = {"bit": GABitStringVectorCreator, "int": GAIntVectorCreator, "float": GAFloatVectorCreator}


def rare(rng, usual, big, p=0.03):
    """One of the usual sizes, now and then a big one (size-dependent shortcuts only show there)."""
    return rng.choice(big) if rng.random() < p else rng.choice(usual)


# ------------------------------------------------------------------ run configurations
def draw_cfg(rng, encs=("bit", "int", "float", "gp", "gpt"), lands=None, executors=("thread",),
             max_gen=None, elit=None, pops=None, big=0.03, warm=0.1):
    c = {}
    c["enc"] = rng.choice(encs)
    arity2 = True
    c["hib"] = rng.random() < 0.5
    if pops:
        c["pop"] = rng.choice(pops)
    elif rng.random() < big:
        c["pop"] = rng.choice([64, 100, 130, 300, 300, 1100])
    else:
        c["pop"] = rng.choice([2, 4, 4, 6, 6, 8, 10, 12, 16, 20, 32])
    g = max_gen if max_gen is not None else rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12])
    if c["pop"] >= 64:
        g = min(g, 3 if c["pop"] < 1000 else 1)
    elif max_gen is None and rng.random() < 0.02:
        g = rng.choice([40, 70, 120]) if c["pop"] > 8 else rng.choice([70, 120, 270])
    if c["enc"] in ("gp", "gpt"):
        g = min(g, 40)      # programs of long runs without bloat control outgrow Python's recursion limit
    c["gens"] = g
    c["seed"] = rng.choice([0, 1, 2 ** 32 - 1, 2 ** 32 - 2, rng.randrange(2 ** 32), rng.randrange(1000)])
    c["land"] = rng.choice(lands or USUAL)
    c["elit"] = rng.choice(elit) if elit else rng.choice([0.0, 0.0, 0.05, 0.1, 0.25, 0.3, 0.5, 0.5, 0.75, 1.0])
    c["exec"] = rng.choice(executors)
    c["workers"] = rng.choice([1, 2, 3, 4, 8, None]) if c["exec"] == "thread" else rng.choice([1, 2, 3])
    c["method"] = rng.choice(["map", "submit"])
    c["delay"] = 0.0
    ts = rng.choice([1, 2, 2, 3, 4, 7, 10])
    sel = rng.choice(["t", "t", "tn", "fp"])
    if sel == "tn":
        ts = min(ts, c["pop"])
    c["sel"] = (sel, ts)
    if sel == "fp" and (c["land"] not in NONNEG or not c["hib"] and c["land"] == "huge"):
        c["land"] = rng.choice(NONNEG)
    c["bloat"] = 0.0
    c["opseed"] = rng.getrandbits(40)
    if c["enc"] in CREATORS:
        c["length"] = rare(rng, [1, 2, 2, 3, 5, 8, 20], [33, 70, 130, 260])
        r2 = _random.Random(c["opseed"])
        c["bounds"] = vector_bounds(r2, c["enc"], c["length"])
        c["ops"] = [d for d, _ in vector_ops(r2, c["enc"], c["length"])]
    else:
        c["bloat"] = rng.choice([0.0, 0.0, 0.1, 1.0, 50.0])
        if c["sel"][0] == "fp" and c["hib"]:
            c["bloat"] = 0.0   # augmented fitness must stay non-negative
        c["depth"] = rng.choice([(0, 2), (1, 2), (2, 3), (1, 4), (2, 4)])
        c["creator"] = rng.choice(["full", "grow", "half"])
        if c["creator"] == "half" and c["pop"] < 2 * (c["depth"][1] + 1 - c["depth"][0]):
            c["creator"] = "grow"
        c["ops"] = rng.choice([["xo", "sm"], ["xo", "sm", "erc"], ["sm"], ["erc", "xo"], ["xo"]])
        c["p"] = rng.choice([0.0, 0.3, 0.9, 1.0])
    c["warm"] = rng.choice(["new", "aged", "aged", "mated"]) if rng.random() < warm else None
    return c


def warm_start(kind, seed, creator, n, hib, scores=lambda r: r.uniform(-50, 50)):
    """A given initial population: new individuals, or individuals with the past of another run (stale fitness, generation
    number, parent, history). Leaves the global generators as they were."""
    st, nst = _random.getstate(), np.random.get_state()
    r = _random.Random(seed ^ 0x5bd1)
    _random.seed(r.getrandbits(32))
    np.random.seed(r.getrandbits(32))
    try:
        inds = list(creator.create_individuals(n, hib))
    finally:
        _random.setstate(st)
        np.random.set_state(nst)
    if kind != "new":
        for i in inds:
            if kind == "mated":        # (partly evaluated, mixed ages)
                if r.random() < 0.5:
                    continue
            if scores is not None:
                i.fitness.set_fitness(scores(r))
            if hasattr(i.fitness, "front_rank"):
                i.fitness.front_rank, i.fitness.crowding = r.randint(1, 3), r.choice([0, 0.5, 1.25, math.inf])
            i.gen = r.choice([0, 1, 3, 17, 200])
            i.cloned_from = r.choice([None, 1, i.id - 1, 10 ** 9])
            i.selected_by = r.choice([[], ["TournamentSelection"], ["ElitismSelection"]])
            i.applied_operators = r.choice([[], ["Earlier"], ["Earlier", "Later"]])
    return inds


def cfg_sig(c):
    return tuple(sorted((k, str(v)) for k, v in c.items()))


def selection(c):
    kind, ts = c["sel"]
    if kind == "fp":
        return FitnessProportionateSelection(higher_is_better=c["hib"])
    return TournamentSelection(tournament_size=ts, higher_is_better=c["hib"], replace=kind == "t")


def build_parts(c, evaluator=None, extra_ops=(), update_parents=False):
    """Creator, operators and sets for a configuration (fresh components on every call)."""
    r2 = _random.Random(c["opseed"])
    sets = None
    if c["enc"] in CREATORS:
        bounds = vector_bounds(r2, c["enc"], c["length"])
        ops = [f() for _, f in vector_ops(r2, c["enc"], c["length"])]
        creator = CREATORS[c["enc"]](length=c["length"], bounds=bounds, update_parents=update_parents)
    else:
        sets = typed_sets(r2) if c["enc"] == "gpt" else untyped_sets(r2)
        lo, hi = c["depth"]
        # a typed root below depth 1 must be able to be a terminal
        if sets["typed"] and lo == 0:
            lo = 1
        kw = dict(init_depth=(lo, hi), function_set=list(sets["funcs"]),
                  terminal_set=copy.copy(sets["terms"]), erc_range=sets["erc"], root_type=sets["root"],
                  bloat_weight=c["bloat"])
        creator = {"full": FullCreator, "grow": GrowCreator, "half": HalfCreator}[c["creator"]](**kw)
        mk = {"xo": lambda: SubtreeCrossover(probability=c["p"]),
              "sm": lambda: SubtreeMutation(probability=c["p"], init_depth=(1, 2)),
              "erc": lambda: ERCMutation(probability=c["p"])}
        ops = [mk[o]() for o in c["ops"]]
    return creator, list(ops) + list(extra_ops), sets


def build(c, evaluator=None, statistics=None, termination_checker=None, cls=SimpleEvolution, extra_ops=(),
          breeder=None, rng_obj=None, individuals=None, update_parents=False, **kw):
    creator, ops, sets = build_parts(c, extra_ops=extra_ops, update_parents=update_parents)
    ev = evaluator or PureEval(c["land"], c["delay"])
    if individuals is None and c.get("warm"):
        individuals = warm_start(c["warm"], c["opseed"], creator, c["pop"], c["hib"])
    sp = Subpopulation(creators=creator, population_size=c["pop"], evaluator=ev,
                       higher_is_better=c["hib"], elitism_rate=c["elit"], operators_sequence=ops,
                       selection_methods=[(selection(c), 1)], individuals=individuals)
    args = dict(population_evaluator=SimplePopulationEvaluator(executor_method=c["method"]),
                max_generation=c["gens"], executor=c["exec"], max_workers=c["workers"],
                random_seed=c["seed"], termination_checker=termination_checker)
    if statistics is not None:
        args["statistics"] = statistics
    if breeder is not None:
        args["breeder"] = breeder
    if rng_obj is not None:
        args["random_generator"] = rng_obj
    args.update(kw)
    algo = cls(sp, **args)
    return algo, sp, sets


# ------------------------------------------------------------------ independent fitness order
def aug(ind, score, c):
    """Bloat-adjusted score of an individual, computed from the evaluator's score."""
    if c["bloat"] == 0:
        return score
    n = len(ind.tree)
    return score - c["bloat"] * n if c["hib"] else score + c["bloat"] * n


def better(a, b, hib):
    return a > b if hib else a < b


def best_of(vals, hib):
    return max(vals) if hib else min(vals)


def close(a, b, rel=1e-9, absol=1e-12):
    if a == b:
        return True
    try:
        return math.isclose(a, b, rel_tol=rel, abs_tol=absol)
    except (TypeError, OverflowError):
        return False


# ------------------------------------------------------------------ independent interpreter
def interp(nodes, env):
    """Value of a prefix expression, computed right to left with a stack."""
    st = []
    for n in reversed(nodes):
        if isinstance(n, FunctionNode):
            k = n_args(n.function)
            args = [st.pop() for _ in range(k)]
            st.append(n.function(*args))
        elif isinstance(n.value, str):
            st.append(env[n.value])
        else:
            st.append(n.value)
    if len(st) != 1:
        raise ValueError("not an expression")
    return st[0]


def draw_value(rng, t):
    if t is bool:
        return rng.random() < 0.5
    if t is int:
        return rng.choice([0, 1, -1, 2, 7, -13, rng.randint(-100, 100)])
    return rng.choice([0.0, 1.0, -1.0, 0.5, 0.0005, -0.001, rng.uniform(-10, 10), rng.uniform(-1000, 1000)])


def draw_env(rng, sets):
    return {k: draw_value(rng, t) for k, t in sets["vars"].items()}


def same_value(a, b):
    """Equal results of two executions of the same arithmetic (nan equals nan)."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "fc" or b.dtype.kind in "fc":
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.array_equal(a, b))


# ------------------------------------------------------------------ histories of runs
def snap_pop(sp):
    return tuple((genome(i), fit_key(i)) for i in sp.individuals)


def fit_key(ind):
    f = ind.get_pure_fitness()
    if isinstance(f, (list, tuple)):
        return tuple(num(x) for x in f)
    return num(f)


def history(algo, sp):
    """Runs the algorithm; returns the sequence of (population snapshot, best of run) per generation."""
    out = []

    def rec(s, d):
        b = s.best_of_run_
        out.append((snap_pop(sp), genome(b)))

    algo.register("init", rec)
    algo.register("after_generation", rec)
    algo.evolve()
    out.append((snap_pop(sp), genome(algo.best_of_run_)))
    return out


def state_ids(ind):
    """Identities of the mutable parts an individual owns."""
    out = {id(ind): "individual", id(ind.fitness): "fitness", id(ind.selected_by): "selected_by",
           id(ind.applied_operators): "applied_operators"}
    if getattr(ind, "update_parents", False):
        out[id(ind.parents)] = "parents"
    if isinstance(ind, Vector):
        out[id(ind.vector)] = "vector"
    else:
        out[id(ind.tree)] = "tree"
        for n in ind.tree:
            out[id(n)] = "tree node"
    return out


def record_op(op, log):
    """Observes the op's apply(): log gets (class name, inputs, results)."""
    orig = op.apply

    def apply(individuals):
        before = list(individuals)
        res = orig(individuals)
        log.append((type(op).__name__, before, list(res)))
        return res

    op.apply = apply
    return op


def stat_ok(count, n, p, z=6.5):
    """Is a binomial count plausible? (false alarm rate far below 1e-9, also for tiny n*p)"""
    if p <= 0:
        return count == 0
    if p >= 1:
        return count == n
    return abs(count - n * p) <= z * math.sqrt(n * p * (1 - p)) + 6
