"""C13: vector mutation and failing operators."""
import math
import random

from eckity.fitness import SimpleFitness
from eckity.genetic_encodings.ga import BitStringVector, FloatVector, IntVector
from eckity.genetic_operators import (BitStringVectorFlipMutation, BitStringVectorNFlipMutation, FailableOperator,
                                      FloatVectorGaussNPointMutation, FloatVectorGaussOnePointMutation,
                                      FloatVectorUniformNPointMutation, FloatVectorUniformOnePointMutation,
                                      IntVectorNPointMutation, IntVectorOnePointMutation)
from eckity.genetic_operators.mutations.vector_n_point_mutation import VectorNPointMutation

from vk import wl
from vk.core import Scenario

PROPERTY = "C13"
LEVEL = "exploration"
RULE = ("A case is a mutation of every library class with drawn n, arity, bounds and parameters, observed cell by cell; a "
        "statistical batch (which cells are chosen, distribution of the Gaussian shifts); or an operator whose success checker, "
        "cell selector and value getter follow a drawn script (any pattern of rejections over attempts and individuals), where "
        "the monitor compares every intermediate vector, the number of attempts and the final vectors with the script's model. "
        "Non-trivial: at least one mutation or attempt observed; distinct by parameters and script.")
ASSUMPTIONS = ["statistical limits at 6.5 standard deviations and 6 counts",
               "IntVectorOnePointMutation is documented per cell, so only closure is required of it (see C11)"]
CLS = {"bit": BitStringVector, "int": IntVector, "float": FloatVector}


def make(rng, enc, n, b):
    v = CLS[enc](SimpleFitness(1.0), n, b, vector=[0] * n)
    return CLS[enc](SimpleFitness(1.0), n, b, vector=[v.get_random_number_in_bounds(i) for i in range(n)])


def changed(a, b):
    return [i for i in range(len(a)) if wl.num(a[i]) != wl.num(b[i])]


def points(rng, mon):
    """Number and place of changed cells."""
    n_cells = wl.rare(rng, [1, 2, 3, 5, 9, 17], [33, 65, 130, 300])
    n = rng.choice([1, n_cells, rng.randint(1, n_cells)])
    ar = rng.choice([1, 1, 2, 3])
    pe = rng.choice([0.0, 0.5, 1.0])
    kind = rng.choice(["flip", "nflip", "intn", "fu1", "fun", "fg1", "fgn", "gen_bit", "gen_int", "gen_float", "int1"])
    enc = {"flip": "bit", "nflip": "bit", "intn": "int", "int1": "int", "gen_bit": "bit", "gen_int": "int"}.get(kind, "float")
    b = (0, 1) if enc == "bit" else rng.choice([(0, 3), (-50, 50), (0, 10 ** 9)]) if enc == "int" else \
        rng.choice([(0.0, 1.0), (-1e6, 1e6)])
    if enc != "bit" and rng.random() < 0.5:
        b = [b] * n_cells
    sg = rng.choice([1e-3, 0.1])
    op = {"flip": lambda: BitStringVectorFlipMutation(1.0, ar), "nflip": lambda: BitStringVectorNFlipMutation(
        1.0, ar, n=n, probability_for_each=pe), "intn": lambda: IntVectorNPointMutation(1.0, ar, n=n),
        "int1": lambda: IntVectorOnePointMutation(1.0, ar, probability_for_each=pe),
        "fu1": lambda: FloatVectorUniformOnePointMutation(1.0, ar), "fun": lambda: FloatVectorUniformNPointMutation(n, 1.0, ar),
        "fg1": lambda: FloatVectorGaussOnePointMutation(1.0, ar, sigma=sg), "fgn": lambda: FloatVectorGaussNPointMutation(
            n, 1.0, ar, sigma=sg)}.get(kind, lambda: VectorNPointMutation(n=n, probability=1.0, arity=ar))()
    if kind in ("flip", "fu1", "fg1"):
        n = 1
    inds = [make(rng, enc, n_cells, b) for _ in range(ar)]
    other = make(rng, enc, n_cells, b)
    o0 = list(other.vector)
    before = [list(i.vector) for i in inds]
    meta = [(i.bounds, i.id, i.gen, i.cloned_from, i.length) for i in inds]
    res = op.apply_operator(list(inds)) if rng.random() < 0.7 else op.act(list(inds))
    mon.eq(len(res), ar, "number of individuals returned")
    for k, (ind, v0, m) in enumerate(zip(res, before, meta)):
        ch = changed(v0, ind.vector)
        mon.eq(ind.size(), n_cells, "length after mutation")
        if kind == "int1":
            if pe == 0.0:
                mon.eq(ch, [], "cells mutated with probability 0 each")
        elif kind == "flip" or (kind == "nflip" and pe == 1.0):
            mon.eq(len(ch), n, f"number of flipped cells ({kind})", individual=k, n=n)
        elif kind == "nflip" and pe == 0.0:
            mon.eq(ch, [], "cells flipped with probability 0 each")
        elif kind in ("fu1", "fun", "fg1", "fgn", "gen_float"):
            mon.eq(len(ch), n, f"number of changed cells ({kind})", individual=k, cells=n_cells)
        else:
            mon.check(len(ch) <= n, f"more than n cells changed ({kind})", changed=ch, n=n, individual=k)
        if enc == "bit":
            mon.check(all(ind.vector[i] == 1 - v0[i] for i in ch), "a flip did not toggle the bit")
        mon.eq((ind.bounds, ind.id, ind.gen, ind.cloned_from, ind.length), m, "mutation changed more than the genome")
    mon.eq(other.vector, o0, "mutation changed another individual")
    mon.event("mutations_observed", ar)
    mon.event("kind:" + kind)
    mon.sig(kind, n_cells, n, ar, pe, str(b))
    mon.show(kind=kind, cells=n_cells, n=n, arity=ar)


def choice_law(rng, mon):
    """All cells (and sets of n cells) can be chosen, about equally often."""
    kind = rng.choice(["flip", "nflip", "intn", "fu1", "fun", "gen"])
    cells = wl.rare(rng, [1, 2, 3, 4, 6], [12, 40], 0.1)
    n = 1 if kind in ("flip", "fu1") else rng.randint(1, cells)
    T = 1500
    enc = "bit" if kind in ("flip", "nflip") else "int" if kind == "intn" else "float"
    b = (0, 1) if enc == "bit" else (0, 2 ** 40) if enc == "int" else (0.0, 1.0)
    op = {"flip": lambda: BitStringVectorFlipMutation(), "nflip": lambda: BitStringVectorNFlipMutation(
        n=n, probability_for_each=1.0), "intn": lambda: IntVectorNPointMutation(n=n),
        "fu1": lambda: FloatVectorUniformOnePointMutation(), "fun": lambda: FloatVectorUniformNPointMutation(n=n),
        "gen": lambda: VectorNPointMutation(n=n)}[kind]()
    ind = make(rng, enc, cells, b)
    cnt = [0] * cells
    for _ in range(T):
        v0 = list(ind.vector)
        ind = op.apply_operator([ind])[0]
        for i in changed(v0, ind.vector):
            cnt[i] += 1
    for i in range(cells):
        mon.check(wl.stat_ok(cnt[i], T, n / cells) if n < cells else cnt[i] >= T - 6, "cells are not chosen equally often",
                  counts=cnt, n=n, cells=cells, kind=kind)
        mon.event("law_comparisons")
    mon.sig(kind, cells, n)
    mon.show(kind=kind, cells=cells, n=n, counts=cnt)


def gauss_law(rng, mon):
    mu = rng.choice([0.0, 0.0, 3.0, -100.0])
    sg = rng.choice([0.0, 0.01, 1.0, 25.0])
    cells = rng.choice([1, 3])
    n = rng.randint(1, cells)
    T = 2000
    shifts = []
    how = rng.choice(["one", "n", "direct"])
    op = FloatVectorGaussOnePointMutation(mu=mu, sigma=sg) if how == "one" else FloatVectorGaussNPointMutation(
        n=n, mu=mu, sigma=sg)
    while len(shifts) < T:
        ind = FloatVector(SimpleFitness(), cells, (-1e12, 1e12), vector=[float(rng.randint(-5, 5)) for _ in range(cells)])
        v0 = list(ind.vector)
        if how == "direct":
            i = rng.randrange(cells)
            shifts.append(ind.get_random_number_with_gauss(i, mu, sg) - v0[i])
            mon.eq(ind.vector, v0, "drawing a mutated value changed the vector")
            continue
        r = op.apply_operator([ind])[0]
        ch = changed(v0, r.vector)
        if sg > 0:
            mon.eq(len(ch), 1 if how == "one" else n, "number of shifted cells")
        for i in (ch if sg > 0 else range(cells)):
            shifts.append(r.vector[i] - v0[i])
    if sg == 0:
        mon.check(all(wl.close(s, mu, 1e-9, 1e-9) or (s == 0 and how != "direct") for s in shifts),
                  "shift without deviation is not the mean", mu=mu, shifts=shifts[:5])
    else:
        m = sum(shifts) / len(shifts)
        var = sum((s - mu) ** 2 for s in shifts) / len(shifts)
        k = len(shifts)
        mon.check(abs(m - mu) <= 6.5 * sg / math.sqrt(k) + 1e-9, "mean of the Gaussian shifts", mean=m, mu=mu, sigma=sg)
        mon.check(abs(var - sg ** 2) <= 6.5 * sg ** 2 * math.sqrt(2 / k) + 1e-9, "deviation of the Gaussian shifts",
                  deviation=math.sqrt(var), sigma=sg)
    mon.event("shifts_observed", len(shifts))
    mon.sig(mu, sg, cells, n, how)
    mon.show(mu=mu, sigma=sg, how=how, samples=len(shifts))


class Scripted(FailableOperator):
    def __init__(self, script, attempts, arity):
        super().__init__(probability=1.0, arity=arity, attempts=attempts)
        self.script = script
        self.calls = []
        self.fails = []

    def attempt_operator(self, payload, attempt_num):
        self.calls.append((payload, attempt_num))
        return self.script[len(self.calls) - 1], [wl_clone(p, len(self.calls)) for p in payload]

    def on_fail(self, payload):
        self.fails.append(payload)
        return super().on_fail(payload)


def wl_clone(p, k):
    c = IntVector(SimpleFitness(), p.size(), p.bounds, vector=[k] * p.size())
    return c


def protocol(rng, mon):
    """The attempt protocol of failable operators."""
    at = wl.rare(rng, [1, 1, 2, 3, 5, 8], [12, 20, 70, 150], 0.08)
    ar = rng.choice([1, 2, 3])
    p_ok = rng.choice([0.0, 0.1, 0.5]) if at < 10 else rng.choice([0.0, 0.01, 0.05])
    script = [rng.random() < p_ok for _ in range(at + 3)]
    op = Scripted(script, at, ar)
    inds = [IntVector(SimpleFitness(), 2, (0, 99), vector=[0, 0]) for _ in range(ar)]
    given = list(inds)
    res = op.apply_operator(given)
    first = next((k for k in range(at) if script[k]), None)
    mon.eq(len(op.calls), at if first is None else first + 1, "number of attempts", script=script, attempts=at)
    mon.eq([c[1] for c in op.calls], list(range(len(op.calls))), "attempt numbers")
    for p, _ in op.calls:
        mon.check(len(p) == ar and all(a is b for a, b in zip(p, inds)), "an attempt got other individuals")
    mon.eq(len(op.fails), 1 if first is None else 0, "calls of the failure handling", script=script, attempts=at)
    if first is None:
        mon.check(all(a is b for a, b in zip(op.fails[0], inds)) and len(op.fails[0]) == ar,
                  "the failure handling got other individuals")
        mon.check(len(res) == ar and all(a is b for a, b in zip(res, inds)), "result of a failed operator")
    else:
        mon.eq([list(r.vector) for r in res], [[first + 1] * 2] * ar, "result is not that of the first success")
    mon.event("protocol_attempts", len(op.calls))
    mon.event("protocol_failures" if first is None else "protocol_successes")
    mon.sig(at, ar, tuple(script[:at]))


def rollback(rng, mon):
    """VectorNPointMutation with scripted selector, values and success checker."""
    cells = wl.rare(rng, [1, 2, 3, 5], [20, 130])
    n = rng.randint(1, cells)
    ar = rng.choice([1, 1, 2, 3])
    at = wl.rare(rng, [1, 2, 3, 5], [12, 40, 110], 0.05)
    enc = rng.choice(["bit", "int", "float"])
    p_ok = rng.choice([0.0, 0.3, 0.6, 0.9, 1.0]) if at < 10 else rng.choice([0.0, 0.05, 0.3])
    script = [rng.random() < p_ok for _ in range(at * ar + 5)]
    inds = [make(rng, enc, cells, (0, 1) if enc == "bit" else (0, 9) if enc == "int" else (0.0, 9.0)) for _ in range(ar)]
    orig = [list(i.vector) for i in inds]
    idx = {id(i): k for k, i in enumerate(inds)}
    st = {"checks": 0, "log": [], "fails": 0, "val": 1000}
    cur = {}

    def getter(vec, i):
        st["val"] += 1
        cur.setdefault(idx[id(vec)], {})[i] = st["val"]
        return st["val"]

    def selector(vec):
        sel = rng.sample(range(cells), n)
        k = idx[id(vec)]
        mon.eq(list(vec.vector), orig[k], "an attempt does not start from the original vector", individual=k,
               attempts_so_far=st["checks"])
        return sel

    def checker(old, new):
        k = idx[id(new)]
        want = list(orig[k])
        for i, v in cur[k].items():
            want[i] = v
        mon.eq(list(old.vector), orig[k], "the checker's old vector is not the original")
        mon.eq(list(new.vector), want, "the checker's new vector is not the mutated one")
        mon.eq(len(cur[k]), n, "number of mutated cells")
        ok = script[st["checks"]]
        st["checks"] += 1
        st["log"].append((k, ok, dict(cur[k])))
        cur.pop(k)
        return ok

    class Op(VectorNPointMutation):
        def on_fail(self, payload):
            st["fails"] += 1
            mon.eq([list(i.vector) for i in inds], orig, "individuals are not restored when the failure handling runs")
            return super().on_fail(payload)

    custom_sel = rng.random() < 0.7
    op = Op(n=n, probability=1.0, arity=ar, cell_selector=selector if custom_sel else None, mut_val_getter=getter,
            success_checker=checker, attempts=at)
    meta = [(i.bounds, i.id, i.gen, i.cloned_from, i.length, i.size()) for i in inds]
    res = op.apply_operator(list(inds))
    # model: an attempt succeeds if the checker accepts all individuals of it
    pos, ok_at = 0, None
    for a in range(at):
        good = True
        for k in range(ar):
            ok = script[pos]
            pos += 1
            if not ok:
                good = False
                break
        if good:
            ok_at = a
            break
    mon.eq(st["checks"], pos, "number of success checks", script=script[:pos + 2], attempts=at, arity=ar)
    mon.eq(st["fails"], 1 if ok_at is None else 0, "calls of the failure handling")
    want = [list(v) for v in orig]
    if ok_at is not None:
        for k, ok, d in st["log"][pos - ar:pos]:
            for i, v in d.items():
                want[k][i] = v
    mon.eq([list(r.vector) for r in res], want, "individuals after the operator", succeeded=ok_at, arity=ar,
           original=orig)
    mon.check(len(res) == ar and all(a is b for a, b in zip(res, inds)), "other individuals were returned")
    mon.eq([(i.bounds, i.id, i.gen, i.cloned_from, i.length, i.size()) for i in inds], meta,
           "the operator changed more than the genome")
    mon.event("attempts_rolled_back", (ok_at if ok_at is not None else at))
    mon.event("rollback_failures" if ok_at is None else "rollback_successes")
    mon.sig(cells, n, ar, at, tuple(script[:pos]))
    mon.show(cells=cells, n=n, arity=ar, attempts=at, checks=script[:pos], succeeded_at=ok_at)


class GV(FloatVector):
    """Float vector whose Gaussian draws follow a script: draw number -> offset outside or inside the bounds."""

    def get_random_number_with_gauss(self, index, mu, sigma):
        self.ctl["draws"].append((index, mu, sigma))
        k = len(self.ctl["draws"]) - 1
        lo, hi = self.bounds[index] if isinstance(self.bounds, list) else self.bounds
        return (lo + hi) / 2 + (hi - lo) * 1e-3 * (k % 7 + 1) if self.ctl["script"][k] else \
            self.ctl["rng"].choice([lo - 1.0, hi + 1.0])

    def __deepcopy__(self, memo):
        import copy
        c = self.__class__.__new__(self.__class__)
        memo[id(self)] = c
        for a, v in self.__dict__.items():
            setattr(c, a, v if a == "ctl" else copy.deepcopy(v, memo))
        return c


def gauss_fallback(rng, mon):
    cells = wl.rare(rng, [1, 2, 3, 6], [20, 130])
    one = rng.random() < 0.5
    n = 1 if one else rng.randint(1, cells)
    at = wl.rare(rng, [1, 2, 3, 5], [12, 40, 110], 0.05)
    p_in = rng.choice([0.0, 0.0, 0.5, 0.9])
    script = [rng.random() < p_in for _ in range(at * n)]
    ctl = {"draws": [], "script": script, "rng": random.Random(1)}
    b = (-2.0, 5.0) if rng.random() < 0.5 else [(float(i), i + 2.0) for i in range(cells)]
    ind = GV(SimpleFitness(1.0), cells, b, vector=[(b[i] if isinstance(b, list) else b)[0] + 0.25 for i in range(cells)])
    ind.ctl = ctl
    v0 = list(ind.vector)
    prob = rng.choice([1.0, 1.0, 0.5, 0.01])
    op = FloatVectorGaussOnePointMutation(prob, mu=0.5, sigma=2.0, attempts=at) if one else FloatVectorGaussNPointMutation(
        n, prob, mu=0.5, sigma=2.0, attempts=at)
    res = op.apply([ind])
    ok_at = next((a for a in range(at) if all(script[a * n:(a + 1) * n])), None)
    mon.eq(len(ctl["draws"]), n * (at if ok_at is None else ok_at + 1), "number of Gaussian draws", attempts=at, n=n,
           script=script)
    mon.check(all(d[1:] == (0.5, 2.0) for d in ctl["draws"]), "parameters of the Gaussian draws", draws=ctl["draws"])
    ch = changed(v0, res[0].vector)
    lohi = [(b[i] if isinstance(b, list) else b) for i in range(cells)]
    mon.check(all(lo <= x <= hi for x, (lo, hi) in zip(res[0].vector, lohi)), "out of bounds after Gaussian mutation",
              vector=res[0].vector, bounds=b)
    if ok_at is None:
        mon.event("gauss_fallbacks")
        mon.eq(len(ch), n, "cells changed by the uniform fallback", n=n, probability=prob)
    else:
        mon.event("gauss_successes")
        mon.eq(sorted(ch), sorted(d[0] for d in ctl["draws"][ok_at * n:]), "cells changed by Gaussian mutation")
    mon.sig(cells, n, at, tuple(script), one)


SCENARIOS = [
    Scenario(points, 6000, 100000, needs=("mutations_observed",) + tuple("kind:" + k for k in (
        "flip", "nflip", "intn", "fu1", "fun", "fg1", "fgn", "gen_bit", "gen_int", "gen_float", "int1"))),
    Scenario(choice_law, 96, 1200, needs=("law_comparisons",)),
    Scenario(gauss_law, 64, 800, needs=("shifts_observed",)),
    Scenario(protocol, 2000, 30000, needs=("protocol_failures", "protocol_successes")),
    Scenario(rollback, 4000, 80000, needs=("attempts_rolled_back", "rollback_failures", "rollback_successes")),
    Scenario(gauss_fallback, 2000, 30000, needs=("gauss_fallbacks", "gauss_successes")),
]
