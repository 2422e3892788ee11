"""C12: k-point crossover."""
from math import comb

from eckity.fitness import SimpleFitness
from eckity.genetic_encodings.ga import BitStringVector, FloatVector, IntVector
from eckity.genetic_operators import VectorKPointsCrossover

from vk import wl
from vk.core import Scenario

PROPERTY = "C12"
LEVEL = "exploration"
RULE = ("A case draws a vector encoding, length 2-1025, k from 1 to length-1, parents with all-distinct (so that the origin of "
        "each cell is visible) or overlapping values, and applies the operator through apply / apply_operator / act, often "
        "several times with the same operator object and lengths. The monitor compares both children cell by cell with the "
        "parents and counts the origin switches; law cases accumulate thousands of crossovers and compare the frequency of "
        "every set of cut points with the uniform law. Non-trivial: a crossover with identifiable origins; distinct by "
        "(encoding, length, k, cut points).")
ASSUMPTIONS = ["both parents have the same length", "statistical limits at 6.5 standard deviations and 6 counts"]


def vec(enc, values):
    cls = {"bit": BitStringVector, "int": IntVector, "float": FloatVector}[enc]
    b = (-10 ** 9, 10 ** 9) if enc != "float" else (-1e9, 1e9)
    return cls(SimpleFitness(1.0), len(values), b, vector=list(values))


def pair(rng, enc, n, distinct=True):
    if distinct:
        base = rng.sample(range(1, 10 ** 6), 2 * n)
        a, b = base[:n], base[n:]
    else:
        a = [rng.randrange(3) for _ in range(n)]
        b = [rng.randrange(3) for _ in range(n)]
    if enc == "float":
        a, b = [x / 7 for x in a], [x / 7 for x in b]
    x, y = vec(enc, a), vec(enc, b)
    if rng.random() < 0.2:                  # two clones of one original that have grown apart
        o = vec(enc, a)
        x, y = o.clone(), o.clone()
        y.set_vector(list(b))
    elif rng.random() < 0.1:                # a parent and its clone
        y = x.clone()
        y.set_vector(list(b))
    return x, y


def cross(rng, op, x, y):
    r = rng.randrange(3)
    if r == 0:
        return op.apply([x, y])
    if r == 1:
        return op.apply_operator([x, y])
    return op.act([x, y])


def cuts(mon, a, b, ca, cb, k):
    """Checks the children cell by cell; returns the cut points (origins are identifiable)."""
    n = len(a)
    mon.eq((len(ca), len(cb)), (n, n), "length of the children")
    org = []
    for i in range(n):
        if (ca[i], cb[i]) == (a[i], b[i]):
            org.append(0)
        elif (ca[i], cb[i]) == (b[i], a[i]):
            org.append(1)
        else:
            mon.fail(f"the children's values at position {i} are not the parents' values there", parents=(a[i], b[i]),
                     children=(ca[i], cb[i]), k=k, n=n)
    mon.event("cells_compared", n)
    pts = tuple(i for i in range(1, n) if org[i] != org[i - 1])
    mon.check(len(pts) == k, "the number of origin switches is not k", switches=pts, k=k, n=n)
    mon.event("crossovers")
    return pts


def shapes(rng, mon):
    enc = rng.choice(["bit", "int", "float"])
    n = rng.choice([2, 2, 3, 3, 4, 5, 6, 7, 10, 20, 60]) if rng.random() < 0.9 else \
        rng.choice([17, 33, 65, 101, 130, 257, 300, 513, 1025])
    k = rng.choice([1, 1, n - 1, rng.randint(1, n - 1), rng.randint(1, n - 1), min(2, n - 1), max(1, n - 2)])
    op = VectorKPointsCrossover(probability=1, k=k)
    for rep in range(rng.choice([1, 3])):
        distinct = rng.random() < 0.8
        x, y = pair(rng, enc, n, distinct)
        a, b = list(x.vector), list(y.vector)
        res = cross(rng, op, x, y)
        mon.eq(len(res), 2, "number of children")
        mon.check(res[0] is not res[1] and res[0].vector is not res[1].vector, "the children are one object")
        ca, cb = res[0].vector, res[1].vector
        if distinct:
            pts = cuts(mon, a, b, ca, cb, k)
            mon.sig(enc, n, k, pts)
            mon.show(encoding=enc, n=n, k=k, cut_points=pts)
        else:
            for i in range(n):
                mon.check(sorted((ca[i], cb[i])) == sorted((a[i], b[i])), f"values at position {i} are not the parents'",
                          parents=(a, b), children=(list(ca), list(cb)))
            mon.event("overlapping_crossovers")
        mon.check(type(res[0]) is type(x) and res[0].size() == n, "class or size of a child")


def law(rng, mon):
    n = rng.choice([2, 3, 4, 5, 6])
    k = rng.randint(1, n - 1)
    enc = rng.choice(["bit", "int", "float"])
    op = VectorKPointsCrossover(probability=1, k=k)
    T = 3000
    cnt = {}
    x, y = pair(rng, enc, n)
    for _ in range(T):
        a, b = list(x.vector), list(y.vector)
        r = op.apply([x, y])
        pts = cuts(mon, a, b, r[0].vector, r[1].vector, k)
        cnt[pts] = cnt.get(pts, 0) + 1
        x, y = r
    m = comb(n - 1, k)
    mon.check(len(cnt) <= m, "more cut sets than possible")
    from itertools import combinations
    for c in combinations(range(1, n), k):
        mon.check(wl.stat_ok(cnt.get(c, 0), T, 1 / m), "cut points are not uniform", cut=c, count=cnt.get(c, 0),
                  expected=T / m, n=n, k=k)
        mon.event("law_comparisons")
    mon.sig("law", n, k, enc)
    mon.show(n=n, k=k, crossovers=T, cut_sets=len(cnt), possible=m)


def long_law(rng, mon):
    """On a long vector every position is a cut point equally often, and gaps between cuts follow the uniform law."""
    n = rng.choice([12, 40, 70, 140, 300])
    k = rng.choice([1, 2, 3, 5, n // 4, n // 2])
    k = max(1, min(k, n - 1))
    enc = rng.choice(["bit", "int", "float"])
    op = VectorKPointsCrossover(probability=1, k=k)
    T = 400
    halves = [0] * 8
    first = 0
    x, y = pair(rng, enc, n)
    for _ in range(T):
        a, b = list(x.vector), list(y.vector)
        r = op.apply([x, y])
        pts = cuts(mon, a, b, r[0].vector, r[1].vector, k)
        for p in pts:
            halves[(p - 1) * 8 // (n - 1)] += 1
        first += 1 in pts
        x, y = r
    for j in range(8):
        m = sum((p - 1) * 8 // (n - 1) == j for p in range(1, n))
        mon.check(wl.stat_ok(halves[j], T * k, m / (n - 1)), "cut points are not uniform along a long vector", part=j,
                  count=halves[j], expected=T * k * m / (n - 1), n=n, k=k)
        mon.event("long_law_comparisons")
    mon.check(wl.stat_ok(first, T, k / (n - 1)), "the first position is not a cut point with probability k/(n-1)",
              count=first, expected=T * k / (n - 1))
    mon.sig("long", n, k, enc)


SCENARIOS = [
    Scenario(shapes, 8000, 160000, needs=("crossovers", "overlapping_crossovers")),
    Scenario(law, 120, 1600, needs=("law_comparisons",)),
    Scenario(long_law, 64, 640, needs=("long_law_comparisons",)),
]
