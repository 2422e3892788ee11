"""C30: vector edits and accessors."""
from eckity.fitness import SimpleFitness
from eckity.genetic_encodings.ga import BitStringVector, FloatVector, IntVector

from vk import wl
from vk.core import Scenario

PROPERTY = "C30"
LEVEL = "exploration"
RULE = ("A case drives two vectors of one encoding through a random sequence of edits and reads (parts, cells, whole genome, "
        "appending, emptying, random parts, exchanges of parts between the two), mirrored on plain lists; after every call the "
        "result, both genomes, sizes and lengths are compared and results and arguments are modified to expose sharing. "
        "Sampling cases collect the positions of the random edits. Non-trivial: at least three calls; distinct by program.")
ASSUMPTIONS = ["parts and positions lie within the genome", "the list passed to set_vector and returned by get_vector is not modified by the "
               "workload, as sharing it is allowed"]

CLS = {"bit": (BitStringVector, (0, 1)), "int": (IntVector, (-1000, 1000)), "float": (FloatVector, (-1000.0, 1000.0))}


def values(rng, enc, n):
    if enc == "bit":
        return [rng.choice([0, 1]) for _ in range(n)]
    if enc == "int":
        return [rng.randint(-1000, 1000) for _ in range(n)]
    return [rng.choice([0.0, -0.0, 1.5, rng.uniform(-1000, 1000)]) for _ in range(n)]


def key(v):
    return [wl.num(x) for x in v]


def edits(rng, mon):
    enc = rng.choice(list(CLS))
    cls, b = CLS[enc]
    L = wl.rare(rng, [1, 1, 2, 3, 4, 7, 15], [33, 65, 130, 300])
    bounds = rng.choice([b, [b] * L])
    m = [values(rng, enc, L), values(rng, enc, L)]
    vs = [cls(fitness=SimpleFitness(higher_is_better=True), bounds=bounds, length=L, vector=list(x)) for x in m]
    prog = []
    for _ in range(rng.choice([3, 6, 12, 25])):
        i = rng.randrange(2)
        v, w = vs[i], m[i]
        n = len(w)
        op = rng.choice(["part", "part", "rep", "rep", "reprand", "randpart", "cell", "setcell", "add", "setvec", "getvec", "exec", "exchange",
                         "empty", "clone", "bounds"])
        if n == 0 and op in ("part", "rep", "reprand", "randpart", "cell", "setcell", "exchange"):
            op = "setvec"
        if op == "part":
            s = rng.randint(0, n)
            e = rng.randint(s, n)
            r = v.get_vector_part(s, e)
            mon.check(key(r) == key(w[s:e]), "get_vector_part returned other cells", got=r, want=w[s:e], start=s, end=e)
            r.append(99)
            if len(r) > 1:
                r[0] = 98
            prog.append((op, s, e))
        elif op == "rep":
            k = rng.randint(0, n)
            s = rng.randint(0, n - k)
            new = values(rng, enc, k)
            arg = list(new)
            r = v.replace_vector_part(arg, s)
            mon.check(key(r) == key(w[s:s + k]), "replace_vector_part did not return the previous content", got=r, want=w[s:s + k])
            w[s:s + k] = new
            mon.check(key(arg) == key(new), "replace_vector_part changed its argument")
            arg.append(5)
            if k:
                arg[0] = 77
                r[0] = 78
            prog.append((op, s, k))
        elif op == "reprand":
            k = rng.randint(1, n)
            new = values(rng, enc, k)
            before = list(w)
            arg = list(new)
            r = v.replace_vector_part_random(arg)
            now = list(v.get_vector())
            mon.eq(len(now), n, "a random replacement changed the length")
            ok = [s for s in range(n - k + 1)
                  if key(r) == key(before[s:s + k]) and key(now) == key(before[:s] + new + before[s + k:])]
            mon.check(bool(ok), "a random replacement is not the exchange of one contiguous piece", before=before, inserted=new, returned=r, after=now)
            m[i] = list(now)
            arg[0] = 76
            r[0] = 75
            prog.append((op, k))
        elif op == "randpart":
            r = v.random_vector_part()
            k = len(r)
            mon.check(1 <= k <= n and any(key(r) == key(w[s:s + k]) for s in range(n - k + 1)), "a random part is not a contiguous piece of the genome",
                      part=r, genome=w)
            r[0] = 74
            prog.append((op,))
        elif op == "cell":
            s = rng.randrange(n)
            mon.check(wl.num(v.cell_value(s)) == wl.num(w[s]), "cell_value returned another cell", index=s)
            prog.append((op, s))
        elif op == "setcell":
            s = rng.randrange(n)
            x = values(rng, enc, 1)[0]
            v.set_cell_value(s, x)
            w[s] = x
            prog.append((op, s))
        elif op == "add":
            x = values(rng, enc, 1)[0]
            v.add_cell(x)
            w.append(x)
            prog.append((op,))
        elif op == "setvec":
            k = rng.choice([1, 2, n, n + 1, 6])
            x = values(rng, enc, max(1, k))
            v.set_vector(list(x))
            m[i] = list(x)
            prog.append((op, k))
        elif op == "empty":
            if rng.random() < 0.3:
                v.empty_vector()
                m[i] = []
                prog.append((op,))
        elif op == "clone":
            c = v.clone()
            mon.check(key(c.get_vector()) == key(w) and c.size() == len(w) and c.length == v.length, "a clone has another genome or length")
            vs[i] = c
            prog.append((op,))
        elif op == "exchange":
            # the usual crossover of user code: swap the same positions of both vectors
            n2 = len(m[1 - i])
            k = rng.randint(0, min(n, n2))
            s = rng.randint(0, min(n, n2) - k)
            old = vs[1 - i].get_vector_part(s, s + k)
            r = v.replace_vector_part(old, s)
            r2 = vs[1 - i].replace_vector_part(r, s)
            mon.check(key(r) == key(w[s:s + k]) and key(r2) == key(m[1 - i][s:s + k]), "exchanging parts returned other content")
            m[i][s:s + k], m[1 - i][s:s + k] = m[1 - i][s:s + k], m[i][s:s + k]
            prog.append((op, s, k))
        elif op == "getvec":
            mon.check(key(v.get_vector()) == key(w), "get_vector is not the genome")
        elif op == "exec":
            mon.check(key(v.execute()) == key(w), "executing a vector does not return its genome")
        elif op == "bounds":
            mon.check(v.get_bounds() == bounds, "the bounds changed")
        mon.event("calls")
        for j in (0, 1):
            mon.check(key(vs[j].get_vector()) == key(m[j]), "genome differs from the list model", op=op, vector=j, edited=i, got=vs[j].get_vector(), want=m[j])
            mon.eq(vs[j].size(), len(m[j]), "size is not the number of cells", op=op)
            mon.eq(vs[j].length, len(m[j]), "the reported length is not the number of cells", op=op)
    if len(prog) >= 3:
        mon.sig(enc, L, prog)
        mon.show(encoding=enc, length=L, program=prog[:10])


def positions(rng, mon):
    """Every admissible position of the random edits occurs."""
    enc = rng.choice(["int", "float"])
    cls, b = CLS[enc]
    L = rng.choice([1, 2, 3, 4, 5, 6])
    base = [float(x) if enc == "float" else x for x in range(10, 10 + L)]
    N = 1500
    v = cls(fitness=SimpleFitness(higher_is_better=True), bounds=b, length=L, vector=list(base))
    seen = set()
    for _ in range(N):
        r = v.random_vector_part()
        seen.add((base.index(r[0]), len(r)))
        mon.event("random_parts")
    want = {(s, k) for s in range(L) for k in range(1, L - s + 1)}
    mon.eq(seen, want, "random parts: positions and lengths that occur")
    k = rng.randint(1, L)
    at = {}
    for _ in range(N):
        v.set_vector(list(base))
        new = [0 * base[0]] * k
        v.replace_vector_part_random(new)
        now = v.get_vector()
        s = [i for i, x in enumerate(now) if x == 0]
        mon.check(len(s) == k and s == list(range(s[0], s[0] + k)), "a random replacement is not contiguous", after=now)
        at[s[0]] = at.get(s[0], 0) + 1
        mon.event("random_replacements")
    mon.eq(set(at), set(range(L - k + 1)), "random replacements: positions that occur", length=L, part=k)
    mon.sig(enc, L, k)
    mon.show(length=L, part=k, positions=sorted(at.items()), parts=len(seen))


def positions_long(rng, mon):
    """The random edits reach all of a long vector."""
    enc = rng.choice(["int", "float"])
    cls, b = CLS[enc]
    L = rng.choice([12, 20, 35, 52, 70, 101, 140, 260])
    base = [float(x) if enc == "float" else x for x in range(10, 10 + L)]
    N = max(3000, 50 * L)
    v = cls(fitness=SimpleFitness(higher_is_better=True), bounds=b, length=L, vector=list(base))
    starts, ends, long_parts = set(), set(), 0
    for _ in range(N):
        r = v.random_vector_part()
        s = int(r[0]) - 10
        mon.check(key(r) == key(base[s:s + len(r)]), "a random part is not a contiguous piece of the genome", part=r)
        starts.add(s)
        ends.add(s + len(r))
        long_parts += len(r) > 0.75 * L
        mon.event("random_parts")
    mon.eq(starts, set(range(L)), "random parts: start positions that occur", length=L)
    mon.check(set(range(L // 2 + 1, L + 1)) <= ends, "random parts: end positions that never occur", length=L,
              missing=sorted(set(range(L // 2 + 1, L + 1)) - ends)[:10])
    mon.check(long_parts > 0, "random parts of more than three quarters of the vector never occur", length=L, draws=N)
    k = rng.choice([1, 1, 2, 3, L // 2, L - 1, L])
    at = set()
    for _ in range(50 * (L - k + 1)):
        v.set_vector(list(base))
        r = v.replace_vector_part_random([0 * base[0]] * k)
        now = v.get_vector()
        s = next((i for i, x in enumerate(now) if x == 0), 0)
        mon.check(key(now) == key(base[:s] + [0 * base[0]] * k + base[s + k:]) and key(r) == key(base[s:s + k]),
                  "a random replacement is not the exchange of one contiguous piece", start=s, part=k, after=now)
        at.add(s)
        mon.event("random_replacements")
    mon.eq(at, set(range(L - k + 1)), "random replacements: positions that occur", length=L, part=k)
    mon.sig(enc, L, k, "long")
    mon.show(length=L, part=k, starts=len(starts), replacements=len(at))


SCENARIOS = [
    Scenario(edits, 24000, 300000, needs=("calls",)),
    Scenario(positions, 120, 2000, needs=("random_parts", "random_replacements")),
    Scenario(positions_long, 48, 600, needs=("random_parts", "random_replacements")),
]
