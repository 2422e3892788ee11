"""C18: execution of trees."""
import copy
import re

import numpy as np

from eckity.base import untyped_functions as uf
from eckity.creators import FullCreator, GrowCreator
from eckity.genetic_encodings.gp import FunctionNode, TerminalNode
from eckity.genetic_encodings.gp.tree.utils import create_terminal_set, generate_args

from vk import wl
from vk.checks.c16 import copy_nodes, keys
from vk.core import Scenario

PROPERTY = "C18"
LEVEL = "exploration"
RULE = ("A case draws a typed or untyped program (harness-built or from a creator; constants, awkward variable names, unary "
        "chains, single nodes), inputs (numbers, 1-d keyword arrays, 2-d arrays of several dtypes, layouts and row counts, "
        "also no rows) and executes it. An independent right-to-left stack interpreter, the exec'ed printed program and row "
        "by row keyword executions give the expected values; the tree's nodes and the inputs are compared before and after. "
        "Misuse cases demand an error. Non-trivial: an executed program with a function or a rejected call; distinct by "
        "program and input.")
ASSUMPTIONS = ["2-d arrays bind column j to the variable xj, as documented",
               "array and scalar results are compared exactly, except through the logarithm, where numpy's vector and scalar "
               "code may round differently (those are compared with the interpreter on the whole columns)"]


def program(rng, sets):
    t = None
    if rng.random() < 0.01:
        t = wl.make_tree(sets, wl.chain_nodes(rng, sets, sets["root"], rng.choice([60, 100, 150])))
    if t is None and rng.random() < 0.3 and not sets["typed"]:
        cls = rng.choice([FullCreator, GrowCreator])
        cr = cls(init_depth=rng.choice([(0, 2), (1, 2), (2, 3)]), function_set=list(sets["funcs"]),
                 terminal_set=copy.copy(sets["terms"]), erc_range=sets["erc"], root_type=sets["root"])
        t = cr.create_individuals(1, True)[0]
        if len(t.tree) > 150:
            t = None
    while t is None:
        nodes = wl.random_nodes(rng, sets, sets["root"], wl.rare(rng, [0, 1, 2, 3, 4], [5, 6], 0.04), p_leaf=rng.choice([0.0, 0.3, 0.5]))
        if len(nodes) <= 150:
            t = wl.make_tree(sets, nodes)
    return t


def frozen(t):
    return [id(n) for n in t.tree], keys(t.tree)


def still(mon, t, before):
    mon.eq(frozen(t), before, "execution changed the tree")


def printed(mon, t, sets):
    """The printed program as a Python function."""
    src = str(t)
    ns = {f.__name__: f for f in sets["funcs"]}
    ns.update({"float": float, "int": int, "bool": bool, "Meters": wl.Meters})
    m = re.match(r"\s*def\s+(\w+)\s*\(", src)
    mon.check(m is not None, "the printed program is no function", text=src)
    try:
        exec(compile(src, "printed", "exec"), ns)
    except SyntaxError as e:
        mon.fail(f"the printed program is not valid: {e}", text=src)
    return ns[m.group(1)]


def note(mon, t, *more):
    if len(t.tree) > 1:
        mon.sig(keys(t.tree), *more)
        mon.show(program=[k[1] for k in keys(t.tree)][:12], inputs=more)


def keyword(rng, mon):
    sets = wl.gp_sets(rng)
    t = program(rng, sets)
    fn = printed(mon, t, sets)
    st = frozen(t)
    for rep in range(rng.choice([1, 3])):
        env = wl.draw_env(rng, sets)
        if rng.random() < 0.3:
            env = {k: type(v)(v) if not isinstance(v, float) else np.float64(v) for k, v in env.items()}
        items = list(env.items())
        rng.shuffle(items)
        with np.errstate(all="ignore"):
            want = wl.interp(t.tree, env)
            got = t.execute(**dict(items))
            txt = fn(**dict(items))
        mon.check(wl.same_value(got, want), "keyword execution differs from the expression's value", got=got, want=want,
                  program=[k[1] for k in keys(t.tree)], env=env)
        mon.check(wl.same_value(txt, want), "the printed program evaluates to another value", got=txt, want=want,
                  text=str(t), env=env)
        still(mon, t, st)
        mon.event("keyword_executions")
        mon.event("printed_executions")
        note(mon, t, sorted((k, str(v)) for k, v in env.items()))


def keyword_arrays(rng, mon):
    sets = wl.gp_sets(rng)
    t = program(rng, sets)
    st = frozen(t)
    n = rng.choice([1, 2, 7])
    env = {}
    for k, ty in sets["vars"].items():
        env[k] = np.array([wl.draw_value(rng, ty) for _ in range(n)])
    keep = {k: v.copy() for k, v in env.items()}
    with np.errstate(all="ignore"):
        want = wl.interp(t.tree, {k: v.copy() for k, v in env.items()})
        got = t.execute(**env)
    mon.check(wl.same_value(got, want), "execution on keyword arrays differs from the expression's value", got=got, want=want,
              program=[k[1] for k in keys(t.tree)])
    for k in env:
        mon.check(np.array_equal(env[k], keep[k]) and env[k].dtype == keep[k].dtype, "execution changed an input array", name=k)
    still(mon, t, st)
    mon.event("keyword_array_executions")
    note(mon, t, n)


def matrix(rng, mon):
    ncol = wl.rare(rng, [1, 1, 2, 3, 5, 12], [27, 101, 130])
    names = [f"x{i}" for i in range(ncol)]
    kind = rng.choice(["u", "u", "f", "i"])
    if kind == "u":
        sets = wl.untyped_sets(rng, names=names)
    else:
        sets = wl.typed_sets(rng, types=[float] if kind == "f" else [int])
        ty = float if kind == "f" else int
        cons = {k: v for k, v in sets["terms"].items() if not isinstance(k, str)}
        sets["terms"] = {**{n: ty for n in names}, **cons}
        if rng.random() < 0.5:
            sets["terms"] = dict(reversed(list(sets["terms"].items())))
        sets["vars"] = {n: ty for n in names}
    if rng.random() < 0.3:
        rng.shuffle(sets["terms"]) if isinstance(sets["terms"], list) else None
    t = program(rng, sets)
    if rng.random() < 0.2:
        # a constant program
        c = rng.choice([3, -2.5, 0, 1]) if kind == "u" else 2.5 if kind == "f" else 7
        nodes = [TerminalNode(c if isinstance(n.value, str) else n.value, n.node_type) if isinstance(n, TerminalNode)
                 else FunctionNode(n.function) for n in t.tree]
        t = wl.make_tree(sets, nodes)
        mon.event("constant_programs")
    n = wl.rare(rng, [0, 1, 1, 2, 3, 5, 9, 40], [130, 1100])
    if kind == "u" and rng.random() < 0.08:
        return matrix_dtypes(rng, mon, t, ncol, n)
    dt = {"f": [np.float64], "i": [np.int64, np.int32], "u": [np.float64, np.float64, np.int64, np.float32]}[kind]
    dt = rng.choice(dt)
    X = np.array([[wl.draw_value(rng, int if np.issubdtype(dt, np.integer) else float) for _ in range(ncol)]
                  for _ in range(n)], dtype=dt).reshape(n, ncol)
    layout = rng.choice(["c", "f", "slice", "rev"])
    if layout == "f":
        X = np.asfortranarray(X)
    elif layout == "slice":
        big = np.zeros((2 * n, ncol + 2), dtype=dt)
        big[::2, 1:-1] = X
        X = big[::2, 1:-1]
    elif layout == "rev":
        X = X[::-1]
    keep = X.copy()
    st = frozen(t)
    with np.errstate(all="ignore"):
        got = t.execute(X)
    mon.check(isinstance(got, np.ndarray) and got.shape == (n,), "execution on a 2-d array does not give one value per row",
              got=got, shape=getattr(got, "shape", None), rows=n, program=[k[1] for k in keys(t.tree)])
    mon.check(np.array_equal(X, keep, equal_nan=False) and X.dtype == keep.dtype, "execution changed the input array")
    still(mon, t, st)
    names_used = [k[1] for k in keys(t.tree)]
    log = any("log" in str(x) for x in names_used)
    mon.event("matrix_executions")
    mon.event("rows_executed", n)
    if log:
        with np.errstate(all="ignore"):
            w = wl.interp(t.tree, {f"x{j}": keep[:, j] for j in range(ncol)})
        w = np.full(n, w) if np.ndim(w) == 0 else w
        mon.check(wl.same_value(got, w), "execution on a 2-d array differs from the expression on its columns", got=got, want=w)
    else:
        rows = range(n) if n <= 9 else rng.sample(range(n), 9)
        for i in rows:
            with np.errstate(all="ignore"):
                w = t.execute(**{f"x{j}": keep[i, j] for j in range(ncol)})
                w2 = wl.interp(t.tree, {f"x{j}": keep[i, j] for j in range(ncol)})
            mon.check(wl.same_value(w, w2), "keyword execution of a row differs from the expression's value", got=w, want=w2)
            g, w = float(got[i]), float(w)
            ok = g == w or (g != g and w != w) or (dt is np.float32 and wl.close(g, w, 1e-3, 1e-5))
            mon.check(ok, "a row's value differs from executing the program on that row", row=i, got=got[i], want=w,
                      program=[k[1] for k in keys(t.tree)], x=keep[i].tolist(), dtype=str(dt))
            mon.event("rows_compared")
    # the batch does not matter
    if n >= 2:
        k = rng.randrange(n)
        with np.errstate(all="ignore"):
            one = t.execute(keep[k:k + 1])
        mon.check(one.shape == (1,), "one row does not give one value", got=one)
        if not log and dt is not np.float32:
            mon.check(wl.same_value(one[0], got[k]), "a row's value depends on the other rows", got=one[0], want=got[k])
    note(mon, t, ncol, n, str(dt), layout)


def matrix_dtypes(rng, mon, t, ncol, n):
    """Unusual element types: the program sees the columns as they are."""
    dt = rng.choice([np.uint8, np.uint16, np.uint64, np.int8, np.int16, np.float16, bool, np.longdouble])
    X = np.array([[rng.choice([0, 1, 1, 2, 3, 7, 100, 127]) for _ in range(ncol)] for _ in range(n)]).reshape(n, ncol).astype(dt)
    keep = X.copy()
    st = frozen(t)
    with np.errstate(all="ignore"):
        try:
            w = wl.interp(t.tree, {f"x{j}": keep[:, j] for j in range(ncol)})
            w = np.full(n, w) if np.ndim(w) == 0 else w
        except Exception:
            mon.event("inapplicable_dtypes")
            return
        got = t.execute(X)
    mon.check(isinstance(got, np.ndarray) and got.shape == (n,), "execution on a 2-d array does not give one value per row",
              got=got, rows=n, dtype=str(dt))
    mon.check(np.array_equal(np.asarray(got), np.asarray(w), equal_nan=np.asarray(w).dtype.kind in "fc"),
              "execution on a 2-d array differs from the expression on its columns", got=got, want=w, dtype=str(dt),
              program=[k[1] for k in keys(t.tree)][:20])
    mon.check(np.array_equal(X, keep) and X.dtype == keep.dtype, "execution changed the input array")
    still(mon, t, st)
    mon.event("dtype_executions")
    note(mon, t, ncol, n, str(dt))


def raises(mon, f, what, **detail):
    try:
        r = f()
    except Exception:
        mon.event("rejected_calls")
        return
    mon.fail(f"{what} was accepted", result=r, **detail)


def misuse(rng, mon):
    sets = wl.gp_sets(rng)
    if not sets["vars"]:
        return
    t = program(rng, sets)
    st = frozen(t)
    env = wl.draw_env(rng, sets)
    names = sorted(env)
    miss = rng.choice(names)
    less = {k: v for k, v in env.items() if k != miss}
    raises(mon, lambda: t.execute(**less), "a missing variable", missing=miss, given=list(less))
    extra = rng.choice(["unknown", "q", "x99", "X"])
    raises(mon, lambda: t.execute(**{**env, extra: 1.0}), "an unknown variable", given=extra)
    raises(mon, lambda: t.execute(**{**less, extra: 1.0}), "an unknown instead of a known variable")
    raises(mon, lambda: t.execute(), "an execution without variables")
    empty = wl.make_tree(sets, [])
    raises(mon, lambda: empty.execute(**env), "an empty tree")
    t2 = wl.make_tree(sets, copy_nodes(t.tree))
    t2.empty_tree()
    raises(mon, lambda: t2.execute(**env), "an emptied tree")
    # arrays: wrong number of columns, wrong kind
    k = rng.choice([1, 2, 3])
    s2 = wl.untyped_sets(rng, names=[f"x{i}" for i in range(k)], consts=rng.random() < 0.5)
    u = program(rng, s2)
    raises(mon, lambda: u.execute(np.zeros((3, k + 1))), "an array with an extra column", columns=k + 1, variables=k)
    if k > 1:
        raises(mon, lambda: u.execute(np.zeros((3, k - 1))), "an array with a missing column", columns=k - 1, variables=k)
    raises(mon, lambda: u.execute(np.zeros(k)), "a 1-d array")
    raises(mon, lambda: u.execute([[1.0] * k]), "a list of rows")
    raises(mon, lambda: u.execute(5), "a number")
    raises(mon, lambda: wl.make_tree(s2, []).execute(np.zeros((3, k))), "an empty tree on an array")
    still(mon, t, st)
    # and the valid neighbours are accepted
    with np.errstate(all="ignore"):
        t.execute(**env)
        mon.eq(u.execute(np.zeros((3, k))).shape, (3,), "shape of the result")
    mon.event("accepted_neighbours", 2)
    mon.sig(names, miss, extra, k, keys(t.tree))
    mon.show(variables=names, missing=miss, unknown=extra)


def derived_terminals(rng, mon):
    """Terminal sets and arguments derived from an array."""
    ncol = wl.rare(rng, [1, 2, 3, 5, 10, 12], [27, 101, 300])
    n = wl.rare(rng, [1, 1, 2, 7], [130])
    dt = rng.choice([float, float, int, bool, np.float32, np.int8, np.uint8, np.int32, np.uint64, np.float16])
    X = np.array([[wl.draw_value(rng, bool if dt is bool else int) for _ in range(ncol)] for _ in range(n)])
    X = (np.abs(X) if np.dtype(dt).kind == "u" else X).astype(dt)
    if np.dtype(dt).kind == "f" and rng.random() < 0.7:
        X = X * np.asarray(rng.choice([0.5, 0.1, -3]), dtype=dt)
    if rng.random() < 0.2:
        X = np.asfortranarray(X)
    keep = X.copy()
    names = [f"x{i}" for i in range(ncol)]
    if rng.random() < 0.3:
        # columns of different types in one array: an object array of numpy scalars
        kinds = [rng.choice([np.float64, np.int64, np.bool_, np.float32]) for _ in range(ncol)]
        M = np.empty((n, ncol), dtype=object)
        for i in range(n):
            for j in range(ncol):
                M[i, j] = kinds[j](rng.choice([0, 1, 3]))
        mon.eq(list(create_terminal_set(M, typed=True).items()),
               [(k, {"f": float, "i": int, "b": bool}[np.dtype(d).kind]) for k, d in zip(names, kinds)],
               "typed terminal set of an array with columns of different types")
        mon.event("mixed_columns")
    got = create_terminal_set(X) if rng.random() < 0.5 else create_terminal_set(X, typed=False)
    mon.check(isinstance(got, list), "untyped terminal set is not a list", got=type(got))
    mon.eq(got, names, "terminal set derived from an array")
    ty = {"f": float, "i": int, "u": int, "b": bool}[X.dtype.kind]
    typed = create_terminal_set(X, typed=True)
    mon.check(isinstance(typed, dict), "typed terminal set is not a dictionary", got=type(typed))
    mon.eq(list(typed.items()), [(k, ty) for k in names], "typed terminal set derived from an array")
    got.append("mine")
    typed["mine"] = str
    mon.eq(create_terminal_set(X), names, "changing a derived terminal set changes the next one")
    mon.eq(list(create_terminal_set(X, typed=True)), names, "changing a derived terminal set changes the next one")
    args = generate_args(X)
    mon.eq(list(args), names, "names of the arguments derived from an array")
    for j, k in enumerate(names):
        mon.check(np.array_equal(args[k], keep[:, j], equal_nan=X.dtype.kind == "f") and args[k].dtype == X.dtype,
                  "argument derived from an array is not its column", name=k, got=args[k], want=keep[:, j])
    mon.event("derived_sets")
    # programs over the derived terminals run on the array they were derived from
    if ty is not bool:
        sets = wl.untyped_sets(rng, names=names)
        sets["terms"] = create_terminal_set(X)
        sets["funcs"] = [f for f in sets["funcs"] if f.__name__ not in ("f_log", "f_sin", "f_cos", "f_tan")] or [uf.f_add, uf.f_max]
        sets["vars"] = {k: None for k in names}
        if X.dtype.kind == "f" and X.dtype.itemsize == 8:
            sets["erc"] = rng.choice([None, (-1.0, 1.0)])
        else:
            sets["erc"] = None
        t = program(rng, sets)
        st = frozen(t)
        with np.errstate(all="ignore"):
            want = np.broadcast_to(wl.interp(t.tree, {k: keep[:, j].copy() for j, k in enumerate(names)}), (n,))
            res = t.execute(X)
        mon.check(wl.same_value(np.asarray(res), want), "program over derived terminals", got=res, want=want,
                  program=[k[1] for k in keys(t.tree)])
        still(mon, t, st)
        note(mon, t, str(X.dtype), n)
    mon.check(np.array_equal(X, keep, equal_nan=X.dtype.kind == "f"), "the array was changed")


SCENARIOS = [
    Scenario(keyword, 3200, 60000, needs=("keyword_executions", "printed_executions")),
    Scenario(keyword_arrays, 1200, 20000, needs=("keyword_array_executions",)),
    Scenario(matrix, 3200, 60000, needs=("matrix_executions", "rows_compared", "constant_programs", "dtype_executions")),
    Scenario(derived_terminals, 800, 16000, needs=("derived_sets",)),
    Scenario(misuse, 400, 6000, needs=("rejected_calls", "accepted_neighbours")),
]
