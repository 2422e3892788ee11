"""C19: the function library."""
import math

import numpy as np

from eckity.base import typed_functions as tf
from eckity.base import untyped_functions as uf
from eckity.base.types import t_argmax
from eckity.genetic_encodings.gp import FunctionNode, TerminalNode

from vk import wl
from vk.core import Scenario

PROPERTY = "C19"
LEVEL = "exploration"
RULE = ("A case draws a library function (all typed and untyped ones), argument values from edge pools (zeros, the protection "
        "threshold and its neighbours, subnormals, huge values, integers, booleans) and shapes (numbers, numpy scalars, 0-d, "
        "empty, 1-d, 2-d, read-only arrays, constants mixed with arrays), calls it, also with numpy configured to raise on "
        "divide/invalid, and compares every position with a pure-Python reference; argument arrays are compared before and "
        "after. Composition cases evaluate random well-typed expressions over the typed library on scalars and arrays. "
        "Distinct by function, values and shape.")
ASSUMPTIONS = ["no NaN or infinite arguments; positions whose mathematical result is not representable are not judged",
               "logarithm and trigonometry are compared to 1e-9, everything else exactly",
               "f_and and f_or are bitwise and used on integers and booleans"]


def p_div(x, y):
    return x / y if abs(y) > 0.001 else 0.0


def p_log(x):
    return math.log(abs(x)) if abs(x) > 0.001 else 0.0


REF = {
    "add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y, "div": p_div,
    "sqrt": lambda x: math.sqrt(abs(x)), "log": p_log, "abs": abs, "neg": lambda x: -x, "inv": lambda x: p_div(1, x),
    "max": lambda x, y: max(x, y), "min": lambda x, y: min(x, y), "sin": math.sin, "cos": math.cos, "tan": math.tan,
    "iflte0": lambda x, y, z: y if x <= 0 else z, "ifgt0": lambda x, y, z: y if x > 0 else z,
    "iflte": lambda x, y, z, w: z if x <= y else w, "ifgt": lambda x, y, z, w: z if x > y else w,
    "land": lambda x, y: 1 if x and y else 0, "lor": lambda x, y: 1 if x or y else 0, "not": lambda x: 0 if x else 1,
    "band": lambda x, y: x & y, "bor": lambda x, y: x | y, "ite": lambda c, x, y: x if c else y,
    "argmax": lambda x, y: 1 if y > x else 0,
}
# function, reference, argument kinds, result kind (numpy dtype kinds; None: not judged)
U = [(uf.f_add, "add", "nn"), (uf.f_sub, "sub", "nn"), (uf.f_mul, "mul", "nn"), (uf.f_div, "div", "nn"),
     (uf.f_sqrt, "sqrt", "n"), (uf.f_log, "log", "n"), (uf.f_abs, "abs", "n"), (uf.f_neg, "neg", "n"),
     (uf.f_inv, "inv", "n"), (uf.f_max, "max", "nn"), (uf.f_min, "min", "nn"), (uf.f_sin, "sin", "n"),
     (uf.f_cos, "cos", "n"), (uf.f_tan, "tan", "n"), (uf.f_iflte0, "iflte0", "nnn"), (uf.f_ifgt0, "ifgt0", "nnn"),
     (uf.f_iflte, "iflte", "nnnn"), (uf.f_ifgt, "ifgt", "nnnn"), (uf.f_and, "band", "dd"), (uf.f_or, "bor", "dd"),
     (uf.f_not, "not", "c"), (uf.f_if_then_else, "ite", "cnn")]
T = [(tf.add2floats, "add", "ff", "f"), (tf.sub2floats, "sub", "ff", "f"), (tf.mul2floats, "mul", "ff", "f"),
     (tf.div2floats, "div", "ff", "f"), (tf.sqrt_float, "sqrt", "f", "f"), (tf.log_float, "log", "f", "f"),
     (tf.abs_float, "abs", "f", "f"), (tf.neg_float, "neg", "f", "f"), (tf.inv_float, "inv", "f", "f"),
     (tf.max2floats, "max", "ff", "f"), (tf.min2floats, "min", "ff", "f"), (tf.sin_float, "sin", "f", "f"),
     (tf.cos_float, "cos", "f", "f"), (tf.tan_float, "tan", "f", "f"), (tf.iflte0_floats, "iflte0", "fff", "f"),
     (tf.ifgt0_floats, "ifgt0", "fff", "f"), (tf.iflte_floats, "iflte", "ffff", "f"), (tf.ifgt_floats, "ifgt", "ffff", "f"),
     (tf.and2floats, "land", "ff", "f"), (tf.or2floats, "lor", "ff", "f"), (tf.not2floats, "not", "f", "f"),
     (tf.if_then_else, "ite", "bff", "f"), (tf.argmax2floats, "argmax", "ff", "i"),
     (tf.and2ints, "land", "ii", "i"), (tf.or2ints, "lor", "ii", "i"), (tf.not2ints, "not", "i", "i"),
     (tf.if_then_else3ints, "ite", "iii", "i"), (tf.and2bools, "land", "bb", "b"), (tf.or2bools, "lor", "bb", "b"),
     (tf.not2bools, "not", "b", "b"), (tf.if_then_else3bools, "ite", "bbb", "b")]
FUZZY = {"log", "sin", "cos", "tan"}
THR = 0.001
FL = [0.0, -0.0, 1.0, -1.0, THR, -THR, math.nextafter(THR, 1), -math.nextafter(THR, 1), math.nextafter(THR, 0), 0.0005,
      0.002, -0.01, 1e-9, 1e-300, 5e-324, -5e-324, 2.5, -7.25, 1e3, -1e3, 1e10, 1e150, -1e150, 1e308, -1e308, 0.5, math.e, 1e6 + 0.3, -8.7e10, 3.3e11,
      math.pi, math.pi / 2, -math.pi / 2, 3 * math.pi / 2, -2 * math.pi, math.nextafter(math.pi / 2, 2)]
IN = [0, 1, -1, 2, -2, 3, 7, 10, -13, 255, 1000, -1000, 2 ** 20, 2 ** 31 - 1, 2 ** 31, -2 ** 40, 2 ** 53 - 1, 2 ** 62, -2 ** 62]


def val(rng, kind):
    if kind == "n":
        kind = rng.choice("ffi")
    if kind == "d":
        kind = "i"
    if kind == "c":
        kind = rng.choice("fib")
    if kind == "f":
        return rng.choice(FL) if rng.random() < 0.6 else rng.uniform(-20, 20) if rng.random() < 0.7 else rng.gauss(0, 0.002)
    if kind == "i":
        if rng.random() < 0.08:
            return rng.choice([2 ** 62, -2 ** 62, 2 ** 53 - 1, -2 ** 40])
        return rng.choice(IN) if rng.random() < 0.7 else rng.randint(-50, 50)
    return rng.random() < 0.5


def column(rng, kind, n):
    """n values of one homogeneous numpy kind."""
    if kind == "n":
        kind = rng.choice("ffi")
    if kind == "d":
        kind = rng.choice("iib")
    if kind == "c":
        kind = rng.choice("fib")
    return [val(rng, kind) for _ in range(n)], kind


def ref(name, args):
    try:
        r = REF[name](*args)
    except OverflowError:
        return None
    if isinstance(r, float) and not math.isfinite(r) or isinstance(r, int) and not -2 ** 63 <= r < 2 ** 63:
        return None
    return r


def agree(name, got, want):
    if isinstance(got, np.generic):
        got = got.item()
    if name in FUZZY:
        return math.isfinite(got) and abs(got - want) <= 1e-9 * max(1.0, abs(want))
    return got == want


def judge(mon, f, name, got, want, args):
    if want is None:
        mon.event("not_representable")
        return
    if name in ("sin", "cos", "tan") and any(abs(a) > 1e12 for a in args):
        mon.check(np.isfinite(got), f"{f.__name__} is not finite", got=got, args=args)
        return
    mon.check(agree(name, got, want), f"{f.__name__} has a wrong value", got=got, want=want, args=args)
    mon.event("values_compared")


def call(rng, mon, f, name, args):
    protected = name in ("div", "inv", "log", "sqrt")
    state = {"divide": "raise", "invalid": "raise"} if protected and rng.random() < 0.5 else {"all": "ignore"}
    if protected:
        mon.event("protected_calls")
    try:
        with np.errstate(over="ignore", under="ignore"):
            with np.errstate(**state):
                return f(*args)
    except Exception as e:
        mon.fail(f"{f.__name__} raised {type(e).__name__}: {e}", args=args)


def library(rng, mon):
    typed = rng.random() < 0.5
    if typed:
        f, name, kinds, res = rng.choice(T)
    else:
        (f, name, kinds), res = rng.choice(U), None
    mode = rng.choice(["scalar", "scalar", "np", "array", "array", "mixed", "mixed", "matrix", "zero-d", "empty"])
    if mode in ("scalar", "np", "zero-d"):
        cols = [column(rng, k, 1) for k in kinds]
        vals = [c[0][0] for c in cols]
        wrap = {"scalar": lambda v: v, "np": lambda v: np.array([v])[0], "zero-d": np.array}[mode]
        args = [wrap(v) for v in vals]
        got = call(rng, mon, f, name, args)
        mon.check(np.shape(got) == (), f"{f.__name__} of numbers is no number", got=got)
        judge(mon, f, name, np.asarray(got)[()], ref(name, vals), vals)
        kind = np.asarray(got).dtype.kind
        for a, v in zip(args, vals):
            mon.check(a == v, f"{f.__name__} changed its argument")
    else:
        n = {"empty": 0, "matrix": 6}.get(mode, rng.choice([1, 2, 3, 9]))
        shape = (2, 3) if mode == "matrix" else (n,)
        args, cols, copies = [], [], []
        for q, k in enumerate(kinds):
            if mode == "mixed" and rng.random() < 0.5:
                v = column(rng, k, 1)[0][0]
                v = np.array([v])[0] if rng.random() < 0.3 else v
                args.append(v)
                cols.append([v] * n)
                copies.append(None)
            else:
                vs, _ = column(rng, k, n)
                kk = _
                a = np.array(vs, dtype={"f": float, "i": np.int64, "b": bool}[kk]).reshape(shape)
                if rng.random() < 0.2:
                    a.setflags(write=False)
                args.append(a)
                cols.append(vs)
                copies.append(a.copy())
        if mode == "mixed" and all(c is None for c in copies):
            vs, kk = column(rng, kinds[0], n)
            a = np.array(vs, dtype={"f": float, "i": np.int64, "b": bool}[kk])
            args[0], cols[0], copies[0] = a, vs, a.copy()
        got = call(rng, mon, f, name, args)
        mon.check(np.shape(got) == shape, f"{f.__name__} is not elementwise: wrong shape", got=np.shape(got), want=shape,
                  args=args)
        flat = np.asarray(got).reshape(-1)
        for i in range(n):
            vals = [c[i].item() if isinstance(c[i], np.generic) else c[i] for c in cols]
            judge(mon, f, name, flat[i], ref(name, vals), vals)
            # the scalar application at that position
            with np.errstate(all="ignore"):
                one = f(*[np.array([v])[0] for v in vals])
            if ref(name, vals) is not None:
                same = wl.same_value(np.asarray(one)[()], flat[i]) or (name in FUZZY and wl.close(float(one), float(flat[i])))
                mon.check(same, f"{f.__name__} on arrays differs from the scalar application", position=i, got=flat[i],
                          want=one, args=vals)
            mon.event("positions")
        for a, c in zip(args, copies):
            if c is not None:
                mon.check(np.array_equal(a, c) and a.dtype == c.dtype, f"{f.__name__} modified an argument", before=c, after=a)
        kind = np.asarray(got).dtype.kind
        vals = cols
    if res is not None:
        mon.check(kind == res, f"{f.__name__} does not return its declared type", dtype_kind=kind, want=res, args=args)
        mon.event("types_compared")
    mon.sig(f.__module__, f.__name__, mode, repr(vals))
    mon.show(function=f.__name__, mode=mode, args=args, result=got)


COMP = [e for e in T if e[0] is not tf.if_then_else and e[0] is not tf.argmax2floats] + [
    (wl.t_lt, None, "ff", "b"), (wl.t_itef, None, "bff", "f"), (wl.t_b2i, None, "b", "i"), (wl.t_i2f, None, "i", "f")]


def expr(rng, kind, depth):
    fs = [e for e in COMP if e[3] == kind]
    if depth == 0 or rng.random() < 0.25:
        if rng.random() < 0.4:
            v = val(rng, kind)
            while abs(v) > 1e6:
                v = val(rng, kind)
            return [TerminalNode(v, {"f": float, "i": int, "b": bool}[kind])]
        return [TerminalNode(kind + str(rng.randrange(2)), {"f": float, "i": int, "b": bool}[kind])]
    e = rng.choice(fs)
    out = [FunctionNode(e[0])]
    for k in e[2]:
        out += expr(rng, k, depth - 1)
    return out


def compositions(rng, mon):
    kind = rng.choice("fib")
    root = rng.choice([kind, kind, "argmax"])
    if root == "argmax":
        nodes = [FunctionNode(tf.argmax2floats)] + expr(rng, "f", 2) + expr(rng, "f", 2)
        want_kind = "i"
    else:
        nodes = expr(rng, kind, rng.choice([1, 2, 3, 4]))
        want_kind = kind
    if len(nodes) > 120:
        return
    n = rng.choice([1, 3, 6])
    env, flip = {}, rng.random() < 0.5
    for k in "fib":
        for j in range(2):
            vs = [val(rng, k) for _ in range(n)]
            vs = [v if abs(v) < 1e6 else 3 for v in vs]
            env[k + str(j)] = np.array(vs, dtype={"f": float, "i": np.int64, "b": bool}[k])
    if flip:
        k = rng.choice(list(env))
        env[k] = np.full(n, env[k][0])
        scal = {k: env[k][0].item()}
    else:
        scal = {}
    names = [f.function.__name__ if isinstance(f, FunctionNode) else f.value for f in nodes]
    try:
        with np.errstate(all="ignore"):
            got = wl.interp(nodes, {**env, **scal})
    except Exception as e:
        mon.fail(f"a well-typed composition raised {type(e).__name__}: {e}", expression=names)
    mon.check(np.shape(got) in ((), (n,)), "shape of a composition's result", got=np.shape(got))
    if len(nodes) > 1:
        k = np.asarray(got).dtype.kind
        mon.check(k == want_kind, "a composition does not have its declared type", got=k, want=want_kind, expression=names)
    flat = np.broadcast_to(got, (n,))
    fuzzy = any(s in str(x) for x in names for s in ("log", "sin", "cos", "tan"))
    for i in range(n):
        with np.errstate(all="ignore"):
            one = wl.interp(nodes, {k: v[i] for k, v in env.items()})
        if not fuzzy:
            mon.check(wl.same_value(np.asarray(one)[()], flat[i]), "a composition on arrays differs from the scalar one",
                      position=i, got=flat[i], want=one, expression=names)
        mon.event("composition_positions")
    mon.event("compositions")
    if len(nodes) > 1:
        mon.sig(names, n)
        mon.show(expression=names[:12], result=got)


def complete(rng, mon):
    """The modelled table is the whole exported library."""
    from eckity.base.utils import arity
    for mod, table in ((tf, T), (uf, U)):
        known = {e[0].__name__ for e in table}
        exported = [x for x in getattr(mod, "__all__", [])]
        for x in exported:
            if x not in known:
                mon.event("unmodelled_functions")
        for e in table:
            mon.check(hasattr(mod, e[0].__name__), "function vanished", name=e[0].__name__)
            mon.eq(arity(e[0]), len(e[2]), "reported arity", function=e[0].__name__)
            mon.event("arities")
    for n in range(6):
        ns = {}
        exec(f"def g({', '.join('a%d' % i for i in range(n))}): return 0", ns)
        mon.eq(arity(ns["g"]), n, "reported arity")
    for e in T:
        hs, ret = wl.hints(e[0])
        m = {"f": float, "i": int, "b": bool}
        if e[0] is tf.argmax2floats:
            mon.check(ret is t_argmax, "declared type of argmax2floats")
        elif e[0] is not tf.if_then_else:
            mon.eq(([m[k] for k in e[2]], m[e[3]]), (hs, ret), "declared types", function=e[0].__name__)
    mon.sig("table")


SCENARIOS = [
    Scenario(library, 40000, 800000, needs=("values_compared", "positions", "protected_calls", "types_compared")),
    Scenario(compositions, 4000, 80000, needs=("compositions",)),
    Scenario(complete, 1, 1, needs=("arities",)),
]
