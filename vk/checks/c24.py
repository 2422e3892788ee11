"""C24: scikit-learn estimators."""
import copy
import math

import numpy as np
from scipy.special import expit
from sklearn.exceptions import NotFittedError
from sklearn.metrics import accuracy_score, f1_score, max_error, mean_absolute_error, mean_squared_error, r2_score

from eckity.algorithms import SimpleEvolution
from eckity.base import typed_functions as tf
from eckity.base import untyped_functions as uf
from eckity.base.types import t_argmax
from eckity.breeders import SimpleBreeder
from eckity.creators import FullCreator, GrowCreator
from eckity.genetic_encodings.gp import FunctionNode, TerminalNode
from eckity.genetic_operators import ERCMutation, SubtreeCrossover, SubtreeMutation, TournamentSelection
from eckity.sklearn_compatible import ClassificationEvaluator, RegressionEvaluator, SKClassifier, SKRegressor
from eckity.subpopulation import Subpopulation
from eckity.termination_checkers import ThresholdFromTargetTerminationChecker

from vk import wl
from vk.checks.c09 import snap
from vk.checks.c16 import keys
from vk.core import Scenario

PROPERTY = "C24"
LEVEL = "exploration"
RULE = ("A case generates a data set, fits a regressor or a classifier (sigmoid intervals with 2-6 classes, argmax programs; several "
        "metrics, thread and process workers) with a small run, and then issues a random sequence of predictions: training "
        "data, new data, single rows, permutations, duplicated rows, other layouts. Every prediction is compared row by row "
        "with an independent interpreter of the fitted program (and the class rule), the fitted program and the data with "
        "copies. Evaluator cases evaluate arbitrary programs under changing contexts. Non-trivial: a prediction on at least "
        "two different rows; distinct by program and data.")
ASSUMPTIONS = ["program values whose sigmoid is within 1e-9 of an interval limit are not judged, except an exact sigmoid of 0.5",
               "function sets without logarithm and trigonometry, so that row-wise and batch arithmetic agree exactly"]

FUNCS = [uf.f_add, uf.f_sub, uf.f_mul, uf.f_div, uf.f_sqrt, uf.f_abs, uf.f_neg, uf.f_max, uf.f_min, uf.f_iflte, uf.f_ifgt0]
TFUNCS = [tf.add2floats, tf.sub2floats, tf.mul2floats, tf.max2floats, tf.neg_float, tf.div2floats]


def my_metric(y_true, y_pred):
    return float(np.sum(np.abs(np.asarray(y_true) - np.asarray(y_pred))))


def my_order_metric(y_true, y_pred):
    """Not symmetric in its arguments."""
    return float(np.mean(np.maximum(0.0, np.asarray(y_true, float) - 2 * np.asarray(y_pred, float))))


REG_METRICS = [mean_absolute_error, mean_squared_error, max_error, my_metric, my_order_metric]


def micro_f1(y_true, y_pred):
    return f1_score(y_true, y_pred, average="micro")


CLF_METRICS = [accuracy_score, micro_f1, my_order_metric]


def data(rng, n, d, dtype=float):
    if dtype is int:
        return np.array([[rng.randint(-9, 9) for _ in range(d)] for _ in range(n)])
    sc = rng.choice([1.0] * 6 + [1e-6, 1e3, 1e6])
    off = rng.choice([0.0] * 6 + [1e5, -70.0])
    return np.array([[rng.choice([0.0, 1.0, -1.0, rng.uniform(-3, 3)]) * sc + off for _ in range(d)] for _ in range(n)])


def values(tree, X):
    """Program values per row, by the independent interpreter."""
    with np.errstate(all="ignore"):
        v = wl.interp(tree.tree, {f"x{j}": X[:, j] for j in range(X.shape[1])})
    return np.broadcast_to(v, (X.shape[0],))


def classes(v, n):
    """(class, judged) per program value: number of interval limits i/n that the sigmoid reaches."""
    tol = 1e-9 if np.asarray(v).dtype != np.float32 else 1e-5       # the sigmoid of single-precision values is one too
    p = expit(np.asarray(v, dtype=float))
    out, ok = [], []
    for x in p:
        k = sum(1 for i in range(1, n) if x >= i / n)
        near = any(abs(x - i / n) < tol for i in range(1, n))
        if near and n & (n - 1) == 0 and x == 0.5 and tol < 1e-6:      # exact for every way to compute it
            near = False
        out.append(k)
        ok.append(not near and not math.isnan(x))
    return np.array(out, dtype=int), np.array(ok, dtype=bool)


def draw_tree(rng, d, kind):
    if kind == "argmax":
        sets = {"typed": True, "funcs": TFUNCS + [tf.argmax2floats], "terms": {f"x{i}": float for i in range(d)},
                "erc": (-1.0, 1.0), "root": t_argmax, "vars": {f"x{i}": float for i in range(d)}}
        nodes = [FunctionNode(tf.argmax2floats)]
        for _ in range(2):
            nodes += wl.random_nodes(rng, sets, float, rng.choice([0, 1, 2]))
        return wl.make_tree(sets, nodes)
    sets = {"typed": False, "funcs": rng.sample(FUNCS, 4), "terms": [f"x{i}" for i in range(d)] + rng.choice([[], [1, 0.5]]),
            "erc": rng.choice([None, (-2.0, 2.0)]), "root": None, "vars": {f"x{i}": None for i in range(d)}}
    return wl.make_tree(sets, wl.random_nodes(rng, sets, None, rng.choice([0, 1, 2, 3])))


def judge_classes(mon, got, tree, X, kind, n, what):
    v = values(tree, X)
    got = np.asarray(got)
    mon.eq(got.shape, (X.shape[0],), f"{what}: shape of the classes")
    # a constant argmax program gives its class in the data's number type: judged by value
    mon.check(got.dtype.kind in "iub" or all(float(g).is_integer() for g in got), f"{what}: classes are not integers",
              classes=got)
    lim = 2 if kind == "argmax" else n
    mon.check(all(0 <= int(g) < lim for g in got), f"{what}: class out of range", classes=got, n=lim)
    if kind == "argmax":
        mon.check(wl.same_value(got, v), f"{what}: classes are not the program's argmax results", got=got, want=v)
    else:
        want, ok = classes(v, n)
        bad = [i for i in range(len(got)) if ok[i] and got[i] != want[i]]
        mon.check(not bad, f"{what}: class is not the sigmoid interval of the program's value",
                  rows=[(float(v[i]), int(got[i]), int(want[i])) for i in bad[:5]], n_classes=n)
    mon.event("classes_compared", len(got))


def evaluators(rng, mon):
    """Fitness of arbitrary programs under changing contexts."""
    d = rng.choice([1, 2, 4])
    reg = rng.random() < 0.5
    kind = "reg" if reg else rng.choice(["sigmoid", "sigmoid", "argmax"])
    n = wl.rare(rng, [2, 2, 3, 4, 6], [9, 12, 50, 64, 128, 130], 0.1)
    metric = rng.choice(REG_METRICS if reg else CLF_METRICS)
    X = data(rng, wl.rare(rng, [1, 2, 7, 20], [130, 1100]), d)
    y = np.array([rng.uniform(-2, 2) for _ in X]) if reg else np.array([rng.randrange(n) for _ in X])
    kw = {} if metric in (mean_absolute_error, accuracy_score) and rng.random() < 0.5 else {"metric": metric}
    late = rng.random() < 0.5
    if not late:
        kw.update(X=X, y=y)
    if reg:
        ev = RegressionEvaluator(**kw)
    else:
        ev = ClassificationEvaluator(n_classes=n, **({"clf_method": kind} if kind != "sigmoid" or rng.random() < 0.5 else {}), **kw)
    if late:
        ev.set_context((X, y))
    edge = kind == "sigmoid" and rng.random() < 0.25
    if edge:        # values close to the limits of the classes, the program is the feature itself
        for row in X:
            q = rng.randrange(1, n) / n
            row[0] = math.log(q / (1 - q)) + rng.choice([0.0, 1e-7, -1e-7, 1e-6, -1e-6, 3e-5, -3e-5, 1e-3, -1e-3]) * (1 if q != 0.5 else 2)
        mon.event("rows_at_class_limits", len(X))
    for rep in range(rng.choice([1, 2, 3])):
        t = draw_tree(rng, d, kind)
        if edge and rep == 0:
            t.tree = [TerminalNode("x0")]
        X0, y0, before = X.copy(), y.copy(), keys(t.tree)
        with np.errstate(all="ignore"):
            v = values(t, X)
            if reg and not np.all(np.isfinite(v)):
                continue
            got = ev.evaluate_individual(t)
        if reg:
            want = metric(y, np.array(v))
            mon.check(wl.close(float(got), float(want), 1e-12), "training fitness is not the metric on the training data",
                      got=got, want=want, metric=metric.__name__)
        else:
            cl = ev.classify_individual(t)
            judge_classes(mon, cl, t, X, kind, n, "evaluator")
            want = metric(y, np.asarray(cl))
            mon.check(wl.close(float(got), float(want), 1e-12), "training fitness is not the metric on the training data",
                      got=got, want=want, metric=metric.__name__)
        mon.check(np.array_equal(X, X0) and np.array_equal(y, y0), "evaluation changed the data")
        mon.eq(keys(t.tree), before, "evaluation changed the program")
        mon.event("evaluations")
        mon.sig(kind, n, metric.__name__, before, X0.tolist())
        mon.show(kind=kind, metric=metric.__name__, program=[k[1] for k in before][:10], fitness=float(got))
        if rng.random() < 0.2:
            # new content in the same arrays
            X[:] = data(rng, len(X), d)
            y[:] = y[::-1].copy()
            ev.set_context((X, y))
            mon.event("context_changes")
        elif rng.random() < 0.6:
            X = data(rng, rng.choice([1, 3, 9]), d)
            y = np.array([rng.uniform(-2, 2) for _ in X]) if reg else np.array([rng.randrange(n) for _ in X])
            ev.set_context((X, y))
            mon.event("context_changes")


def estimator(rng, d, kind, n, metric, executor="thread"):
    if kind == "argmax":
        kw = dict(function_set=TFUNCS + [tf.argmax2floats], terminal_set={f"x{i}": float for i in range(d)},
                  erc_range=rng.choice([None, (-1.0, 1.0)]), root_type=t_argmax)
        depth = (2, 3)
    else:
        kw = dict(function_set=rng.sample(FUNCS, rng.choice([3, 5])), terminal_set=[f"x{i}" for i in range(d)] + rng.choice([[], [1, 0.5]]),
                  erc_range=rng.choice([None, (-1.0, 1.0), (-3, 3)]))
        depth = rng.choice([(0, 1), (1, 2), (2, 3)])
    cr = rng.choice([FullCreator, GrowCreator])(init_depth=depth, bloat_weight=rng.choice([0.0, 0.0001, 0.1]), **kw)
    reg = kind == "reg"
    hib = not reg and metric is not my_order_metric
    if reg:
        ev = RegressionEvaluator(metric=metric)
    else:
        ev = ClassificationEvaluator(metric=metric, n_classes=n, clf_method=kind)
    sub = Subpopulation(creators=cr, population_size=rng.choice([4, 6, 10]), evaluator=ev, higher_is_better=hib,
                        elitism_rate=rng.choice([0.0, 0.2]),
                        operators_sequence=[SubtreeCrossover(probability=0.8, arity=2), SubtreeMutation(probability=0.3, init_depth=(1, 2)),
                                            ERCMutation(probability=0.2)],
                        selection_methods=[(TournamentSelection(tournament_size=3, higher_is_better=hib), 1)])
    algo = SimpleEvolution(sub, breeder=SimpleBreeder(), max_workers=rng.choice([1, 2]), executor=executor,
                           max_generation=rng.choice([0, 1, 1, 2, 2, 3, 3]), random_seed=rng.randrange(2 ** 32),
                           termination_checker=rng.choice([None, None, None, ThresholdFromTargetTerminationChecker(
                               optimal=0.0, threshold=rng.choice([1e9, 0.5]), higher_is_better=hib)]))
    return (SKRegressor if reg else SKClassifier)(algo), algo


def fit_predict(rng, mon, executor="thread"):
    d = wl.rare(rng, [1, 2, 3, 5], [11, 30], 0.06)
    kind = rng.choice(["reg", "reg", "sigmoid", "sigmoid", "argmax"])
    n = wl.rare(rng, [2, 2, 3, 4, 6], [9, 12, 50, 130], 0.1)
    metric = rng.choice(REG_METRICS if kind == "reg" else CLF_METRICS)
    rows = wl.rare(rng, [2, 3, 10, 30], [130, 1100], 0.06)
    form = rng.choice(["array"] * 4 + ["int", "list"])
    X = data(rng, rows, d, int if form == "int" else float)
    y = np.array([rng.uniform(-2, 2) for _ in X]) if kind == "reg" else np.array([rng.randrange(2 if kind == "argmax" else n) for _ in X])
    est, algo = estimator(rng, d, kind, n, metric, executor)
    for _ in range(rng.choice([1, 2])):
        try:
            est.predict(X)
        except NotFittedError:
            mon.event("not_fitted")
        except Exception as e:
            mon.fail(f"predicting before fitting raised {type(e).__name__} instead of not-fitted")
        else:
            mon.fail("predicting before fitting gave a prediction")
    X0, y0 = X.copy(), y.copy()
    with np.errstate(all="ignore"):
        try:
            back = est.fit(X.tolist(), y.tolist()) if form == "list" else est.fit(X, y)
        except ValueError as e:
            # metrics of scikit-learn refuse infinite program values
            if "infinity" in str(e) or "too large" in str(e) or "NaN" in str(e):
                mon.event("metric_refused_values")
                return
            raise
    mon.check(back is est, "fit does not return the estimator")
    mon.check(np.array_equal(X, X0) and np.array_equal(y, y0), "fitting changed the training data")
    best = algo.best_of_run_
    prog = keys(best.tree)
    b0 = snap(best)
    # training fitness of the fitted program
    v = values(best, X0)
    if kind == "reg":
        want = metric(y0, np.array(v)) if np.all(np.isfinite(v)) else None
    else:
        cl, ok = (np.asarray(v), np.ones(rows, bool)) if kind == "argmax" else classes(v, n)
        want = metric(y0, cl) if ok.all() else None
    if want is not None:
        mon.check(wl.close(float(best.get_pure_fitness()), float(want), 1e-9), "training fitness of the fitted program",
                  got=best.get_pure_fitness(), want=want, metric=metric.__name__)
        mon.event("training_fitness_checked")
    asked = []
    buf = np.zeros((rng.choice([1, 2, 6]), d))
    for _ in range(rng.choice([3, 5, 8])):
        how = rng.choice(["train", "new", "new", "one", "perm", "dup", "fortran", "int", "again", "buffer", "buffer", "huge", "float32"])
        if how == "train":
            Q = X
        elif how == "new":
            Q = data(rng, wl.rare(rng, [1, 2, 5, 17], [130, 1100]), d)
        elif how == "one":
            Q = X[rng.randrange(rows):][:1]
        elif how == "perm":
            Q = X[np.array(rng.sample(range(rows), rows))]
        elif how == "dup":
            Q = np.repeat(X, 2, axis=0)
        elif how == "fortran":
            Q = np.asfortranarray(X)
        elif how == "int":
            Q = data(rng, 4, d, int)
        elif how == "float32":
            Q = data(rng, rng.choice([1, 3, 9]), d).astype(np.float32)
        elif how == "huge":                   # values whose products overflow
            Q = np.array([[rng.choice([1e200, -1e200, 1e308, 0.0, 2.0]) for _ in range(d)] for _ in range(4)])
        elif how == "buffer":                 # the caller reuses one array for its batches
            Q = buf
            Q[:] = data(rng, len(buf), d)
            asked = [(a, g) for a, g in asked if a is not buf]
        else:
            Q = asked[-1][0] if asked else X
        Q0 = Q.copy()
        with np.errstate(all="ignore"):
            got = np.asarray(est.predict(Q))
        mon.check(np.array_equal(Q, Q0), "predicting changed the data", how=how)
        if kind == "reg":
            mon.eq(got.shape, (Q.shape[0],), "shape of the prediction")
            mon.check(wl.same_value(got, values(best, Q0)), "prediction is not the fitted program's value per row", how=how, got=got,
                      want=values(best, Q0), program=[k[1] for k in prog])
            mon.event("rows_predicted", len(got))
        else:
            judge_classes(mon, got, best, Q0, kind, n, f"prediction ({how})")
        for Qp, gp in asked:
            if Qp is Q:
                mon.check(np.array_equal(gp, got, equal_nan=kind == "reg"), "the same prediction differs the second time")
                mon.event("repeated_predictions")
        asked.append((Q, got.copy()))
        if how == "new" and len(Q) > 1:
            with np.errstate(all="ignore"):
                one = np.asarray(est.predict(Q[1:2]))
            ok = classes(values(best, Q0[1:2]), n)[1][0] if kind == "sigmoid" else True
            if ok:
                mon.check(wl.same_value(one[0], got[1]), "a row's prediction depends on its batch", got=one[0], want=got[1])
            mon.event("single_rows")
        mon.check(algo.best_of_run_ is best and snap(best) == b0, "predicting changed the fitted program")
    # score
    Q = data(rng, 6, d)
    with np.errstate(all="ignore"):
        pred = np.asarray(est.predict(Q))
        if kind != "reg" or np.all(np.isfinite(pred)):
            t = np.array([rng.uniform(-2, 2) for _ in Q]) if kind == "reg" else np.array([rng.randrange(n) for _ in Q])
            s = est.score(Q, t)
            w = r2_score(t, pred) if kind == "reg" else accuracy_score(t, pred)
            mon.check(wl.close(float(s), float(w), 1e-12), "score is not the metric on the predictions", got=s, want=w)
            mon.event("scores")
    mon.event("fits")
    if rows > 1:
        mon.sig(kind, n, prog, X0.tolist())
        mon.show(kind=kind, n_classes=n, rows=rows, metric=metric.__name__, program=[k[1] for k in prog][:10], predictions=len(asked))


def processes(rng, mon):
    fit_predict(rng, mon, "process")


SCENARIOS = [
    Scenario(evaluators, 1600, 30000, needs=("evaluations", "classes_compared", "context_changes", "rows_at_class_limits")),
    Scenario(fit_predict, 400, 6000, needs=("fits", "not_fitted", "rows_predicted", "classes_compared", "repeated_predictions",
                                            "single_rows", "scores", "training_fitness_checked")),
    Scenario(processes, 8, 64, needs=("fits",)),
]
