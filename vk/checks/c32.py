"""C32: the estimators in scikit-learn's model selection."""
import copy
import random

import numpy as np
from sklearn.base import clone
from sklearn.exceptions import NotFittedError
from sklearn.metrics import accuracy_score, r2_score
from sklearn.model_selection import GridSearchCV, KFold, cross_val_predict, cross_val_score
from sklearn.pipeline import Pipeline, make_pipeline
from sklearn.preprocessing import StandardScaler

from vk import wl
from vk.checks import c24
from vk.checks.c16 import keys
from vk.core import Scenario, Skip

PROPERTY = "C32"
LEVEL = "exploration"
RULE = ("A case generates a data set and a description of a small estimator (regressor, sigmoid or argmax classifier) from which "
        "equal estimators can be built at will. Parameter cases read and set parameters (generations, workers, termination "
        "checkers) in random sequences, fit, clone and fit the clones; model-selection cases use cross_val_predict, "
        "cross_val_score, GridSearchCV over the number of generations (plain and in a pipeline with scaling) and compare every "
        "prediction, score and choice with separately built and fitted estimators. Non-trivial: predictions of two estimators "
        "that were fitted separately compared; distinct by data and program.")
ASSUMPTIONS = ["parameters are those of the wrapped algorithm (its constructor's names); replacing the algorithm itself through "
               "set_params is left open",
               "clones of unfitted estimators are fitted; a clone of a fitted one is only required to be unfitted and independent"]


class Recipe:
    """Builds equal estimators again and again."""

    def __init__(self, rng):
        self.kind = rng.choice(["reg", "reg", "sigmoid", "argmax"])
        self.d = rng.choice([1, 2, 3])
        self.n = rng.choice([2, 2, 3])
        self.metric = rng.choice(c24.REG_METRICS if self.kind == "reg" else c24.CLF_METRICS)
        self.seed = rng.getrandbits(64)
        rows = rng.choice([6, 9, 15])
        self.X = c24.data(rng, rows, self.d)
        self.y = np.array([rng.uniform(-2, 2) for _ in self.X]) if self.kind == "reg" else \
            np.array([rng.randrange(2 if self.kind == "argmax" else self.n) for _ in self.X])

    def make(self):
        return c24.estimator(random.Random(self.seed), self.d, self.kind, self.n, self.metric)

    def fitted(self, X=None, y=None, **params):
        est, algo = self.make()
        for k, v in params.items():
            setattr(algo, k, v)
        fit(est, self.X if X is None else X, self.y if y is None else y)
        return est, algo


def quiet(fn):
    with np.errstate(all="ignore"):
        try:
            return fn()
        except ValueError as e:
            # metrics of scikit-learn refuse infinite program values
            if "infinity" in str(e) or "too large" in str(e) or "NaN" in str(e):
                raise Skip()
            raise


def fit(est, X, y):
    return quiet(lambda: est.fit(X, y))


def predict(est, X):
    return quiet(lambda: np.asarray(est.predict(X)))


def unfitted(mon, est, X, what):
    try:
        est.predict(X)
    except NotFittedError:
        mon.event("not_fitted")
    else:
        mon.fail(f"{what} is fitted")


def compare(mon, est, ref, X, what):
    a, b = predict(est, X), predict(ref, X)
    mon.check(wl.same_value(a, b), f"{what}: predictions differ from those of a separately fitted equal estimator", got=a, want=b)
    mon.event("predictions_compared", len(a))


def params(rng, mon):
    r = Recipe(rng)
    est, algo = r.make()
    public = lambda: {k: v for k, v in vars(algo).items() if k != "executor" and not k.startswith("_")}
    expected = {}
    for _ in range(rng.choice([1, 2, 4])):
        what = rng.choice(["get", "get", "set", "set", "set2", "noop", "tamper"])
        before = public()
        if what == "get":
            got = est.get_params(deep=rng.choice([True, False])) if rng.random() < 0.7 else est.get_params()
            mon.check(set(got) == {"algorithm"} and got["algorithm"] is algo, "parameters of an estimator", got=sorted(got))
        elif what == "tamper":
            got = est.get_params()
            got["algorithm"] = None
            got["is_fitted_"] = True
            mon.check(est.algorithm is algo and est.get_params()["algorithm"] is algo, "changing the dictionary of get_params changed the estimator")
            unfitted(mon, est, r.X, "an estimator whose parameters were read")
        elif what == "noop":
            mon.check(est.set_params() is est, "set_params does not return the estimator")
        else:
            new = {"max_generation": rng.choice([0, 1, 2, 3, 4])}
            if what == "set2":
                new["max_workers"] = rng.choice([1, 2, 3])
                if rng.random() < 0.5:
                    new["termination_checker"] = None
            new = dict(rng.sample(sorted(new.items(), key=lambda kv: kv[0]), len(new)))
            keep = dict(new)
            mon.check(est.set_params(**new) is est, "set_params does not return the estimator")
            mon.eq(new, keep, "set_params changed its arguments")
            expected.update(new)
            mon.event("parameters_set", len(new))
        after = public()
        mon.eq(set(after), set(before), "names of the algorithm's attributes after setting known parameters")
        for k in after:
            want = expected[k] if k in expected else before[k]
            mon.check(after[k] is want or after[k] == want, "attribute of the algorithm", name=k, what=what, got=after[k], want=want)
        mon.check(est.algorithm is algo, "the estimator's algorithm was replaced", what=what)
        if "max_workers" in expected:
            # the pool is built lazily by the standard library: its limit is what the parameter controls
            mon.eq(getattr(algo.executor, "_max_workers", expected["max_workers"]), expected["max_workers"], "workers of the pool after set_params")
    gens = []
    algo.register("after_generation", lambda s, d: gens.append(d["generation_num"]))
    X0, y0 = r.X.copy(), r.y.copy()
    # clones of the unfitted estimator
    twin = clone(est) if rng.random() < 0.7 else None
    if twin is not None:
        mon.check(type(twin) is type(est) and twin is not est, "type of a clone")
        independent(mon, twin, est)
        unfitted(mon, twin, r.X, "a clone")
        for k in ("max_generation", "max_workers", "random_seed", "generation_seed"):
            mon.eq(getattr(twin.algorithm, k), getattr(algo, k), "parameter of a clone", name=k)
        mon.event("clones")
    first = rng.random() < 0.5
    if twin is not None and first:
        fit(twin, r.X, r.y)
        unfitted(mon, est, r.X, "an estimator whose clone was fitted")
        gens.clear()
    fit(est, r.X, r.y)
    if algo.termination_checker is None:
        mon.eq(algo.final_generation_, algo.max_generation, "generations of the fit after set_params")
        want = list(range(1, algo.max_generation + 1))
        mon.eq(gens, want, "generations observed after set_params")
    before = public()
    for deep in (True, False):
        mon.eq(set(est.get_params(deep=deep)), {"algorithm"}, "parameters of a fitted estimator")
    spare = clone(est)
    after = public()
    mon.check(set(after) == set(before) and all(after[k] is before[k] or after[k] == before[k] for k in before),
              "reading the parameters of a fitted estimator, or cloning it, changed its algorithm",
              changed=[k for k in after if after[k] is not before.get(k) and after[k] != before.get(k)])
    unfitted(mon, spare, r.X, "a clone of a fitted estimator")
    ref, _ = r.fitted(**expected)
    compare(mon, est, ref, r.X, "set_params")
    if twin is not None:
        p = predict(est, r.X)
        if not first:
            unfitted(mon, twin, r.X, "a clone of an estimator that was fitted afterwards")
            fit(twin, r.X, r.y)
        mon.check(wl.same_value(predict(twin, r.X), p), "a clone fits to another program", a=keys(twin.algorithm.best_of_run_.tree),
                  b=keys(algo.best_of_run_.tree))
        mon.check(wl.same_value(predict(est, r.X), p), "fitting a clone changed the predictions of the original")
        mon.event("clones_fitted")
    # a clone of the fitted estimator is unfitted and independent
    late = clone(est)
    unfitted(mon, late, r.X, "a clone of a fitted estimator")
    independent(mon, late, est)
    compare(mon, est, ref, r.X, "after cloning")
    mon.check(np.array_equal(r.X, X0) and np.array_equal(r.y, y0), "the data was changed")
    mon.sig(r.kind, keys(algo.best_of_run_.tree), X0.tolist())
    mon.show(kind=r.kind, parameters=sorted(expected), generations=algo.final_generation_,
             program=[k[1] for k in keys(algo.best_of_run_.tree)][:10])


def independent(mon, a, b):
    A, B = a.algorithm, b.algorithm
    mon.check(A is not B, "a clone shares its algorithm")
    mon.check(A.population is not B.population, "a clone shares its population")
    for s, t in zip(A.population.sub_populations, B.population.sub_populations):
        mon.check(s is not t and s.evaluator is not t.evaluator and s.creators is not t.creators, "a clone shares components of its population")
        mon.check(all(o is not q for o, q in zip(s.get_operators_sequence(), t.get_operators_sequence())), "a clone shares its operators")
    mon.check(A.breeder is not B.breeder and A.population_evaluator is not B.population_evaluator, "a clone shares components")
    mon.check(A.executor is not B.executor, "a clone shares its executor")
    mon.check(A.events is not B.events and all(A.events[k] is not B.events[k] for k in A.events if k in B.events), "a clone shares subscribers")


def cross(rng, mon):
    r = Recipe(rng)
    est, algo = r.make()
    cv = KFold(n_splits=rng.choice([2, 3]), shuffle=rng.random() < 0.5, random_state=None)
    if cv.shuffle:
        cv.random_state = rng.randrange(1000)
    X0, y0 = r.X.copy(), r.y.copy()
    how = rng.choice(["predict", "score"])
    refs = []
    for tr, te in cv.split(r.X):
        ref, _ = r.fitted(r.X[tr], r.y[tr])
        refs.append((te, ref, predict(ref, r.X[te])))
    if how == "predict":
        got = quiet(lambda: cross_val_predict(est, r.X, r.y, cv=cv))
        for te, ref, want in refs:
            mon.check(wl.same_value(np.asarray(got)[te].astype(float), np.asarray(want).astype(float)),
                      "cross-validated predictions differ from those of separately fitted estimators", got=got[te], want=want)
            mon.event("predictions_compared", len(te))
    else:
        if any(not np.all(np.isfinite(w)) for _, _, w in refs) or any(len(te) < 2 for te, _, _ in refs):
            raise Skip()
        got = quiet(lambda: cross_val_score(est, r.X, r.y, cv=cv, error_score="raise"))
        want = [r2_score(r.y[te], w) if r.kind == "reg" else accuracy_score(r.y[te], w) for te, _, w in refs]
        mon.check(np.allclose(got, want, rtol=1e-9, atol=1e-12), "cross-validation scores", got=list(got), want=want)
        mon.event("predictions_compared", len(r.X))
    mon.event("cross_validations")
    unfitted(mon, est, r.X, "an estimator that was cross-validated")
    mon.check(np.array_equal(r.X, X0) and np.array_equal(r.y, y0), "the data was changed")
    mon.sig(how, r.kind, X0.tolist(), [keys(ref.algorithm.best_of_run_.tree) for _, ref, _ in refs])
    mon.show(kind=r.kind, how=how, splits=len(refs))


def grid(rng, mon):
    r = Recipe(rng)
    est, algo = r.make()
    pipe = rng.random() < 0.4
    gens = sorted(rng.sample([0, 1, 2, 3, 5], rng.choice([2, 3])))
    if rng.random() < 0.5:
        gens.reverse()
    model = Pipeline([("scale", StandardScaler()), ("gp", est)]) if pipe else est
    cv = KFold(n_splits=2)
    rows = {}
    for g in gens:
        s = []
        for tr, te in cv.split(r.X):
            Xt, Xe = r.X[tr], r.X[te]
            if pipe:
                sc = StandardScaler().fit(Xt)
                Xt, Xe = sc.transform(Xt), sc.transform(Xe)
            ref, _ = r.fitted(Xt, r.y[tr], max_generation=g)
            p = predict(ref, Xe)
            if not np.all(np.isfinite(p)):
                raise Skip()
            s.append(r2_score(r.y[te], p) if r.kind == "reg" else accuracy_score(r.y[te], p))
        rows[g] = float(np.mean(s))
    gs = GridSearchCV(model, {("gp__max_generation" if pipe else "max_generation"): gens}, cv=cv, error_score="raise")
    quiet(lambda: gs.fit(r.X, r.y))
    got = dict(zip([p[("gp__max_generation" if pipe else "max_generation")] for p in gs.cv_results_["params"]],
                   gs.cv_results_["mean_test_score"]))
    for g in gens:
        mon.check(wl.close(got[g], rows[g], 1e-9), "score of a grid point differs from that of separately fitted estimators",
                  generations=g, got=got[g], want=rows[g])
        mon.event("grid_points")
    best = list(gs.best_params_.values())[0]
    mon.check(wl.close(rows[best], max(rows.values()), 1e-9), "grid search chose a worse parameter", best=best, scores=rows)
    X = r.X
    if pipe:
        sc = StandardScaler().fit(r.X)
        X = sc.transform(r.X)
    ref, _ = r.fitted(X, r.y, max_generation=best)
    a, b = predict(gs, r.X), predict(ref, X)
    mon.check(wl.same_value(a, b), "the refitted best estimator predicts differently from a separately fitted one", got=a, want=b, best=best)
    mon.event("predictions_compared", len(a))
    unfitted(mon, est, r.X, "the estimator given to a grid search")
    mon.check(algo.best_of_run_ is None, "the estimator given to a grid search was run")
    mon.sig("grid", r.kind, pipe, gens, r.X.tolist(), keys(ref.algorithm.best_of_run_.tree))
    mon.show(kind=r.kind, pipeline=pipe, grid=gens, best=best)


SCENARIOS = [
    Scenario(params, 300, 5000, needs=("parameters_set", "clones", "clones_fitted", "not_fitted", "predictions_compared")),
    Scenario(cross, 120, 2000, needs=("cross_validations", "predictions_compared")),
    Scenario(grid, 60, 1000, needs=("grid_points", "predictions_compared")),
]
