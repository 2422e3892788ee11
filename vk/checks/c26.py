"""C26: statistics."""
import contextlib
import io
import itertools
import logging
import math

import numpy as np

from eckity.creators import GAFloatVectorCreator
from eckity.fitness import GPFitness, SimpleFitness
from eckity.genetic_encodings.ga import FloatVector
from eckity.genetic_operators import VectorKPointsCrossover
from eckity.multi_objective_evolution.moe_best_worst_statistics import MOEBestWorstStatistics
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness
from eckity.multi_objective_evolution.nsga2_front_sorting import NSGA2FrontSorting
from eckity.multi_objective_evolution.nsga2_plot import NSGA2Plot
from eckity.population import Population
from eckity.statistics import (BestAverageWorstSizeTreeStatistics, BestAverageWorstStatistics, MinimalPrintStatistics)
from eckity.subpopulation import Subpopulation
from eckity.termination_checkers import ThresholdFromTargetTerminationChecker

from vk import mo, wl
from vk.core import Scenario

PROPERTY = "C26"
LEVEL = "exploration"
RULE = ("A case (a) writes the statistics of an arbitrary evaluated population (1-4 subpopulations, both directions, bloat "
        "weights, ties, default and custom formats) or (b) attaches 1-6 statistics to a run; the text that reaches the "
        "logger or stream during each write is parsed and compared, number by number, with values recomputed from the "
        "population at that moment, and the history of the run with that of the same run without statistics. Non-trivial: "
        "a written text was compared; distinct by text.")
ASSUMPTIONS = ["texts are compared word by word, numbers with relative tolerance 1e-9 (order of summation is free)",
               "among individuals that tie for best or worst any one may be reported",
               "corners are the first and last front's individuals with infinite crowding distance, compared as a set"]


class Capture(logging.Handler):
    def __init__(self):
        super().__init__(logging.INFO)
        self.out = []

    def emit(self, record):
        if record.name.startswith("eckity.statistics"):
            self.out.append(record.getMessage())

    def drain(self):
        t, self.out = "\n".join(self.out), []
        return t


@contextlib.contextmanager
def captured():
    lg = logging.getLogger("eckity")
    h = Capture()
    old, dis = lg.level, logging.root.manager.disable
    lg.addHandler(h)
    lg.setLevel(logging.INFO)
    logging.disable(logging.NOTSET)
    try:
        yield h
    finally:
        lg.removeHandler(h)
        lg.setLevel(old)
        logging.disable(dis)


def words(text):
    return text.split()


def same_words(got, want, tol):
    g, w = words(got), words(want)
    if len(g) != len(w):
        return False
    for a, b in zip(g, w):
        if a == b:
            continue
        try:
            x, y = float(a), float(b)
        except ValueError:
            return False
        if math.isnan(x) and math.isnan(y):
            continue
        if not wl.close(x, y, *tol):
            return False
    return True


FORMATS = [None, None, "best fitness {}\nworst fitness {}\naverage fitness {}\n", "B {} W {} A {}", "{2} | {0} | {1}", "best only {0}",
           "{:.3f} {:.3f} {:.3f}", "{1} {0}"]
SIZE_FORMATS = [None, None, "B {} W {} A {} S {}", "{3} {0}", "size {3} of {2}"]


def default_format(size):
    return "best fitness {}\nworst fitness {}\naverage fitness {}\n" + ("average size {}\n" if size else "")


def augmented(ind):
    f = ind.fitness
    s = f.get_pure_fitness()
    if isinstance(f, GPFitness) and f.bloat_weight:
        n = len(ind.tree)
        return s - f.bloat_weight * n if f.higher_is_better else s + f.bloat_weight * n
    return s


def extremes(inds, hib):
    """Pure fitness values that may be reported as best and as worst (near-ties of the augmented fitness count as ties)."""
    a = [augmented(i) for i in inds]
    hi, lo = max(a), min(a)
    tops = [i.get_pure_fitness() for i, x in zip(inds, a) if x == hi or wl.close(x, hi, 1e-13, 0)]
    bots = [i.get_pure_fitness() for i, x in zip(inds, a) if x == lo or wl.close(x, lo, 1e-13, 0)]
    return (tops, bots) if hib else (bots, tops)


def mean(v):
    try:
        return math.fsum(float(x) for x in v) / len(v)
    except (OverflowError, ValueError):
        return None


def expected(stat_kind, fmt, gen, subs):
    """All acceptable texts; None if not judged."""
    head = f"generation #{gen}\n"
    if stat_kind == "min":
        return [head]
    per = []
    for i, (inds, hib) in enumerate(subs):
        b, w = extremes(inds, hib)
        m = mean([x.get_pure_fitness() for x in inds])
        if m is None or math.isinf(m) and not any(math.isinf(x.get_pure_fitness()) for x in inds):
            return None
        # the sum may overflow in double precision although the mean does not
        if sum(abs(float(x.get_pure_fitness())) for x in inds) == math.inf:
            return None
        if m and abs(m) * 1e4 < max(abs(float(x.get_pure_fitness())) for x in inds):
            return None          # cancellation: the printed mean depends on the order of summation
        vals = []
        for x, y in itertools.product(sorted(set(b)), sorted(set(w))):
            v = [x, y, m]
            if stat_kind == "size":
                v.append(sum(len(t.tree) for t in inds) / len(inds))
            vals.append(f"subpopulation #{i}\n" + (fmt or default_format(stat_kind == "size")).format(*v) + "\n")
        per.append(vals)
    if math.prod(len(v) for v in per) > 2000:
        return None              # too many combinations of tied individuals to enumerate
    return [head + "".join(combo) for combo in itertools.product(*per)]


def judge(mon, text, exp, fmt, what, **kw):
    if exp is None:
        mon.event("means_not_judged")
        return
    tol = (1e-9, 2e-3) if fmt and ".3f" in fmt else (1e-9, 1e-12)
    ok = any(same_words(text, e, tol) for e in exp)
    mon.check(ok, f"{what}: the text written differs from the population's numbers", got=text, want=exp[0], alternatives=len(exp), **kw)
    mon.event("texts_compared")


STATS = {"baw": BestAverageWorstStatistics, "size": BestAverageWorstSizeTreeStatistics, "min": MinimalPrintStatistics}


def make_inds(rng, gp, n, hib, land):
    bw = rng.choice([0.0, 0.0, 0.5, 30.0])
    out = []
    sets = wl.untyped_sets(rng)
    for _ in range(n):
        if gp:
            ind = wl.make_tree(sets, wl.random_nodes(rng, sets, None, rng.choice([0, 1, 2, 3])), bw, hib)
        else:
            ind = FloatVector(fitness=SimpleFitness(higher_is_better=hib), length=2, bounds=(0.0, 1.0), vector=[rng.random(), rng.random()])
        ind.fitness.set_fitness(wl.LANDSCAPES[land]((rng.random(),)))
        out.append(ind)
    return out


def direct(rng, mon):
    kind = rng.choice(["baw", "baw", "size", "min"])
    gp = kind == "size" or rng.random() < 0.5
    fmt = rng.choice(SIZE_FORMATS if kind == "size" else FORMATS)
    st = STATS[kind](format_string=fmt) if fmt is not None or rng.random() < 0.5 else STATS[kind]()
    subs, pops = [], []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        hib = rng.random() < 0.5
        land = rng.choice(["hash", "ties", "const", "neg", "nonneg", "int", "np", "close", "zeros", "huge", "inf"])
        if fmt and ".3f" in fmt and land in ("huge", "int", "inf"):
            land = "hash"
        inds = make_inds(rng, gp, wl.rare(rng, [1, 2, 3, 7, 20], [70, 130, 300, 1100]), hib, land)
        subs.append((inds, hib))
        pops.append(Subpopulation(evaluator=None, creators=GAFloatVectorCreator(length=2), operators_sequence=[VectorKPointsCrossover()],
                                  population_size=len(inds), individuals=list(inds), higher_is_better=hib))
    pop = Population(pops)
    for rep in range(rng.choice([1, 2])):
        gen = rng.choice([0, 1, 7, 10, 50, 99, 100, 101, 256, 499, 500, 1000, 12345])
        before = [wl.snap_pop(p) for p in pops]
        ids = [[id(i) for i in p.individuals] for p in pops]
        with captured() as cap, np.errstate(all="ignore"):
            st.write_statistics(rng.choice([None, object()]), {"generation_num": gen, "population": pop})
            text = cap.drain()
        judge(mon, text, expected(kind, fmt, gen, subs), fmt, kind, subpopulations=len(subs))
        mon.check([wl.snap_pop(p) for p in pops] == before and [[id(i) for i in p.individuals] for p in pops] == ids,
                  "writing statistics changed the population (or its order)")
        mon.sig(kind, text)
        mon.show(kind=kind, text=text, subpopulations=len(subs))


def runs(rng, mon):
    """Statistics attached to runs: written once per generation, with that generation's numbers, without influence."""
    c = wl.draw_cfg(rng, pops=[2, 4, 6, 10, 16], max_gen=rng.choice([0, 1, 2, 3, 5, 8]))
    mk_term = lambda: None
    if rng.random() < 0.3:
        mk_term = lambda: ThresholdFromTargetTerminationChecker(optimal=0.0, threshold=rng_t, higher_is_better=c["hib"])
        rng_t = rng.choice([0.0, 100.0, 1e9])
    a0, sp0, _ = wl.build(c, termination_checker=mk_term())
    want = wl.history(a0, sp0)
    log = []
    kinds = [rng.choice(["baw", "baw", "min"] + (["size", "size"] if c["enc"] in ("gp", "gpt") else [])) for _ in range(rng.choice([1, 1, 2, 3, 4, 6]))]
    with captured() as cap, np.errstate(all="ignore"):
        stats = []
        classes = {}
        for j, k in enumerate(kinds):
            fmt = rng.choice(SIZE_FORMATS if k == "size" else FORMATS)
            if fmt and ".3f" in fmt:
                fmt = None

            class Marked(STATS[k]):
                def write_statistics(self, sender, data):
                    cap.drain()
                    super().write_statistics(sender, data)
                    log.append((self.key, sender, cap.drain()))

            # statistics of one kind are instances of one class
            st = classes.setdefault(k, Marked)(format_string=fmt)
            st.key, st.kind, st.f = j, k, fmt
            stats.append(st)
        seen = []

        def on_gen(s, d):
            # runs before the statistics, which the algorithm registers itself when it starts
            seen.append((s.generation_num, [(list(sp.individuals), c["hib"])],
                         [expected(k.kind, k.f, s.generation_num, [(list(sp.individuals), c["hib"])]) for k in stats]))
            if len(log) != len(kinds) * (len(seen) - 1):
                mon.fail("statistics were not written once per generation", generation=s.generation_num, writes=len(log), stats=len(kinds))

        single = len(stats) == 1 and rng.random() < 0.5
        algo, sp, _ = wl.build(c, statistics=stats[0] if single else stats, termination_checker=mk_term())
        algo.register("after_generation", on_gen)
        cap.drain()
        got = wl.history(algo, sp)
    mon.check(got == want, "attaching statistics changed the run", cfg=c)
    mon.event("histories_compared")
    mon.eq(len(log), len(kinds) * len(seen), "statistics were not written once per generation and statistic")
    for g, (gen, _, exp) in enumerate(seen):
        part = log[g * len(kinds):(g + 1) * len(kinds)]
        mon.eq(sorted(p[0] for p in part), list(range(len(kinds))), "a statistic was skipped or written twice in a generation")
        for key, sender, text in part:
            mon.check(sender is algo, "statistics called with another sender")
            judge(mon, text, exp[key], stats[key].f, f"generation {gen}, statistic {key}", cfg=c)
    mon.event("generations", len(seen))
    if seen:
        mon.sig([t for _, _, t in log])
        mon.show(enc=c["enc"], statistics=kinds, generations=len(seen), text=log[0][2][:120])


# ------------------------------------------------------------------ multi-objective
MFORMATS = [None, None, "{} individuals ({:.1f}%) first {} last {}", "{0} {1:.3f} | {2} | {3}"]


def parse_moe(text, fmt, nsubs):
    """Splits the text into generation number and per-subpopulation chunks."""
    lines = [l for l in text.split("\n") if l.strip()]
    chunks, cur = [], None
    head = lines[0]
    for l in lines[1:]:
        if l.startswith("subpopulation #"):
            cur = [l]
            chunks.append(cur)
        elif cur is not None:
            cur.append(l)
    return head, chunks


def corner_set(txt):
    v = eval(txt, {"__builtins__": {}}, {"inf": math.inf, "nan": math.nan})
    return v


def judge_moe(mon, text, fmt, gen, subs, what):
    head, chunks = parse_moe(text, fmt, len(subs))
    mon.eq(head.strip(), f"generation #{gen}", f"{what}: generation line")
    mon.eq(len(chunks), len(subs), f"{what}: number of subpopulations written", text=text)
    for i, (ch, inds) in enumerate(zip(chunks, subs)):
        ranks = [x.fitness.front_rank for x in inds]
        last = max(ranks)
        mon.eq(ch[0].strip(), f"subpopulation #{i} has {last} fronts", f"{what}: fronts line")
        body = " ".join(ch[1:])
        first = [x for x in inds if x.fitness.front_rank == 1]
        corners = {r: {tuple(float(v) for v in x.get_pure_fitness()) for x in inds if x.fitness.front_rank == r and x.fitness.crowding == math.inf}
                   for r in (1, last)}
        # two bracketed lists, in the order of the format
        parts, depth, st = [], 0, None
        for p, chx in enumerate(body):
            if chx == "[":
                if depth == 0:
                    st = p
                depth += 1
            elif chx == "]":
                depth -= 1
                if depth == 0:
                    parts.append((st, p + 1))
        mon.eq(len(parts), 2, f"{what}: two lists of corners", body=body)
        for (s, e), r, nm in zip(parts, (1, last), ("first", "last")):
            got = corner_set(body[s:e])
            mon.eq({tuple(float(v) for v in x) for x in got}, corners[r], f"{what}: corners of the {nm} front")
            mon.eq(len(got), len(corners[r]), f"{what}: corners of the {nm} front repeated")
        rest = body[:parts[0][0]] + " @ " + body[parts[0][1]:parts[1][0]] + " @ " + body[parts[1][1]:]
        f = (fmt or "first front has {} individuals ({:.1f}%)\nfirst front's corners: {}\nlast front's corners: {}\n")
        want = f.format(len(first), len(first) / len(inds) * 100, " @ ", " @ ")
        mon.check(words(rest) == words(want), f"{what}: number and share of first-front individuals", got=rest, want=want)
    mon.event("moe_texts_compared")


def moe_direct(rng, mon):
    fmt = rng.choice(MFORMATS)
    m = rng.choice([1, 2, 2, 3])
    subs, pops = [], []
    for _ in range(rng.choice([1, 1, 2, 3])):
        hib = rng.random() < 0.5
        n = wl.rare(rng, [2, 4, 8, 12], [70, 130])
        kind = rng.choice(["cont", "ties", "mixed", "line", "chain", "const"])
        inds = []
        for _ in range(n):
            v = FloatVector(fitness=NSGA2Fitness(higher_is_better=hib), length=1, bounds=(0.0, 1.0), vector=[rng.random()])
            v.fitness.set_fitness(mo.objectives(kind, m, (rng.random(),)))
            inds.append(v)
        p = Subpopulation(evaluator=None, creators=GAFloatVectorCreator(length=1), operators_sequence=[VectorKPointsCrossover()],
                          population_size=n, individuals=inds, higher_is_better=hib)
        NSGA2FrontSorting().select_for_population(Population([p]), new_pop_size=rng.choice([n, max(2, n // 2)]))
        pops.append(p)
        subs.append(list(p.individuals))
    out = io.StringIO()
    st = MOEBestWorstStatistics(format_string=fmt, output_stream=out)
    gen = rng.choice([1, 2, 10, 40, 100, 256, 1000, 4321])
    before = [wl.snap_pop(p) for p in pops]
    st.write_statistics(None, {"generation_num": gen, "population": Population(pops)})
    text = out.getvalue()
    judge_moe(mon, text, fmt, gen, subs, "direct")
    mon.check([wl.snap_pop(p) for p in pops] == before, "writing statistics changed the population")
    mon.sig(text)
    mon.show(text=text)


def moe_runs(rng, mon):
    c = mo.draw_mo(rng, max_gen=rng.choice([1, 2, 3, 5]))
    a0, sp0 = mo.build_mo(c)
    want = wl.history(a0, sp0)
    streams = [io.StringIO() for _ in range(rng.choice([1, 1, 2]))]
    fmts = [rng.choice(MFORMATS) for _ in streams]
    stats = [MOEBestWorstStatistics(format_string=f, output_stream=s) for f, s in zip(fmts, streams)]
    algo, sp = mo.build_mo(c, statistics=stats if len(stats) > 1 or rng.random() < 0.5 else stats[0])
    pos = [0] * len(streams)
    gens = []

    def flush():
        # what was written since the last generation belongs to the previous one
        if not gens:
            return
        gen, inds = gens[-1]
        for j, s in enumerate(streams):
            t = s.getvalue()[pos[j]:]
            pos[j] = len(s.getvalue())
            mon.eq(t.count("generation #"), 1, "statistics were not written once per generation", generation=gen, statistic=j)
            judge_moe(mon, t, fmts[j], gen, [inds], f"generation {gen}, statistic {j}")

    def on_gen(s, d):
        flush()
        gens.append((s.generation_num, list(sp.individuals)))

    algo.register("after_generation", on_gen)
    # snapshots hold the individuals themselves: ranks are read before the next generation changes them
    algo.breeder.register("before_operator", lambda s, d: (flush(), gens.clear()))
    got = wl.history(algo, sp)
    flush()
    mon.check(got == want, "attaching statistics changed the run", cfg=c)
    mon.event("histories_compared")
    mon.sig([s.getvalue() for s in streams])
    mon.show(statistics=len(stats), generations=c["gens"], text=streams[0].getvalue()[:150])


# ------------------------------------------------------------------ plots
class Shown:
    """What is on the figures whenever they are shown (and closed by the viewer)."""

    def __enter__(self):
        import matplotlib
        matplotlib.use("Agg", force=True)
        import matplotlib.pyplot as plt
        plt.close("all")
        plt.close(plt.figure())
        self.plt, self.show = plt, plt.show
        self.seen = []

        def show(*a, **k):
            self.look()
        plt.show = show
        return self

    def look(self):
        for n in self.plt.get_fignums():
            for ax in self.plt.figure(n).axes:
                pts = [tuple(map(float, p)) for col in ax.collections for p in np.asarray(col.get_offsets())]
                pts += [tuple(map(float, p)) for ln in ax.lines for p in np.asarray(ln.get_xydata())]
                self.seen.append((sorted(pts), ax.get_xlabel(), ax.get_ylabel()))
        self.plt.close("all")

    def drain(self):
        out, self.seen = self.seen, []
        return out

    def __exit__(self, *a):
        self.plt.close("all")
        self.plt.show = self.show


def judge_plot(mon, seen, subs, labels, what):
    if any(len(i.get_pure_fitness()) != 2 for inds in subs for i in inds):
        mon.eq(seen, [], f"{what}: a plot for other than two objectives")
        mon.event("no_plots")
        return
    want = [(sorted(tuple(map(float, i.get_pure_fitness())) for i in inds),) + labels for inds in subs]
    mon.eq(seen, want, f"{what}: shown points (and axis labels) are not the objectives of the individuals")
    mon.event("plots_compared", len(want))
    mon.event("points_compared", sum(len(w[0]) for w in want))


def plots(rng, mon):
    import os
    import tempfile
    labels = (rng.choice(["cost", "f0"]), rng.choice(["gain", "f1"]))
    dflt = rng.random() < 0.3
    with Shown() as shown, tempfile.TemporaryDirectory(prefix="vkplot") as tmp:
        path = os.path.join(tmp, "p.png") if rng.random() < 0.3 else None
        if dflt:
            plot, labels = NSGA2Plot(savefile=path), ("Objective function 1", "Objective function 2")
        else:
            plot = NSGA2Plot(labels[0], labels[1], path) if rng.random() < 0.5 else NSGA2Plot(objective1=labels[0], objective2=labels[1], savefile=path)
        if rng.random() < 0.6:
            m = rng.choice([1, 2, 2, 2, 3])
            pops = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                inds = []
                for _ in range(wl.rare(rng, [1, 2, 8], [150])):
                    v = FloatVector(fitness=NSGA2Fitness(), length=1, bounds=(0.0, 1.0), vector=[rng.random()])
                    v.fitness.set_fitness(mo.objectives(rng.choice(["cont", "ties", "line"]), m, (rng.random(),)))
                    inds.append(v)
                pops.append(Subpopulation(evaluator=None, creators=GAFloatVectorCreator(length=1), operators_sequence=[VectorKPointsCrossover()],
                                          population_size=len(inds), individuals=inds))
            before = [[i.get_pure_fitness() for i in p.individuals] for p in pops]
            ids = [list(map(id, p.individuals)) for p in pops]
            plot.print_plots(None, {"population": Population(pops), "generation_num": 3})
            judge_plot(mon, shown.drain(), [p.individuals for p in pops], labels, "direct")
            mon.check(before == [[i.get_pure_fitness() for i in p.individuals] for p in pops] and ids == [list(map(id, p.individuals)) for p in pops],
                      "plotting changed the population")
            drawn = m == 2
            mon.sig("plot", m, before)
        else:
            c = mo.draw_mo(rng, max_gen=rng.choice([1, 2]))
            a0, sp0 = mo.build_mo(c)
            want = wl.history(a0, sp0)
            algo, sp = mo.build_mo(c)
            gens = []
            # registered before and after the plot: what is shown in between is this generation's plot
            algo.register("after_generation", lambda s, d: shown.drain())
            algo.register("after_generation", plot.print_plots)
            algo.register("after_generation", lambda s, d: (judge_plot(mon, shown.drain(), [sp.individuals], labels, f"generation {d['generation_num']}"),
                                                            gens.append(1)))
            got = wl.history(algo, sp)
            mon.check(got == want, "attaching a plot changed the run", cfg=c)
            mon.check(gens, "no generation observed")
            mon.event("histories_compared")
            drawn = c["m"] == 2
            mon.sig("plotrun", want)
        if path is not None and drawn:
            mon.check(os.path.exists(path) and os.path.getsize(path) > 0, "the plot was not saved to the given file")
            img = shown.plt.imread(path)[..., :3]
            # markers are coloured, axes and texts are grey
            mon.check(bool((img.max(axis=-1) - img.min(axis=-1) > 0.2).any()), "the saved plot shows no points")
            mon.event("plots_saved")


SCENARIOS = [
    Scenario(direct, 4000, 60000, needs=("texts_compared",)),
    Scenario(runs, 480, 8000, needs=("texts_compared", "histories_compared", "generations")),
    Scenario(moe_direct, 1200, 20000, needs=("moe_texts_compared",)),
    Scenario(moe_runs, 240, 5000, needs=("moe_texts_compared", "histories_compared")),
    Scenario(plots, 40, 800, needs=("plots_compared", "no_plots", "plots_saved")),
]
