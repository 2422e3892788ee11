"""C08: events."""
from eckity.before_after_publisher import BeforeAfterPublisher
from eckity.breeders import SimpleBreeder
from eckity.event_based_operator import Operator
from eckity.genetic_operators import (ERCMutation, FitnessProportionateSelection, SubtreeCrossover, SubtreeMutation,
                                      TournamentSelection, VectorKPointsCrossover, BitStringVectorFlipMutation,
                                      ElitismSelection, IdentityTransformation, FloatVectorGaussNPointMutation,
                                      FloatVectorGaussOnePointMutation)
from eckity.creators import GAFloatVectorCreator, GABitStringVectorCreator, GrowCreator
from eckity.population import Population
from eckity.subpopulation import Subpopulation
from eckity.termination_checkers import TerminationChecker

from vk import mo, wl
from vk.core import Scenario

PROPERTY = "C08"
LEVEL = "exploration"
RULE = ("A case is (a) a random program of register / unregister / publish / act on a publisher (plain, user operator with own "
        "event names, breeders, selections, operators, creators, evaluators), with callbacks that register and unregister "
        "themselves and others while being called, compared call by call with a subscription model; or (b) a run of the "
        "single- or multi-objective algorithm with callbacks on the algorithm, its breeder and its evaluator, whose event "
        "trace is compared with the trace specification. Non-trivial: at least one callback delivery observed; distinct by "
        "program or configuration.")
ASSUMPTIONS = ["whether a callback (un)registered by another callback during a publication still gets that publication is left "
               "open; every other delivery is exact"]


class UserOp(Operator):
    def __init__(self, events=None, event_names=None, arity=1):
        super().__init__(arity=arity, events=events, event_names=event_names)
        self.acted = 0

    def apply_operator(self, payload):
        self.acted += 1
        return ("result", self.acted)

    def event_name_to_data(self, event_name):
        return {"name": event_name, "acted": self.acted}


def make_publisher(rng):
    """(publisher, event names, act function or None)"""
    k = rng.choice(["plain", "plain2", "userop", "userop_events", "breeder", "tsel", "fpsel", "elit", "kxo", "flip",
                    "subx", "gauss", "ident", "creator", "gpcreator", "eval", "peval"])
    ba = ["before_operator", "after_operator"]
    inds = lambda n, hib=True: evaluated(rng, n, hib)
    if k == "plain":
        names = rng.sample(["a", "b", "start", "before_operator_x"], rng.randint(0, 3))
        p = BeforeAfterPublisher(event_names=names or rng.choice([None, []]))
        return p, names + ba, lambda: p.act_and_publish_before_after(lambda: 42), 42
    if k == "plain2":
        names = rng.sample(["a", "b", "c"], 2)
        p = BeforeAfterPublisher(events=names)
        return p, names + ba, lambda: p.act_and_publish_before_after(lambda: "x"), "x"
    if k == "userop":
        p = UserOp(event_names=["alpha", "beta"])
        return p, ["alpha", "beta"] + ba, lambda: p.act(None), None
    if k == "userop_events":
        p = UserOp(events=["gamma"], event_names=rng.choice([None, ["alpha"]]))
        return p, ["gamma"] + ba, lambda: p.act(None), None
    if k == "breeder":
        p = SimpleBreeder(events=rng.choice([None, ["mine"]]))
        sp = Subpopulation(evaluator=None, creators=GABitStringVectorCreator(length=3), population_size=4,
                           operators_sequence=[BitStringVectorFlipMutation()], individuals=inds(4, False))

        def act():
            p.breed(Population([sp])) if rng.random() < 0.5 else p.act(Population([sp]))
            for i in sp.individuals:
                i.fitness.set_fitness(rng.random())
        return p, ba, act, None
    if k in ("tsel", "fpsel", "elit"):
        p = {"tsel": lambda: TournamentSelection(2, True), "fpsel": lambda: FitnessProportionateSelection(True),
             "elit": lambda: ElitismSelection(2, True)}[k]()
        return p, ba + ["after_selection"], lambda: p.act((inds(4), [])), None
    if k == "kxo":
        p = VectorKPointsCrossover(probability=rng.choice([0, 0.5, 1]), events=rng.choice([None, ["mine"]]))
        return p, ba, lambda: p.act(inds(2)), None
    if k == "flip":
        p = BitStringVectorFlipMutation(probability=rng.choice([0, 1]))
        return p, ba, lambda: p.act(inds(1)), None
    if k == "gauss":       # (falls back to uniform mutation most of the time)
        p = rng.choice([FloatVectorGaussOnePointMutation(mu=rng.choice([0.0, 900.0])),
                        FloatVectorGaussNPointMutation(n=2, mu=900.0, probability=rng.choice([0.5, 1.0]))])
        return p, ba, lambda: p.act(GAFloatVectorCreator(length=3, bounds=(0.0, 1.0)).create_individuals(1, True)), None
    if k == "ident":
        p = IdentityTransformation(events=["mine"])
        return p, ba + ["mine"], lambda: p.act(inds(1)), None
    if k == "subx":
        sets = wl.untyped_sets(rng)
        p = rng.choice([SubtreeCrossover(), SubtreeMutation(), ERCMutation()])
        return p, ba, lambda: p.act([wl.make_tree(sets, wl.random_nodes(rng, sets)) for _ in range(p.arity)]), None
    if k == "creator":
        ev = rng.choice([None, ["mine"]])
        p = GABitStringVectorCreator(length=3, events=ev)
        return p, ba + (ev or ["after_creation"]), None, None
    if k == "gpcreator":
        sets = wl.untyped_sets(rng)
        p = GrowCreator(init_depth=(1, 2), function_set=sets["funcs"], terminal_set=sets["terms"])
        return p, ba + ["after_creation"], None, None
    if k == "eval":
        p = wl.PureEval()
        return p, ba, lambda: p.act((inds(1)[0], [])), None
    from concurrent.futures import ThreadPoolExecutor
    from eckity.evaluators import SimplePopulationEvaluator
    p = SimplePopulationEvaluator(rng.choice(["map", "submit"]))
    sp = Subpopulation(evaluator=wl.PureEval(), creators=GABitStringVectorCreator(length=3), population_size=4,
                       operators_sequence=[], individuals=inds(4))

    def act():
        with ThreadPoolExecutor(1) as ex:
            p.set_executor(ex)
            return p.act(Population([sp]))
    return p, ba, act, None


def evaluated(rng, n, hib):
    out = GABitStringVectorCreator(length=3).create_individuals(n, hib)
    for i in out:
        i.fitness.set_fitness(rng.random())
    return out


def programs(rng, mon):
    pub, names, act, _ = make_publisher(rng)
    other, onames, oact, _ = make_publisher(rng)
    live = {}            # handle -> (event, cb number)
    cbs = {}             # cb number -> callback
    busy = {"act": False}
    calls = []           # (cb number, sender, data) of the current publication
    fuzzy = set()        # cb numbers whose subscription changed in mid-publication
    state = {"n": 0, "phase": None}
    plan = {}            # cb number -> what it does when called

    def new_cb(ev):
        k = state["n"]
        state["n"] += 1

        def cb(sender, data):
            calls.append((k, sender, data, state["phase"]))
            todo = plan.pop(k, None)
            if todo == "self":
                mine = [h for h, (e, q) in live.items() if q == k]
                if len(mine) > 1:
                    fuzzy.add(k)
                for h in mine:
                    pub.unregister(*h)
                    del live[h]
                    mon.event("self_unregistrations")
            elif todo == "other":
                hs = [h for h, (e, q) in live.items() if q != k]
                if hs:
                    h = hs[0]
                    fuzzy.add(live[h][1])
                    pub.unregister(*h)
                    del live[h]
                    mon.event("cross_unregistrations")
            elif todo == "new":
                e2 = rng.choice(names)
                c2 = new_cb(e2)
                fuzzy.add(c2.k)
                h = (e2, pub.register(e2, c2))
                mon.check(h not in live, "register returned an id in use", id=h)
                live[h] = (e2, c2.k)
                mon.event("registrations_while_called")
        cb.k = k
        cbs[k] = cb
        if not busy["act"] and rng.random() < 0.3:
            plan[k] = rng.choice(["self", "self", "other", "new"])
        return cb

    def expect(ev, before, what):
        got = [c for c in calls]
        for k, sender, data, _p in got:
            mon.check(sender is pub, f"{what}: callback called with another sender")
            mon.check(isinstance(data, dict) or data is None, f"{what}: payload", data=data)
        cnt = {}
        for k, *_ in got:
            cnt[k] = cnt.get(k, 0) + 1
        for k in set(cnt) | set(before):
            regs = before.count(k)
            if k in fuzzy:
                mon.check(cnt.get(k, 0) <= max(1, regs), f"{what}: callback called {cnt.get(k)} times")
                continue
            if regs > 1:
                mon.event("repeated_registrations")
            mon.check(cnt.get(k, 0) == regs,
                      f"{what}: callback called {cnt.get(k, 0)} times, registered {regs} times",
                      event=ev, publisher=type(pub).__name__)
        steady = [k for k in before if k not in fuzzy]
        mon.eq([k for k, *_ in got if k not in fuzzy], steady, f"{what}: callbacks are not called in the order of registration",
               event=ev, publisher=type(pub).__name__)
        mon.event("publications")
        mon.event("deliveries", len(got))
        calls.clear()
        fuzzy.clear()

    prog = []
    for step in range(wl.rare(rng, [4, 10, 25], [150, 300], 0.02)):
        r = rng.random()
        if r < 0.4 or not live and r < 0.6:
            ev = rng.choice(names)
            if rng.random() < 0.1:
                pub.register(ev)        # no callback: does nothing when published
                prog.append(("none", ev))
                continue
            # now and then one callback is registered again: every registration counts
            cb = cbs[rng.choice(sorted(live.values()))[1]] if live and rng.random() < 0.15 else new_cb(ev)
            h = (ev, pub.register(ev, cb))
            mon.check(h not in live, "register returned an id that is still in use", id=h)
            live[h] = (ev, cb.k)
            prog.append(("reg", ev))
        elif r < 0.55 and live:
            h = rng.choice(sorted(live))
            pub.unregister(*h)
            del live[h]
            prog.append(("unreg",))
        elif r < 0.75 or act is None:
            ev = rng.choice(names)
            before = [k for e, k in live.values() if e == ev]
            pub.publish(ev)
            expect(ev, before, f"publish({ev})")
            prog.append(("pub", ev))
        elif r < 0.8:
            # the other publisher's events never reach callbacks of this one
            for e in onames:
                other.publish(e)
            if oact is not None:
                oact()
            mon.check(not calls, "a callback got another publisher's event")
            prog.append(("other",))
        else:
            before = [k for e, k in live.values() if e == "before_operator"]
            after = [k for e, k in live.values() if e == "after_operator"]
            marks = []
            inner = pub.apply_operator if hasattr(pub, "apply_operator") else None
            if inner is not None:
                def spy(payload, inner=inner):
                    marks.append(len(calls))
                    if midway:      # registered while the action is under way: gets its end
                        busy["act"] = True
                        c2 = new_cb("after_operator")
                        busy["act"] = False
                        live[("after_operator", pub.register("after_operator", c2))] = ("after_operator", c2.k)
                        after.append(c2.k)
                        mon.event("registrations_during_actions")
                    return inner(payload)
                pub.apply_operator = spy
            midway = rng.random() < 0.25
            planned = {k: v for k, v in plan.items() if k in before + after}
            for k in planned:
                del plan[k]          # keep this publication's subscriptions fixed
            act()
            plan.update(planned)
            if inner is not None:
                del pub.apply_operator
                mon.eq(len(marks), 1, "one action of the operator")
                ks = [c[0] for c in calls]
                mon.check(sorted(ks[:marks[0]]) == sorted(before),
                          "before-operator callbacks around an action", got=ks[:marks[0]], want=sorted(before),
                          publisher=type(pub).__name__)
                mon.check(sorted(ks[marks[0]:]) == sorted(after),
                          "after-operator callbacks around an action", got=ks[marks[0]:], want=sorted(after),
                          publisher=type(pub).__name__)
            expect("act", before + after, "act")
            mon.event("actions")
            prog.append(("act",))
    mon.sig(type(pub).__name__, tuple(prog))
    mon.show(publisher=type(pub).__name__, program=prog[:12])


class Stop(TerminationChecker):
    def __init__(self, g):
        super().__init__()
        self.g = g

    def should_terminate(self, population, best_individual, gen_number):
        return gen_number >= self.g


def runs(rng, mon):
    domo = rng.random() < 0.35
    G = rng.choice([0, 1, 2, 3, 6, 6, 14, 40, 110])
    stop = rng.choice([None, None, 0, 1, 2])
    c = mo.draw_mo(rng, max_gen=G, pops=[2, 4, 6]) if domo else wl.draw_cfg(rng, max_gen=G, pops=[2, 4, 6])
    G = c["gens"]
    tc = None if stop is None else Stop(stop)
    if domo:
        ev = mo.MOEval(c["kind"], c["m"])
        algo, sp = mo.build_mo(c, evaluator=ev, termination_checker=tc)
    else:
        ev = wl.CountingEval(c["land"])
        algo, sp, _ = wl.build(c, evaluator=ev, termination_checker=tc)
    trace = []

    def on(name):
        def cb(sender, data):
            if name in ("init", "after_generation", "evolution_finished"):
                mon.check(sender is algo, f"{name}: sender is not the algorithm")
                mon.check(data["population"] is algo.population, f"{name}: population in the event data")
            if name == "init":
                mon.eq(len(sp.individuals), c["pop"], "init: population not created")
                mon.check(all(i.fitness.is_fitness_evaluated() for i in sp.individuals), "init: population not evaluated")
                mon.check(algo.best_of_run_ is not None, "init: no best of run")
                for k in ("statistics", "breeder", "termination_checker", "max_generation", "events", "max_workers"):
                    mon.check(k in data and data[k] is getattr(algo, k), "init: event data", name=k)
            if name == "after_generation":
                g = data["generation_num"]
                mon.check(all(i.fitness.is_fitness_evaluated() for i in sp.individuals), "after_generation: not evaluated")
                mon.check(data["best_of_run_"] is algo.best_of_run_, "after_generation: best of run in the event data")
                mon.check(data["best_of_gen"] is algo.best_of_gen, "after_generation: best of generation in the event data")
                if g and not domo:
                    mon.check(any(data["best_of_gen"] is i for i in sp.individuals),
                              "after_generation: best of generation is not of this generation", gen=g)
                    mon.check(all(i.gen == g for i in sp.individuals), "after_generation: population of another generation",
                              gen=g)
                trace.append((name, g))
            else:
                trace.append((name,))
        return cb

    for e in ("init", "after_generation", "evolution_finished"):
        algo.register(e, on(e))
    algo.breeder.register("before_operator", on("breed<"))
    algo.breeder.register("after_operator", on("breed>"))
    algo.population_evaluator.register("before_operator", on("eval<"))
    algo.population_evaluator.register("after_operator", on("eval>"))
    # callbacks that come and go during the run
    dyn = {"calls": [], "reg": None, "h": None}
    lo, hi = sorted((rng.randint(0, G + 1), rng.randint(0, G + 1)))

    def dynamic(sender, data):
        dyn["calls"].append(data["generation_num"])

    def manager(sender, data):
        g = data["generation_num"]
        if g == lo:
            dyn["h"] = algo.register("after_generation", dynamic)
        if g == hi and dyn["h"] is not None and hi > lo:
            algo.unregister("after_generation", dyn["h"])

    once = []

    def oneshot(sender, data):
        once.append(data["generation_num"])
        algo.unregister("after_generation", h1)

    late = []
    algo.register("after_generation", manager)
    h1 = algo.register("after_generation", oneshot)
    algo.register("after_generation", lambda s, d: late.append(d["generation_num"]))
    if rng.random() < 0.3:
        algo.act()      # the algorithm is an operator too
    else:
        algo.evolve()
    last = G if stop is None else min(stop, G)
    want = [("eval<",), ("eval>",), ("init",)]
    if stop == 0:
        want.append(("after_generation", 0))
        gens = [0]
    else:
        for g in range(1, last + 1):
            want += [("breed<",), ("breed>",), ("eval<",), ("eval>",), ("after_generation", g)]
        gens = list(range(1, last + 1))
    want.append(("evolution_finished",))
    mon.eq(trace, want, "event trace of the run", multi_objective=domo, max_generation=G, stop=stop)
    mon.eq(late, gens, "deliveries to a callback registered after a self-unregistering one")
    mon.eq(once, gens[:1], "deliveries to a callback that unregisters itself")
    if hi > lo and lo in gens:
        must = [g for g in gens if lo < g < hi]
        may = set(must) | {lo, hi}
        mon.check(set(must) <= set(dyn["calls"]) <= may and len(set(dyn["calls"])) == len(dyn["calls"]),
                  "deliveries to a callback (un)registered during the run", got=dyn["calls"], lo=lo, hi=hi)
    mon.event("trace_events", len(trace))
    mon.event("deliveries", len(trace) + len(late))
    mon.sig(domo, G, stop, wl.cfg_sig(c))
    mon.show(max_generation=G, stop=stop, multi_objective=domo, trace_length=len(trace))


def custom_events(rng, mon):
    """User-defined event names of algorithms; registration to the default names still works."""
    names = rng.choice([["mine"], ["mine", "Yours"], ["MINE", "mine"], []])
    given = list(names)
    c = wl.draw_cfg(rng, max_gen=1, pops=[2], encs=("bit",))
    algo, sp, _ = wl.build(c, event_names=given)
    mon.eq(given, names, "the given list of event names was modified")
    got = []
    for n in names + ["init", "after_generation", "evolution_finished", "before_operator", "after_operator"]:
        algo.register(n, lambda s, d, n=n: got.append(n))
    acted = rng.random() < 0.5
    algo.act() if acted else algo.evolve()
    if acted:
        mon.check(got[:1] == ["before_operator"] and got[-1:] == ["after_operator"], "before/after around the algorithm's action",
                  got=got)
    base = [g for g in got if not g.endswith("_operator")]
    mon.eq(base, ["init", "after_generation", "evolution_finished"], "events of the run")
    mon.check(got.count("before_operator") == got.count("after_operator") == (1 if "before_operator" in got else 0),
              "before/after of the algorithm's action", got=got)
    got.clear()
    for n in names:
        algo.publish(n)
    mon.eq(got, names, "user-defined events")
    mon.event("deliveries", 3 + len(names))
    mon.sig(tuple(names))


class Oops(Exception):
    pass


class NestOp(Operator):
    """An operator whose action may itself act or publish (a user's operator that uses itself recursively)."""

    def __init__(self):
        super().__init__(event_names=["alpha", "beta"])
        self.script = []
        self.hook = None

    def apply_operator(self, payload):
        self.hook("apply")
        return payload


def churn(rng, mon):
    """Long-lived publishers with few subscribers at a time: handles stay valid and distinct however many came before."""
    pub, names, _, _ = make_publisher(rng)
    live = {}                # (event, handle) -> callback number
    got = []
    n = 0
    cap = rng.choice([1, 2, 2, 4])
    few = rng.sample(names, rng.randint(1, min(3, len(names))))
    pinned = None
    if rng.random() < 0.3:       # one that stays
        pinned = (few[0], pub.register(few[0], lambda s, d: got.append((-1, s is pub))))
        live[pinned] = -1
        cap += 1
    for step in range(wl.rare(rng, [150, 400, 1200], [4000, 9000], 0.06)):
        if not live or len(live) < cap and rng.random() < 0.5:
            ev = rng.choice(few)
            h = (ev, pub.register(ev, lambda s, d, k=n: got.append((k, s is pub))))
            mon.check(h not in live, "register returned an id that is still in use", id=h, registered=n)
            live[h] = n
            n += 1
        elif rng.random() < 0.6:
            h = rng.choice(sorted(live))
            if h == pinned:
                continue
            pub.unregister(*h)
            del live[h]
        else:
            ev = rng.choice(few)
            pub.publish(ev)
            mon.eq(got, [(k, True) for (e, _), k in live.items() if e == ev], "deliveries of a long-lived publisher",
                   event=ev, registered_so_far=n)
            mon.event("deliveries", len(got))
            got.clear()
    if n > 60:
        mon.event("long_lived_publishers")
    mon.sig(type(pub).__name__, tuple(few), n, cap)
    mon.show(publisher=type(pub).__name__, registrations=n, at_most=cap)


class RefOp:
    """Reference publisher."""

    def __init__(self):
        self.subs = {e: [] for e in ("alpha", "beta", "before_operator", "after_operator")}
        self.hook = None

    def register(self, ev, cb):
        self.subs[ev].append(cb)

    def publish(self, ev):
        for cb in list(self.subs[ev]):
            cb(self, {})

    def act(self, payload=None):
        self.publish("before_operator")
        self.hook("apply")
        self.publish("after_operator")
        return payload


def nested(rng, mon):
    """Events published, actions taken and errors raised from inside callbacks and actions: compared with a reference
    publisher running the same scripts."""
    from collections import Counter
    evs = ["alpha", "beta", "before_operator", "after_operator"]
    ncb = rng.choice([1, 2, 3, 5])
    where = [rng.choice(evs) for _ in range(ncb)]
    react = lambda: rng.choice([None, None, ("pub", rng.choice(evs[:2])), ("pub", rng.choice(evs)), ("act",), "boom"])
    scripts = [[react() for _ in range(rng.choice([1, 3, 6]))] for _ in range(ncb)]
    ascript = [react() for _ in range(rng.choice([0, 2, 5]))]
    steps = [rng.choice([("act",), ("pub", rng.choice(evs))]) for _ in range(rng.choice([3, 6, 12]))]

    def play(p):
        left = [list(s) for s in scripts]
        aleft = list(ascript)
        got = Counter()
        out = []

        def do(what):
            if what == "boom":
                raise Oops()
            if what == ("act",):
                r = p.act(None)
                got["returned", r] += 1
            elif what:
                p.publish(what[1])

        def mk(k):
            def cb(sender, data):
                got["cb", k] += 1
                got["sender", sender is p] += 1
                if left[k]:
                    do(left[k].pop(0))
            return cb

        def hook(what):
            got[what] += 1
            if aleft:
                do(aleft.pop(0))
        p.hook = hook
        for k, ev in enumerate(where):
            p.register(ev, mk(k))
        for st in steps:
            got.clear()
            try:
                do(st)
                out.append(dict(got))
            except Oops:
                out.append("raised")
        return out
    want = play(RefOp())
    got = play(NestOp())
    for k, (g, w) in enumerate(zip(got, want)):
        mon.check(g == w, "publications, actions and errors nested in callbacks and actions", step=k, what=steps[k], got=g,
                  want=w, where=where, scripts=scripts, action=ascript)
        if w == "raised":
            mon.event("errors_from_callbacks")
            if k + 1 < len(want):
                mon.event("steps_after_an_error")
        else:
            n = w.get("apply", 0)
            if n > 1 or n == 1 and steps[k] != ("act",):
                mon.event("nested_actions")
    mon.sig(tuple(where), repr(scripts), repr(ascript), tuple(steps))
    mon.show(where=where, scripts=scripts, steps=steps)


SCENARIOS = [
    Scenario(programs, 2400, 40000, needs=("deliveries", "actions", "self_unregistrations", "registrations_while_called",
                                             "repeated_registrations", "registrations_during_actions")),
    Scenario(runs, 600, 10000, needs=("trace_events",)),
    Scenario(churn, 200, 3000, needs=("long_lived_publishers", "deliveries")),
    Scenario(nested, 3000, 40000, needs=("nested_actions", "errors_from_callbacks", "steps_after_an_error")),
    Scenario(custom_events, 48, 200, needs=("deliveries",)),
]
