"""C10: continuation schedules against Continuation.tla."""
import os

import fast  # noqa: F401  (plots become inert)
from sktopt.tools import scheduler as S

import vlib

UNIT = 10000


def _num(x):
    """encoded integer -> parameter value"""
    return x / UNIT


FACTORY = {"Constant": "constant", "ConstantOne": "constant_one", "Step": "step",
           "StepToOne": "step_to_one", "StepAccelerating": "step_accelerating",
           "StepAcceleratingToOne": "step_accelerating_to_one",
           "StepDecelerating": "step_decelerating",
           "StepDeceleratingToOne": "step_decelerating_to_one",
           "SawtoothDecay": "sawtooth_decay", "None": "none"}
CLASSES = {"Step": "SchedulerStep", "StepToOne": "SchedulerStepToOne",
           "StepAccelerating": "SchedulerStepAccelerating",
           "StepDecelerating": "SchedulerStepDecelerating",
           "StepAcceleratingToOne": "SchedulerStepAcceleratingToOne",
           "StepDeceleratingToOne": "SchedulerStepDeceleratingToOne",
           "SawtoothDecay": "SchedulerSawtoothDecay"}
FUNCS = {"Step": "schedule_step", "StepAccelerating": "schedule_step_accelerating",
         "StepDecelerating": "schedule_step_decelerating", "Constant": "schedule_constant"}


def _params(s, name):
    """keyword arguments a user would give for this schedule"""
    t = s["typ"]
    d = {"name": name}
    one = t.endswith("ToOne") or t == "ConstantOne"
    if t == "None":
        return {}
    if t == "ConstantOne":
        return d
    if not one:
        d["target_value"] = _num(s["target"])
        if t != "Constant":
            d["init_value"] = _num(s["init"])
    if t != "Constant":
        d["num_steps"] = s["n"] if s["n"] != 0 else None
        d["iters_max"] = s["T"]
        if "celerating" in t:
            d["curvature"] = s["c"] / 10
    return d


def _getter(scn):
    """(function it -> value, iterations it may be asked for) or None when the route does not exist"""
    s, route = scn["s"], scn["route"]
    t, T = s["typ"], s["T"]
    p = _params(s, "x")
    upto = T + 2
    if route == "config":      # the way the optimizer uses it, next to other schedules
        coll = S.Schedulers(".")
        cfg = S.SchedulerConfig.from_defaults(scheduler_type=t, **{k: v for k, v in p.items()
                                                                   if k != "iters_max"})
        coll.add_object_from_config(S.SchedulerConfig.constant(target_value=7.0), "before")
        coll.add_object_from_config(cfg, "x")
        coll.add_object_from_config(S.SchedulerConfig.step(init_value=0.0, target_value=9.0,
                                                           num_steps=3), "after")
        coll.set_iters_max(T)
        return (lambda it: coll.values_as_list(it, ["after", "x", "before"])[1]), upto
    if route == "dict":
        coll = S.Schedulers(".")
        cfg = S.SchedulerConfig.from_defaults(scheduler_type=t, **p)
        coll.add_object_from_config(cfg, "x")
        coll.add_object_from_config(S.SchedulerConfig.constant(target_value=7.0), "after")
        coll.set_iters_max(T)
        return (lambda it: coll.values_as_dict(it)["x"]
                if it % 2 else coll.value_on_a_scheduler("x", it)), upto
    if route == "factory":
        q = dict(p)
        cfg = getattr(S.SchedulerConfig, FACTORY[t])(**q)
        return S.Scheduler.from_config(cfg).value, upto
    if route == "class":
        if t not in CLASSES or s["n"] == 0:
            return None
        return getattr(S, CLASSES[t])(**p).value, upto
    if route == "add":
        if t != "Step" or s["n"] == 0:
            return None
        coll = S.Schedulers(".")
        coll.add("x", p["init_value"], p["target_value"], p["num_steps"], iters_max=T)
        coll.add("y", 3.0, 3.0, -1, T)
        return (lambda it: coll.value_on_a_scheduler("x", it)), upto
    if route == "raw":
        if t not in FUNCS or (s["n"] < 1 and t != "Constant"):
            return None
        f = getattr(S, FUNCS[t])
        kw = {"target_value": p["target_value"]}
        if t != "Constant":
            kw.update(initial_value=p["init_value"], num_steps=p["num_steps"])
            if "celerating" in t:
                kw["curvature"] = p["curvature"]
        return (lambda it: f(it, T, **kw)), T
    raise vlib.MachineryError(route)


def _one(scn):
    s = scn["s"]
    if scn["kind"] == "valid":
        d = {"scheduler_type": s["typ"]}
        vals = {"init": ("init_value", 0.5), "target": ("target_value", 1.0 if s["one"] else 3.0),
                "n": ("num_steps", s["n"]), "c": ("curvature", 2.0)}
        for g in s["g"]:
            d[vals[g][0]] = vals[g][1]
        routes = [lambda: S.SchedulerConfig.from_defaults(**d)]
        if s["typ"] in FACTORY and s["typ"] not in ("None", "ConstantOne", "Constant"):
            import inspect
            f = getattr(S.SchedulerConfig, FACTORY[s["typ"]])
            sig = inspect.signature(f)
            e = {k: v for k, v in d.items() if k in sig.parameters}
            # the factory must be able to express what is given, and to leave out what is not
            if set(e) == set(d) - {"scheduler_type"}:
                for k, q in sig.parameters.items():
                    if k in ("init_value", "target_value", "num_steps", "curvature") \
                            and k not in e and q.default is not None:
                        e[k] = None
                routes.append(lambda: f(**e))
        ev = []
        for r in routes:
            try:
                r()
                ev.append({"op": "valid", "accepted": True})
            except ValueError:
                ev.append({"op": "valid", "accepted": False})
        return {"s": {**s, "n": s["n"]}, "full": False, "ev": ev}
    g = _getter(scn)
    if g is None:
        return None
    f, upto = g
    its = list(range(1, upto + 1))
    if scn["route"] == "dict":
        its = its[::-1]
    ev = []
    for it in its:
        v = f(it)
        ev.append({"op": "value", "it": it, "none": v is None, "v": 0 if v is None else vlib.sc(v, UNIT),
                   "id": 0 if v is None else vlib.sc(v, 10 ** 8)})
    ev.append({"op": "end"})
    return {"s": s, "full": True, "route": scn["route"], "ev": ev}


def _batch(scns):
    with open(os.devnull, "w"):
        return [_one(s) for s in scns]


KINDS = ('{"Step", "StepToOne", "StepAccelerating", "StepAcceleratingToOne", "StepDecelerating", '
         '"StepDeceleratingToOne", "Constant", "ConstantOne", "SawtoothDecay"}')


def _cfg(ns, ts, cs, pairs, one, kinds=KINDS, routes='{"config"}', minc=10):
    return (f"CONSTANTS Ns = {ns}\n Ts = {ts}\n Cs = {cs}\n Pairs = {pairs}\n Routes = {routes}\n"
            f" Kinds = {kinds}\n SetMinC = {minc}\n OnePair = {one}\nCHECK_DEADLOCK FALSE\n")


def c10(c):
    spec = ("SPECIFICATION Spec\nINVARIANTS InRange EndsAtTarget StartsAtInit ConstIsTarget Plateaus "
            "Fair Shaped\nPROPERTIES Monotone FairBelow Saw\n")
    c.model("Continuation", _cfg("-1..7", "1..24" if c.thorough else "1..14", "{10, 20, 30}",
                                 "{<<0, 10>>, <<30, 10>>, <<10, 10>>}", "<<10, 10>>") + spec)
    pairs = "{<<10000, 30000>>, <<6000, 2000>>, <<10000, 10000>>, <<0, 10000>>, <<-5000, 5000>>}"
    gen = "INIT GInit\nNEXT GNext\nINVARIANT Emit\n"
    one = "<<10000, 10000>>"
    allr = '{"config", "dict", "factory", "class", "add", "raw"}'
    scns = c.generate("Continuation", _cfg(
        "{-1, 0, 1, 2, 3, 5, 6}", "{1, 2, 3, 5, 7, 10, 12, 20}", "{10, 20, 30, 5, 15, 25}", pairs, one,
        routes=allr) + gen, limit=None if c.thorough else 4000)
    scns += c.generate("Continuation", _cfg(
        "{4, 6, 7, 8}", "{14, 20, 28, 33, 49, 60, 97, 150, 200}", "{20, 30}",
        "{<<10000, 30000>>, <<9000, 1000>>}", one, routes='{"config"}', minc=20) + gen,
        limit=None if c.thorough else 150)
    scns += c.generate("Continuation", _cfg("{0}", "{3}", "{10}", "{<<0, 0>>}", "<<0, 0>>",
                                            kinds='{"None"}', routes='{"config", "factory"}') + gen)
    scns += c.generate("Continuation", _cfg("{0}", "{3}", "{10}", "{<<0, 0>>}", one)
                       + "INIT RInit\nNEXT GNext\nINVARIANT REmit\n")
    # a step count is required (or meaningless) for these
    scns = [s for s in scns if s["kind"] == "valid" or
            not (s["s"]["n"] == 0 and s["s"]["typ"] not in ("Constant", "ConstantOne", "None"))]
    k = 100
    traces = c.replay(_batch, [scns[i:i + k] for i in range(0, len(scns), k)])
    for i in range(0, len(traces), 5000):
        c.validate("ContTrace", traces[i:i + 5000])
    c.assumptions += [
        "iterations are counted from one; fewer steps than iterations for the plateau-count clause",
        "a plateau that begins exactly at an iteration may start one iteration later (rounding of total/steps)",
        "non-integer curvatures are bounded by the neighbouring integer ones"]
    c.finish(rule="schedule types x step counts x iteration counts x curvatures x endpoints x every entry "
                  "point (config, collection, factory, class, raw function), every iteration evaluated; "
                  "all subsets of given parameters for validation")
