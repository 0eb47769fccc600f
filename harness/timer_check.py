"""C18: SectionTimer against Timer.tla."""
import zlib

import matplotlib

matplotlib.use("Agg")
from matplotlib.figure import Figure
from sktopt.tools import SectionTimer

import vlib


class Boom(Exception):
    pass


def _drive(scn):
    hier, ops = scn["hier"], scn["ops"]
    clock = [100.0]
    nobs = [0]
    t = SectionTimer(clock=lambda: clock[0], hierarchical=hier)
    ev = []

    def conv(stats):
        out = []
        for s in stats:
            out.append({"path": s.name.split(">") if hier else [s.name], "count": int(s.count),
                        "total": vlib.sc(s.total, 1000), "avg": vlib.sc(s.avg, 1000),
                        "max": vlib.sc(s.max, 1000)})
        return out

    def observe(o, error="", propagated=True, result=True):
        srt = []
        for key in ("total", "avg", "max", "count"):
            for desc in (True, False):
                r = t.summary(sort_by=key, descending=desc)
                srt.append({"desc": desc, "keys": [vlib.sc(getattr(x, key), 1000) for x in r]})
        ev.append({"op": o["op"], "n": o["n"], "d": o["d"], "now": int(clock[0]), "error": error,
                   "propagated": propagated, "result": result, "stats": conv(t.stats()),
                   "self": conv(t.summary_self_time()), "sorted": srt})
        nobs[0] += 1
        if z % (2 if len(ops) > 8 else 11) == 0 and nobs[0] % 3 == 0:
            try:
                plot(nobs[0])
            except Exception as ex:
                ev.append({"op": "plot", "error": vlib.exc_event(ex)["tb"][-700:]})

    z = zlib.crc32(repr((hier, ops)).encode())
    metric = ("total", "count", "avg", "max")[z % 4]

    def plot(i):
        """What a chart of the current times shows."""
        q = z >> (i % 20)
        e = {"op": "plot", "kind": "pie" if q % 3 == 0 else "bar", "value": metric, "moving": bool(q & 4),
             "selft": bool(q & 8), "nested": bool(q & 16), "raised": False, "bars": [], "error": ""}
        kw = {} if e["kind"] == "pie" else {"format_nested": e["nested"]}
        if not e["moving"] and e["kind"] == "bar" and q & 32:
            kw["descending"] = False
        fig = Figure()
        ax = fig.add_subplot(111)
        try:
            t.plot(ax=ax, kind=e["kind"], value=metric, moving_average=e["moving"], use_self_time=e["selft"], **kw)
        except ValueError:
            e["raised"] = True
            ev.append(e)
            return
        if e["kind"] == "bar":
            fig.canvas.draw_idle()
            lab = {round(y, 6): x.get_text() for y, x in zip(ax.get_yticks(), ax.get_yticklabels())}
            for b in ax.patches:
                y = round(b.get_y() + b.get_height() / 2, 6)
                name = lab.get(y, "?")
                e["bars"].append({"y": vlib.sc(y, 1000), "w": vlib.sc(b.get_width(), 1000),
                                  "path": name.split(">") if hier and not e["nested"] else [name.strip()],
                                  "deep": len(name) - len(name.lstrip())})
        else:
            names = [x.get_text().rsplit(" (", 1)[0] for x in ax.get_legend().get_texts()]
            for b, name in zip(ax.patches, names):
                e["bars"].append({"y": len(e["bars"]), "w": vlib.sc((b.theta2 - b.theta1) / 360, 10**4),
                                  "path": name.split(">") if hier else [name], "deep": 0})
        ev.append(e)

    def tick(o):
        clock[0] += o["dt"]

    def run(i):
        """Execute ops from i on; returns index of the op after the leave closing this level."""
        while i < len(ops):
            o = ops[i]
            if o["op"] == "leave":
                return i
            if o["op"] == "enter":
                tick(o)
                state = {"i": None, "boom": False}

                def body(o=o, i=i, state=state):
                    observe(o)
                    j = run(i + 1)
                    state["i"] = j
                    if j < len(ops):
                        tick(ops[j])
                        if ops[j]["how"] == "raise":
                            state["boom"] = True
                            raise Boom()
                    return ("r", i)
                prop, res = True, True
                try:
                    if o["how"] == "wrap":
                        res = t.wrap(o["n"])(body)() == ("r", i)
                    else:
                        with t.section(o["n"]):
                            body()
                    prop = not state["boom"]
                except Boom:
                    pass
                j = state["i"]
                if j is None or j >= len(ops):
                    return len(ops)
                observe(ops[j], propagated=prop, result=res)
                i = j + 1
                continue
            tick(o)
            if o["op"] == "add":
                t.add(o["n"], float(o["d"]))
            elif o["op"] == "reset":
                t.reset(o["n"])
            else:
                t.reset()
            observe(o)
            i += 1
        return i

    run(0)
    if nobs[0] != len(ops):
        raise vlib.MachineryError("driver lost operations")
    return {"hier": hier, "ev": ev}


def _batch(scns):
    return [_drive(s) for s in scns]


def c18(c):
    T, F = "TRUE", "FALSE"

    def cfg(hier, manual, gen, depth, ticks="{0, 1, 3}", names='{"a", "b"}', hows='{"with"}'):
        s = (f"CONSTANTS Names = {names}\n Ticks = {ticks}\n Depth = {depth}\n Hier = {hier}\n"
             f" Manual = {manual}\n Gen = {gen}\n Hows = {hows}\nCHECK_DEADLOCK FALSE\n")
        if gen == T:
            return s + "INIT Init\nNEXT Next\nINVARIANT Emit\n"
        return s + "SPECIFICATION Spec\nINVARIANTS Conservation NoClamp MaxBound\nPROPERTY Grow\n"
    d = 7 if c.thorough else 6
    for hier in (T, F):
        c.model("Timer", cfg(hier, F, F, d))
        c.model("Timer", cfg(hier, T, F, d - 2))
    scns = []
    both = '{"with", "wrap"}'
    for hier in (T, F):
        scns += c.generate("Timer", cfg(hier, T, T, 4, "{1}", hows=both if c.thorough else '{"with"}'))
        scns += c.generate("Timer", cfg(hier, F, T, 6, "{1}", '{"a"}', '{"wrap"}'))
        n = 3000 if c.thorough else 300
        scns += c.generate("Timer", cfg(hier, T, T, 14, "{0, 1, 5}", '{"a", "b", "ab"}', both),
                           extra=["-simulate", f"num={n}", "-depth", "16", "-seed", str(c.seed)],
                           workers=1, limit=n)
    k = 100
    batches = [scns[i:i + k] for i in range(0, len(scns), k)]
    traces = c.replay(_batch, batches)
    for i in range(0, len(traces), 6000):
        c.validate("TimerTrace", traces[i:i + 6000])
    c.assumptions += ["section names do not contain the separator",
                      "the injected clock returns integers, so sums are exact"]
    c.finish(rule="all operation sequences of length 4 (two names, with/decorator entry, normal and "
                  "exceptional exit, add, reset) and nestings of one name of length 6, hierarchical "
                  "and flat, plus seeded random walks of length 14")
