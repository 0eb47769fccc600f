"""C06: the history recorder against HistCore/History."""
import shutil
import tempfile
import zlib

import matplotlib

matplotlib.use("Agg")
import matplotlib.figure
import matplotlib.pyplot as plt

PLT = {n: getattr(plt, n) for n in ("subplots", "figure", "close", "clf")}
FIGURE = matplotlib.figure.Figure
import vlib
import fast  # noqa: F401
import numpy as np
from sktopt.tools import HistoryCollection, history

VALS = [("float", [5]), ("int", [-3]), ("f32", [2]), ("i64", [0]), ("zerod", [7]), ("bool", [1]),
        ("arr", [4, 2]), ("arr", [5]), ("arr", [-6, 0]), ("iarr", [1, 7, 4, 4]),
        ("mat", [1, 1, 3, 3]), ("arr", [-1, -3, -5, -3]), ("big", [2000])]


def value(i):
    t, a = VALS[i - 1]
    return {"float": lambda: float(a[0]), "int": lambda: int(a[0]), "f32": lambda: np.float32(a[0]),
            "i64": lambda: np.int64(a[0]), "zerod": lambda: np.array(float(a[0])),
            "bool": lambda: bool(a[0]), "arr": lambda: np.array(a, dtype=float),
            "iarr": lambda: np.array(a), "mat": lambda: np.array(a, dtype=float).reshape(2, 2),
            "big": lambda: np.array([float(a[0])] * 40)}[t]()


def entry(d):
    return vlib.scv(np.ravel(np.asarray(d, dtype=float)), 1000)


# what the two series of a scenario are called
NAMES = [{"a": "a", "b": "b"}, {"a": "a", "b": "a_header"}, {"a": "x_header", "b": "y z/1"},
         {"a": "a_header", "b": "a_header_header"}]


def observe(h, names):
    out = []
    back = {v: k for k, v in names.items()}
    for real, s in h.histories.items():
        n = str(back.get(real, real))
        try:
            latest = entry(h.latest(real))
        except ValueError:
            latest = []
        try:
            arr = [entry(d) for d in s.data_np_array]
        except ValueError:
            arr = []
        out.append({"n": n, "kind": s.plot_type, "ylog": bool(s.ylog), "data": [entry(d) for d in s.data],
                    "latest": latest, "array": arr, "exists": bool(s.exists()),
                    "const": s.constants == [2.5] and s.constant_names == ["limit"],
                    "noconst": s.constants is None and s.constant_names is None})
    return out


def objects(h, names):
    """as_object and as_object_latest, when no series is empty"""
    if any(not s.data for s in h.histories.values()):
        return {"full": [], "all": [], "last": []}
    a, b = h.as_object(), h.as_object_latest()
    back = {v: k for k, v in names.items()}
    return {"full": [str(back.get(k, k)) for k in h.histories],
            "all": [[entry(d) for d in getattr(a, k)] for k in h.histories],
            "last": [entry(getattr(b, k)) for k in h.histories]}


def plot(h, names, extra):
    """What export_progress draws: the curves of every panel of every saved page."""
    for i, q in enumerate(extra):
        h.add(f"extra{i}")
        for v in q:
            h.feed_data(f"extra{i}", float(v))
    stub = {n: getattr(plt, n) for n in PLT}
    back = {v: k for k, v in names.items()}
    pages = []

    def save(fig, path, *a, **k):
        panels = []
        for ax in fig.axes:
            lines = [entry(ln.get_ydata()) for ln in ax.lines]
            if not lines:
                continue
            band = []
            for col in ax.collections:
                v = col.get_paths()[0].vertices
                xs = sorted(set(v[:, 0]))
                band = [[vlib.sc(v[v[:, 0] == x, 1].min(), 1000), vlib.sc(v[v[:, 0] == x, 1].max(), 1000)] for x in xs]
            lab = ax.get_ylabel()
            panels.append({"n": str(back.get(lab, lab)), "lines": lines, "band": band,
                           "ylog": ax.get_yscale() == "log",
                           "x": all(list(ln.get_xdata()) == list(range(len(ln.get_ydata()))) for ln in ax.lines)})
        pages.append({"file": str(path), "panels": panels})
    old = FIGURE.savefig
    try:
        for n, v in PLT.items():
            setattr(plt, n, v)
        FIGURE.savefig = save
        matplotlib.figure.Figure = FIGURE
        h.export_progress()
    finally:
        plt.close("all")
        for n, v in stub.items():
            setattr(plt, n, v)
        FIGURE.savefig = old
    return {"op": "plot", "extra": extra, "panels": [p for q in pages for p in q["panels"]],
            "pages": len({q["file"] for q in pages}), "error": ""}


def unknown_fails(h):
    try:
        h.latest("no such series")
    except (KeyError, ValueError):
        return True
    return False


def drive(scn):
    d = tempfile.mkdtemp(prefix="hist_")
    names = NAMES[zlib.crc32(repr(scn["ops"]).encode()) % 7 % len(NAMES)]
    try:
        cs = [HistoryCollection(d), HistoryCollection(d)]
        ev = []
        for o in scn["ops"]:
            h = cs[o["c"] - 1]
            err = ""
            try:
                f = o["f"] or None
                if f == "default":
                    f = None
                if o["op"] == "register":
                    kw = {} if o["kind"] == "value" else {"plot_type": o["kind"]}
                    if o["ylog"]:
                        kw.update(constants=[2.5], constant_names=["limit"])
                    h.add(names[o["n"]], ylog=o["ylog"], **kw)
                elif o["op"] == "regshared":
                    init = [4 if o["c"] == 2 else 4.0, 1.5]
                    kw = {"constants": [2.5], "constant_names": ["limit"]} if o["ylog"] else {}
                    for n in ("a", "b"):
                        h.add(names[n], ylog=o["ylog"], data=init, **kw)
                elif o["op"] == "feed":
                    v = value(o["v"])
                    h.feed_data(names[o["n"]], v)
                    if isinstance(v, np.ndarray):
                        v += 1 if v.dtype.kind == "i" else 0.5   # the caller goes on using its array
                elif o["op"] == "export":
                    h.export_histories(f)
                elif o["op"] == "import":
                    h.import_histories(f)
            except Exception as ex:
                err = vlib.exc_event(ex)["tb"][-700:]
            e = {**o, "error": err, "coll": [], "obj": [], "unknown": [], "same": False}
            ev.append(e)
            try:
                e.update(coll=[observe(x, names) for x in cs], unknown=[unknown_fails(x) for x in cs],
                         obj=[objects(x, names) for x in cs],
                         same=bool(history.compare_histories_data_and_plot_type(cs[0].histories, cs[1].histories)))
                for x in cs:
                    x.print()
            except Exception as ex:
                e["error"] = e["error"] or vlib.exc_event(ex)["tb"][-700:]
                break
        z = zlib.crc32(repr(scn["ops"]).encode())
        if z % 5 == 0 and not ev[-1]["error"]:
            n = z // 5 % 16
            e = {"op": "plot", "c": 1 + z % 2, "extra": [], "panels": [], "pages": 0}
            try:
                e.update(plot(cs[z % 2], names, [[(z >> (i % 9)) % 50 + j for j in range(i % 4)] for i in range(n)]))
            except Exception as ex:
                e["error"] = vlib.exc_event(ex)["tb"][-700:]
            ev.append(e)
        return {"ev": ev}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def batch(scns):
    return [drive(s) for s in scns]


def c06(c):
    T, F = "TRUE", "FALSE"

    def cfg(gen, depth, kinds, vals, files='{"default"}', ylogs="{FALSE}", maxlen=3):
        return ('CONSTANTS Names = {"a", "b"}\n Kinds = %s\n Ylogs = %s\n ValIds = %s\n Files = %s\n'
                ' Depth = %d\n Gen = %s\n MaxLen = %d\nCHECK_DEADLOCK FALSE\n'
                % (kinds, ylogs, vals, files, depth, gen, maxlen)) + (
            "INIT Init\nNEXT Next\nINVARIANT Emit\n" if gen == T else
            "SPECIFICATION Spec\nINVARIANTS RoundTrip Ordered\nPROPERTIES OneOnly NeverForgets\n")
    K = '{"value", "min-max-mean", "min-max-mean-std"}'
    c.model("History", cfg(F, 7 if c.thorough else 6, '{"value", "min-max-mean-std"}', "{1, 7}"))
    scns = c.generate("History", cfg(T, 4, K, "{1, 10}"))
    scns = [s for s in scns if any(o["op"] in ("feed", "regshared") for o in s["ops"])]
    lim = 4000 if c.thorough else 700
    if len(scns) > lim:
        import random
        scns = random.Random(c.seed).sample(scns, lim)
    for f, n in (('{"default", "h.npz", "h"}', 16), ('{"default"}', 10)):
        k = 4000 if c.thorough else 500
        scns += c.generate("History", cfg(T, n, K, "1..13", f, "{TRUE, FALSE}", 6),
                           extra=["-simulate", f"num={k // 10}", "-depth", str(n + 2), "-seed", str(c.seed)],
                           workers=1, limit=k)
    traces = c.replay(batch, [scns[i:i + 60] for i in range(0, len(scns), 60)])
    for i in range(0, len(traces), 4000):
        c.validate("HistTrace", traces[i:i + 4000])
    c.assumptions += ["a series is fed scalars only or arrays only",
                      "plot settings travel with the registration, not with the file",
                      "series are not called 'file' or 'allow_pickle'"]
    c.finish(rule="sampled operation sequences of length 4 over two collections sharing one file, and "
                  "seeded random walks of length 10 and 16 with three file names, every scalar type, "
                  "arrays of 1, 2, 4 and 40 values, shared initial lists")
