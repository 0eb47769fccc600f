"""C17: the real projection functions against Proj*.tla."""
import math
import zlib

import fast  # noqa: F401
import numpy as np
from sktopt.core import projection as P

import vlib
from vlib import scv


def run(s):
    c = {x["k"]: x["v"] for x in s["c"]}
    rng = np.random.default_rng(zlib.crc32(repr(sorted(c.items())).encode()))
    tr = {"scn": c, "ops": s["ops"], "ev": []}
    ev = tr["ev"]
    at = "exact"
    old = np.seterr(all="ignore")
    try:
        b, m = c["b"], c["m"]
        e = 1 + c["e"] % (m - 1)
        f = P.heaviside_projection(np.arange(m + 1) / m, m * math.log(b) / 2, e / m)
        ev.append({"op": "exact", "b": b, "m": m, "e": e, "r": list(range(m + 1)), "f": scv(f)})
        at = "curve"
        beta, eta = c["beta"] / 1000, c["eta"] / 100
        x = np.arange(101) / 100
        f = P.heaviside_projection(x, beta, eta)
        g = P.heaviside_projection_derivative(x, beta, eta)
        mir = P.heaviside_projection(1 - x, beta, 1 - eta)
        ev.append({"op": "curve", "h": 100, "x": scv(x), "f": scv(f), "g": scv(g), "mirror": scv(mir),
                   "eta": c["eta"] * 10000, "beta10": int(beta * 10), "endtol": 2 if beta >= 1 else 4})
        sh = {"vec": (12,), "mat": (3, 4), "cube": (2, 3, 2), "empty": (0,), "one": (1,)}[c["shape"]]
        y = rng.random(sh)
        if y.size > 2:
            y.flat[0], y.flat[1], y.flat[2] = 0.0, 1.0, eta
        if c["stride"] and y.ndim > 1:
            y = np.asfortranarray(y)
        elif c["stride"]:
            y = np.repeat(y, 2)[::2]
        th = () if c["eta"] == 50 else (eta,)   # one half is the documented default
        for i, op in enumerate(s["ops"]):
            at = f"{i}:{op}"
            what, how = op.split("_")
            pure, inp = (P.heaviside_projection, P.heaviside_projection_inplace) if what == "val" else \
                (P.heaviside_projection_derivative, P.heaviside_projection_derivative_inplace)
            want = pure(y.copy(), beta, eta)
            a = y.copy()
            changed, filled = False, True
            if how == "pure":
                got = pure(a, beta, *th)
                changed = not np.array_equal(a, y)
            elif how == "new":
                got = inp(a, beta, *th)
            elif how == "buf":
                buf = np.full_like(a, 7.0)
                r = inp(a, beta, *th, out=buf)
                changed = not np.array_equal(a, y)
                filled = r is buf
                got = buf
            else:
                inp(a, beta, *th, out=a)
                got = a
            got = np.asarray(got)
            ev.append({"op": "call", "what": op, "want": scv(want.ravel()), "got": scv(got.ravel()),
                       "shape": list(got.shape), "inshape": list(y.shape), "changed": changed, "filled": filled})
    except vlib.MachineryError:
        raise
    except Exception as ex:
        d = vlib.exc_event(ex)
        ev.append({"op": "raised", "at": at, "what": f"{d['cls']}: {d['msg']} {d['where']}"})
    finally:
        np.seterr(**old)
    return tr


def _batch(b):
    return [run(s) for s in b]


def c17(c):
    t = c.thorough
    c.model("Proj", f"CONSTANTS Bases = {{2, 3, 4, 9, 16, 100, 1000}}\nM = {24 if t else 12}\nSPECIFICATION Spec\n"
            "INVARIANTS InRange Ends Symmetric Sharper\nPROPERTY Monotone\nCHECK_DEADLOCK FALSE\n")
    S = lambda *x: "{" + ", ".join(f'"{v}"' for v in x) + "}"
    D = [("b", "{2, 3, 7, 10, 50, 100, 1000, 10000}"), ("m", "2..40"), ("e", "0..40"),
         ("beta", "{5, 20, 100, 500, 1000, 2000, 3700, 8000, 16000, 25000, 50000, 64000, 100000, 200000, 500000}"),
         ("eta", "{1, 5, 20, 30, 37, 45, 50, 51, 60, 75, 90, 99}"),
         ("shape", S("vec", "mat", "cube", "empty", "one")), ("stride", "{TRUE, FALSE}")]
    ops = S(*[f"{w}_{h}" for w in ("val", "der") for h in ("pure", "new", "buf", "self")])
    n = 20000 if t else 1500
    scns = c.generate("PickGen", "CONSTANTS Dims = << " + ", ".join(f'<<"{k}", {v}>>' for k, v in D) +
                      f" >>\nOps = {ops}\nMaxOps = 5\nINIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n",
                      limit=n, extra=("-simulate", f"num={n}", "-depth", "40", "-seed", str(c.seed)))
    traces = c.replay(_batch, [scns[i:i + 50] for i in range(0, len(scns), 50)])
    for i in range(0, len(traces), 2000):
        c.validate("ProjTrace", traces[i:i + 2000])
    c.assumptions += ["sharpness from 0.005 to 500", "out=None: whether the input is reused is left open"]
    c.finish(rule="random walk over sharpness, threshold, shapes, memory layouts and call variants (PickGen); curves on a "
                  "grid of 101 points, exact rational values where tanh is rational")
