"""C16: call histories of the real density filters against Filter*.tla."""
import zlib

import fast  # noqa: F401
import numpy as np
import skfem
from sktopt import filters

import vlib
from domain_check import make_mesh
from vlib import scv


def mesh_of(kind, shuffle, rng):
    if kind == "chain":
        return skfem.MeshHex.init_tensor(np.arange(7.), np.array([0., 1.]), np.array([0., 1.]))
    if kind == "hex432":
        return skfem.MeshHex.init_tensor(np.arange(5.), np.arange(4.), np.arange(3.))
    return make_mesh(kind, shuffle, 1.0, rng)


def volumes(m):
    P = m.p[:, m.t]
    if isinstance(m, skfem.MeshTet):
        a, b, c = (P[:, i] - P[:, 0] for i in (1, 2, 3))
        return np.abs(np.einsum("ij,ij->j", a, np.cross(b, c, axis=0))) / 6
    return np.prod(P.max(axis=1) - P.min(axis=1), axis=0)


def run(s):
    c = {x["k"]: x["v"] for x in s["c"]}
    rng = np.random.default_rng(zlib.crc32(repr(sorted(c.items())).encode()))
    m = mesh_of(c["mesh"], c["shuffle"], rng)
    n = m.nelements
    ctr = np.rint(m.p[:, m.t].mean(axis=1).T * 4).astype(int)
    vol = volumes(m)
    mask = {"none": None, "full": np.ones(n, bool), "half": np.arange(n) >= n // 2,
            "head": np.arange(n) >= 2, "random": rng.random(n) < .6, "one": np.arange(n) == n - 1}[c["mask"]]
    if mask is not None and not mask.any():
        mask[0] = True
    design = np.arange(n) if mask is None else np.flatnonzero(mask)
    # hundredths; the second radius may be close to the first
    ra = 100 * c["ra"]
    rb = {"closer": 101 * c["ra"], "little": 99 * c["ra"]}.get(c["near"], 100 * c["rb"])
    z = 1.0 if c["scale"] == "one" else 0.25
    m2 = type(m)(m.p * z, m.t)
    v2 = vol * z ** 3
    # an equal mesh object on which another filter lived before must not matter
    cls = filters.SpacialFilter if c["kind"] == "spacial" else filters.HelmholtzFilterNodal
    radius = lambda k: k / 400 * z
    mk = lambda k, msk=mask: cls.from_defaults(m2, v2.copy(), radius(k), design_mask=None if msk is None else msk.copy())

    def matrix(k, msk):
        f = mk(k, msk)
        base = np.array(f.forward(np.zeros(n)), float)
        cols = []
        for j in range(n):
            x = np.zeros(n)
            x[j] = 1.0
            y = np.array(f.forward(x), float) - base
            p = np.setdiff1d(np.arange(n), design) if msk is not None else []
            y[p] = 0
            if msk is not None and not msk[j]:
                pass
            cols.append(scv(y))
        return cols, scv(base)
    prefix = mask is None or bool(np.all(np.diff(mask.astype(int)) >= 0))
    tr = {"kind": c["kind"], "design": (design + 1).tolist(), "ctr": ctr.tolist(),
          "vol": [int(round(v * 6)) for v in vol], "r0": ra,
          "chain": c["mesh"] == "chain" and prefix, "scn": c, "ops": s["ops"], "ev": []}
    ev = tr["ev"]
    at = "start"
    try:
        ks = [ra] + ([rb] if rb != ra else [])
        for k in ks:
            at = f"matrix {k}"
            M, b = matrix(k, mask)
            M0 = M
            if c["kind"] != "spacial" and mask is not None:
                M0 = matrix(k, None)[0]
            ev.append({"op": "matrix", "r": k, "M": M, "M0": M0, "base": b})
        f = mk(ra)
        k = ra
        for i, op in enumerate(s["ops"]):
            at = f"{i}:{op}"
            if op.startswith("radius"):
                k = ra if op.endswith("a") else rb
                f.update_radius(radius(k))
                ev.append({"op": "radius", "r": k})
                continue
            kind, what = op.split("_")
            x = {"const": np.full(n, 7), "rand": rng.integers(0, 11, n), "signed": rng.integers(-10, 11, n),
                 "neg": -rng.integers(0, 11, n), "spike": np.where(np.arange(n) == rng.integers(n), 10, 0),
                 "nspike": np.where(np.arange(n) == rng.integers(n), -10, 0), "bin": 10 * rng.integers(0, 2, n)}[what]
            a = x / 10.0
            keep = a.copy()
            if kind == "fwd":
                y = np.array(f.forward(a), float)
                ref = np.array(mk(k).forward(keep.copy()), float)
                ev.append({"op": "forward", "x": x.tolist(), "y": scv(y), "ref": scv(ref),
                           "changed": not np.array_equal(a, keep)})
            else:
                g = np.array(f.gradient(a), float)
                h = mk(k)
                h.forward(np.zeros(n))
                ref = np.array(h.gradient(keep.copy()), float)
                ev.append({"op": "gradient", "v": x.tolist(), "g": scv(g), "ref": scv(ref),
                           "changed": not np.array_equal(a, keep)})
    except vlib.MachineryError:
        raise
    except Exception as ex:
        d = vlib.exc_event(ex)
        ev.append({"op": "raised", "at": at, "what": f"{d['cls']}: {d['msg']} {d['where']}"})
    return tr


def c16(c):
    kern = "{<<3,2,1>>, <<2,2,2>>, <<1,2,1>>}" if not c.thorough else \
        "{<<3,2,1>>, <<2,2,2>>, <<5,1,1>>, <<1,2,1>>, <<3,1,2>>, <<4,4,1>>}"
    c.model("Filter", f"CONSTANTS N = 3\nKernels = {kern}\nRadii = {{1, 2, 3}}\nValues = {{-1, 0, 2}}\n"
            f"MaxLen = {4 if c.thorough else 3}\nSPECIFICATION Spec\n"
            "INVARIANTS NoStaleRadius Range Constant PassiveIgnored LocalAndFalling ChainConstant\n"
            "CHECK_DEADLOCK FALSE\n", timeout=800)
    S = lambda *x: "{" + ", ".join(f'"{v}"' for v in x) + "}"
    D = [("kind", S("spacial", "helmholtz")), ("mesh", S("hex321", "hex222", "graded", "hex113", "tet", "tetg", "chain", "chain ", "hex432")),
         ("shuffle", "{TRUE, FALSE}"), ("scale", S("one", "quarter")),
         ("mask", S("none", "none ", "full", "half", "head", "random", "random ", "one")),
         ("ra", "{1, 3, 4, 5, 6, 7, 9, 13}"), ("rb", "{2, 4, 5, 6, 7, 11, 40}"),
         ("near", S("no", "no ", "closer", "little"))]
    ops = S("radius_a", "radius_b", "radius_b ", "fwd_const", "fwd_rand", "fwd_signed", "fwd_spike", "fwd_bin",
            "grad_neg", "grad_signed", "grad_nspike", "grad_neg ")
    n = 4000 if c.thorough else 800
    scns = c.generate("PickGen", "CONSTANTS Dims = << " + ", ".join(f'<<"{k}", {v}>>' for k, v in D) +
                      f" >>\nOps = {ops}\nMaxOps = 6\nINIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n",
                      limit=n, extra=("-simulate", f"num={n}", "-depth", "40", "-seed", str(c.seed)))
    for s in scns:
        s["ops"] = [o.strip() for o in s["ops"]]
        for x in s["c"]:
            if isinstance(x["v"], str):
                x["v"] = x["v"].strip()
    traces = c.replay(run, scns, timeout=120)
    for i in range(0, len(traces), 150):
        c.validate("FilterTrace", traces[i:i + 150])
    c.assumptions += ["box meshes (uniform, graded, hexahedra and tetrahedra) of 4-24 elements",
                      "at exactly the radius a neighbour may or may not contribute"]
    c.finish(rule="random walk over filter kind, mesh, numbering, scale, passive sets, two radii and call "
                  "histories of length 6 (PickGen); the response matrix of every radius and every call judged")
