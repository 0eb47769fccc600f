"""C12, C13, C20: constructions and exports of real analysis domains against Domain*.tla."""
import gc
import glob
import os
import pickle
import shutil
import tempfile
import zlib

import fast  # noqa: F401  (plots become inert)
import meshio
import numpy as np
import skfem
from sktopt.core import optimizers, visualization
from sktopt.mesh import FEMDomain, LinearElasticity, LinearHeatConduction, task_heat, toy_problem
from sktopt.mesh import visualization as mvis

from sktopt.tools import SchedulerConfig as SC

import vlib
from problems import quiet
from vlib import sc, scv


# ------------------------------------------------------------------ meshes and regions
def make_mesh(kind, shuffle, scale, rng):
    T = {"hex321": ([0, 1, 2, 3], [0, 1, 2], [0, 1]), "hex222": ([0, 1, 2], [0, 1, 2], [0, 1, 2]),
         "graded": ([0, 1, 3, 4], [0, 2, 3], [0, 1, 3]), "hex113": ([0, 1], [0, 2], [0, 1, 2, 3]),
         "tet": ([0, 1, 2], [0, 1, 2], [0, 1]), "tetg": ([0, 2, 3], [0, 1], [0, 1, 3])}[kind]
    ax = [np.array(a, float) * scale for a in T]
    cls = skfem.MeshTet if kind.startswith("tet") else skfem.MeshHex
    m = cls.init_tensor(*ax)
    if cls is skfem.MeshTet:
        m = m.oriented()
    if shuffle:
        pn, pe = rng.permutation(m.p.shape[1]), rng.permutation(m.t.shape[1])
        p = np.empty_like(m.p)
        p[:, pn] = m.p
        m2 = cls(p, np.ascontiguousarray(pn[m.t][:, pe]))
        m = m2.oriented() if cls is skfem.MeshTet else m2
    return m


def patch(m, name):
    """facet ids of a named region"""
    L = m.p.max(axis=1)
    near = lambda a, v: np.abs(a - v) < 1e-9
    f = {"x0": lambda x: near(x[0], 0), "x1": lambda x: near(x[0], L[0]),
         "y0": lambda x: near(x[1], 0) & (x[0] < L[0] * .5),
         "z1": lambda x: near(x[2], L[2]) & (x[0] > L[0] * .4),
         "x1a": lambda x: near(x[0], L[0]) & (x[1] < L[1] * .6),
         "y1": lambda x: near(x[1], L[1]),
         "two": lambda x: (near(x[0], 0) & (x[1] < L[1] * .4)) | (near(x[2], 0) & (x[0] > L[0] * .6)),
         "one": lambda x: near(x[0], L[0]),
         "mid": lambda x: near(x[1], m.p[1][m.p[1] > 1e-9].min())}[name]
    ids = m.facets_satisfying(f)
    return ids[:1] if name == "one" else ids


def facet_nodes(m, ids):
    return [[int(n) + 1 for n in m.facets[:, i]] for i in ids]


def facet_area(m, ids):
    P = m.p[:, m.facets[:, ids]]
    if m.facets.shape[0] == 3:
        return .5 * np.linalg.norm(np.cross(P[:, 1] - P[:, 0], P[:, 2] - P[:, 0], axis=0), axis=0)
    e = P.max(axis=1) - P.min(axis=1)
    e[e < 1e-12] = 1
    return np.prod(e, axis=0)


BAD_DIRS = ["x", "u^0", "u^4", "u^", "u^-1", "1", 3, "", "v^1"]
BAD_SUP = ["x", "u^4", "ALL", "", "u^0", "u^", "v^1"]


class Problem:
    def __init__(self, c):
        self.c = c
        self.rng = rng = np.random.default_rng(zlib.crc32(repr(sorted(c.items())).encode()))
        self.scale = 1.0 if c["scale"] == "one" else 0.5
        self.m = make_mesh(c["mesh"], c["shuffle"], self.scale, rng)
        k = c["kind"]
        self.vector = k in ("elastic", "base_v", "nodes_v")
        tet = isinstance(self.m, skfem.MeshTet)
        e = skfem.ElementTetP1() if tet else skfem.ElementHex1()
        self.elem = skfem.ElementVector(e) if self.vector else e
        names = lambda p: [c[p + i] for i in "123" if c[p + i] != "none"]
        self.sup, self.load, self.conv = names("sup"), names("load"), names("conv")
        for p in ("sup", "load", "conv"):   # regions without facets on this mesh are left out
            setattr(self, p, [q for q in getattr(self, p) if len(patch(self.m, q))])
        self.flux = []
        if k == "elastic":
            self.conv = []
            self.load = self.load or ["x1"]
        if k == "heat":
            self.sup = self.sup or ["x0"]
            self.flux, self.load = self.load, []
        if c["entry"] == "plain" and k in ("elastic", "heat"):
            self.sup, self.load, self.conv = self.sup[:1], self.load[:1], self.conv[:1]
        if k == "elastic" and not self.sup and c["entry"] == "numbered":
            self.sup = ["x0"]
        if k == "elastic" and not self.sup and c["bad"] == "dir_sup":
            self.sup = ["x0"]
        d = {"all": [0, 0, 0], "comp": [2, 1, 3], "mixed": [0, 2, 1]}[c["dirs"]]
        self.dirs = d[:len(self.sup)] if self.vector else [0] * len(self.sup)
        ld = {"all": [3, 3, 3], "comp": [1, 3, 2], "mixed": [2, 2, 1]}[c["dirs"]]
        self.ldirs = ld[:len(self.load)]
        self.vals = [-1.0, 2.5, 4.0][:len(self.load) + len(self.flux)]
        self.h, self.tenv = [1.5, 0.5, 3.0][:len(self.conv)], [2.0, 5.0, 1.0][:len(self.conv)]
        n = self.m.nelements
        r = np.arange(n)
        self.request = {"all": r, "half": r[n // 2:], "reversed": r[::-1].copy(), "sparse": r[::3].copy(),
                        "last": r[-1:]}[c["request"]]
        self.dconv = bool(c["dconv"])
        self.bad = c["bad"]
        # regions as the caller passes them: ids in any order
        self.ids = {p: [rng.permutation(patch(self.m, q)).astype(
            np.int32 if i % 2 else np.int64) for i, q in enumerate(getattr(self, p))]
            for p in ("sup", "load", "conv", "flux")}

    def lists(self, xs, one):
        """a single region is given bare or as a list of one"""
        if not xs:
            return None
        return xs[0] if len(xs) == 1 and not one else list(xs)

    def basis(self, m=None):
        return skfem.Basis(self.m if m is None else m, self.elem, intorder=2)

    def args(self):
        c, names = self.c, {0: "all", 1: "u^1", 2: "u^2", 3: "u^3"}
        # an unnumbered tag is one bare region
        one = c["entry"] == "numbered" or (c["single"] == "list" and not (
            c["entry"] == "plain" and c["kind"] in ("elastic", "heat")))
        g = lambda xs, o=one: self.lists(xs, o)
        a = {"sup": g(self.ids["sup"]), "dirs": g([names[x] for x in self.dirs]),
             "load": g(self.ids["load"]), "ldirs": g([names[x] for x in self.ldirs]), "vals": g(self.vals),
             "conv": g(self.ids["conv"]), "h": g(self.h), "tenv": g(self.tenv),
             "tval": g([float(i) for i in range(len(self.sup))])}
        if self.c["kind"] == "elastic" and not self.sup:
            a["sup"], a["dirs"] = np.array([], dtype=int), "all"
        return a

    def broken(self):
        """every way the named malformation applies to this problem: (what, arguments)"""
        b, k0 = self.bad, self.c["kind"]
        L = lambda x: list(x) if isinstance(x, list) else [x]
        out = []

        def put(key, value, what):
            out.append((what, {**self.args(), key: value}))

        def lengths(key, n):
            x = L(self.args()[key])
            put(key, x + x[:1], f"{key} one too many")
            if n > 1:
                put(key, x[:-1], f"{key} one too few")

        def values(key, bad):
            x = self.args()[key]
            for v in bad:
                if isinstance(x, list):
                    for i in {0, len(x) - 1}:
                        put(key, x[:i] + [v] + x[i + 1:], f"{key}[{i}]={v!r}")
                else:
                    put(key, v, f"{key}={v!r}")
        a = self.args()
        if k0 == "elastic":
            if b in ("len_vals", "len_ldirs"):
                lengths(b[4:], len(self.load))
            elif b == "dir_load":
                values("ldirs", BAD_DIRS)
            elif b == "dir_sup" and self.sup:
                values("dirs", BAD_SUP)
            elif b == "len_dirs" and isinstance(a["sup"], list):
                lengths("dirs", len(self.sup))
        elif k0 == "heat":
            if b in ("len_h", "len_tenv") and self.conv:
                lengths(b[4:], len(self.conv))
            elif b == "len_tval" and isinstance(a["sup"], list):
                lengths("tval", len(self.sup))
        return out

    def tagged(self):
        """the mesh with named boundaries, numbered out of order, and a design subdomain"""
        B = {}
        num = [2, 10, 11] if self.c["request"] != "all" else [1, 2, 3]
        names = {"sup": "dirichlet", "load": "neumann", "conv": "robin"}
        if self.c["kind"] == "heat":
            del names["load"]
        for p, nm in names.items():
            x = self.ids[p]
            if self.c["entry"] == "plain":
                if x:
                    B[nm] = x[0]
            else:
                for k in self.rng.permutation(len(x)):
                    B[f"{nm}_{num[k]}"] = x[k]
        B["wall"] = patch(self.m, "y1")
        B["neumann_side"] = patch(self.m, "x0")
        return self.m.with_boundaries(B).with_subdomains({"design": self.request})

    def build(self, a=None):
        c, k = self.c, self.c["kind"]
        a = a or self.args()
        if k in ("elastic", "heat") and c["entry"] != "facets":
            b = self.basis(self.tagged())
            if k == "elastic":
                return quiet(LinearElasticity.from_mesh_tags, b, a["dirs"], a["ldirs"], a["vals"], 1.0, 0.3)
            return quiet(LinearHeatConduction.from_mesh_tags, b, a["tval"], a["h"], a["tenv"], self.dconv, 1.0)
        b = self.basis()
        if k == "elastic":
            return quiet(LinearElasticity.from_facets, b, a["sup"], a["dirs"], a["load"], a["ldirs"],
                         a["vals"], self.request, 1.0, 0.3)
        if k == "heat":
            return quiet(LinearHeatConduction.from_facets, b, a["sup"], a["tval"], a["conv"], a["h"],
                         a["tenv"], self.dconv, self.request, 1.0)
        dirs, tval = (a["dirs"], None) if self.vector else (None, a["tval"])
        if k.startswith("base"):
            return quiet(FEMDomain.from_facets, b, a["sup"], dirs, tval, a["load"], a["ldirs"], a["vals"],
                         a["conv"], a["h"], a["tenv"], self.dconv, self.request)
        nd = lambda p: self.lists([np.unique(self.m.facets[:, i]) for i in self.ids[p]],
                                  self.c["single"] == "list" or self.c["entry"] == "numbered")
        return quiet(FEMDomain.from_nodes, b, nd("sup"), dirs, tval, nd("load"), a["ldirs"], a["vals"],
                     a["conv"], nd("conv"), a["h"], a["tenv"], self.dconv if self.conv else None,
                     self.request)

    def header(self, prop):
        m, b = self.m, self.basis()
        ids = self.ids
        reg = lambda p: [facet_nodes(m, i) for i in ids[p]]
        tri = m.facets.shape[0] == 3
        uden = (2 if tri else 1) * (4 if self.scale == 0.5 else 1)

        def area(p):
            out = []
            for i in ids[p]:
                v = facet_area(m, i) * uden
                if np.abs(v - np.round(v)).max() > 1e-6:
                    raise vlib.MachineryError("areas are not integers")
                out.append([int(round(x)) for x in v])
            return out
        xyz = np.array([np.unique(np.round(x, 9), return_inverse=True)[1] for x in m.p]).T
        return {"prop": prop, "conn": (m.t.T + 1).tolist(), "nd": (b.nodal_dofs.T + 1).tolist(),
                "xyz": xyz.tolist(), "sup": reg("sup"), "load": reg("load"), "conv": reg("conv"),
                "dirs": self.dirs, "ldirs": self.ldirs, "vals": scv(self.vals), "h": scv(self.h, 10),
                "tenv": scv(self.tenv, 10), "loadarea": area("load"), "flux": reg("flux"), "fluxarea": area("flux"), "convarea": area("conv"),
                "npf": int(m.facets.shape[0]), "uden": uden,
                "request": (self.request + 1).tolist(), "dconv": self.dconv}


# ------------------------------------------------------------------ observations
def flat(x, plus=1):
    if x is None:
        return []
    if isinstance(x, list):
        x = np.concatenate([np.asarray(y).ravel() for y in x]) if x else np.array([], int)
    return sorted({int(v) + plus for v in np.asarray(x).ravel()})


def seq(x):
    return [] if x is None else [int(v) + 1 for v in np.asarray(x).ravel()]


def sets(t):
    return {"dnodes": flat(t.dirichlet_nodes), "ddofs": flat(t.dirichlet_dofs),
            "delems": flat(t.dirichlet_elements), "nnodes": flat(t.neumann_nodes),
            "nelems": flat(t.neumann_elements), "rnodes": flat(t.robin_nodes),
            "relems": flat(t.robin_elements), "design": seq(t.design_elements),
            "fixed": seq(t.fixed_elements), "all": seq(t.all_elements), "free": seq(t.free_dofs),
            "felems": flat(t.free_elements), "delnel": flat(t.dirichlet_neumann_elements),
            "mask": seq(np.flatnonzero(t.design_mask))}


def frozen(t):
    d = {k: v for k, v in vars(t).items() if k != "basis"}
    d["p"], d["t"] = t.basis.mesh.p, t.basis.mesh.t
    return zlib.crc32(pickle.dumps(sorted(d.items(), key=lambda x: x[0])))


def read(m, path, normalised=False):
    """points and cells of a written mesh in terms of the nodes of m (0: no such node)"""
    x = meshio.read(path)
    if normalised:
        x.points = x.points * (np.abs(m.p).max() / np.abs(x.points).max())
    key = {tuple(np.round(q, 6)): i + 1 for i, q in enumerate(m.p.T)}
    pts = [key.get(tuple(np.round(q, 6)), 0) for q in x.points]
    want = "tetra" if m.t.shape[0] == 4 else "hexahedron"
    cells = [[pts[v] for v in row] for cb in x.cells for row in cb.data if cb.type == want]
    if any(cb.type != want for cb in x.cells):
        cells.append([])
    return x, pts, cells


def dense(F):
    return scv(F)


def run(arg):
    prop, scn = arg
    c = {x["k"]: x["v"] for x in scn["c"]}
    P = Problem(c)
    keep = []
    if c["before"] != "none":
        q = Problem(dict(c, mesh={"same": c["mesh"], "other": "hex222"}[c["before"]], shuffle=True,
                         bad="none", sup1="y0", load1="x1a", request="all"))
        try:
            keep.append(q.build())
        except Exception:  # noqa  (judged in a scenario of its own)
            pass
        if c["shuffle"]:
            keep.clear()
            del q
            gc.collect()
    ev = []
    wrong = P.broken() if P.bad != "none" else []
    if wrong:
        for what, a in wrong:
            try:
                P.build(a)
                ev.append({"op": "built", "what": what})
            except Exception as ex:  # noqa
                ev.append({"op": "raised", "at": "build", "what": what + " -> " + vlib.exc_event(ex)["cls"]})
        return {**P.header(prop), "bad": P.bad, "scn": c, "ev": ev}
    P.bad = "none"
    try:
        t = P.build()
    except Exception as ex:
        d = vlib.exc_event(ex)
        tr = P.header(prop)
        return {**tr, "bad": P.bad, "scn": c, "ev": [{"op": "raised", "at": "build", "what": d["cls"] + ": " + d["msg"]}]}
    tr = {**P.header(prop), "bad": P.bad, "scn": c, "ops": scn["ops"], "ev": ev}
    ev.append({"op": "built", **(sets(t) if prop == "C12" else {})})
    dst = tempfile.mkdtemp(prefix="dom_")
    at = "loads"
    try:
        if prop == "C13" and c["kind"] == "elastic":
            F = t.force
            F = F if isinstance(F, list) else [F]
            ev.append({"op": "loads", "F": [dense(f) for f in F], "ntasks": int(t.n_tasks)})
        if prop == "C13" and c["kind"] == "heat":
            B = t.robin_bilinear or []
            ev.append({"op": "convs", "L": [dense(v) for v in t.robin_linear or []],
                       "B": [[[int(i) + 1, int(j) + 1, sc(v)] for i, j, v in zip(*_coo(b))] for b in B]})
            if P.flux:
                q = P.lists(P.ids["flux"], c["single"] == "list")
                F = task_heat.assemble_surface_neumann(P.basis(), q, P.lists(P.vals, c["single"] == "list"))
                F = F if isinstance(F, list) else [F]
                ev.append({"op": "flux", "F": [dense(f) for f in F]})
        for i, op in enumerate(scn["ops"]):
            at = op
            if op == "exclude" and prop in ("C12", "C20"):
                t.exlude_dirichlet_from_design()
                ev.append({"op": "exclude", **(sets(t) if prop == "C12" else {})})
            elif op == "cond" and prop == "C20":
                h = frozen(t)
                t.export_analysis_condition_on_mesh(dst)
                x, pts, cells = read(P.m, f"{dst}/condition.vtu")
                ev.append({"op": "cond", "points": pts, "cells": cells,
                           "nlabel": [int(v) for v in x.point_data["node_color"]],
                           "elabel": [int(v) for v in x.cell_data["condition"][0]],
                           "changed": frozen(t) != h})
            elif op == "shape" and prop == "C20":
                thr = [0.5, 0.3, 0.9, 0.0][i % 4]
                rho = P.rng.choice([0.0, 1e-3, thr - 1e-5, thr, thr + 1e-5, 1.0], P.m.nelements)
                if i % 3 == 2:
                    rho[:] = 0.0
                rho = np.maximum(rho, 0.0)
                path = f"{dst}/top.vtu"
                h, r0 = frozen(t), rho.copy()
                mvis.export_submesh(t, rho, thr, path)
                e = {"op": "shape", "rho": scv(rho), "thr": sc(thr), "none": not os.path.exists(path),
                     "changed": frozen(t) != h or not np.array_equal(r0, rho), "points": [], "cells": []}
                if not e["none"]:
                    x, e["points"], e["cells"] = read(P.m, path)
                ev.append(e)
            elif op == "run" and prop == "C20":
                optimize(P, t, dst, ev)
            elif op == "fields" and prop == "C20":
                a, b, n = P.rng.random(P.m.nelements), P.rng.random(P.m.nelements), P.rng.random(P.m.p.shape[1])
                visualization.export_mesh_with_info(
                    P.m, cell_data_names=["a", "b"], cell_data_values=[a, b], point_data_names=["n"],
                    point_data_values=[n], filepath=f"{dst}/f.vtu")
                x, pts, cells = read(P.m, f"{dst}/f.vtu")
                ev.append({"op": "fields", "points": pts, "cells": cells, "want": [scv(a), scv(b)],
                           "got": [scv(x.cell_data["a"][0]), scv(x.cell_data["b"][0])],
                           "wantp": scv(n), "gotp": scv(x.point_data["n"])})
    except vlib.MachineryError:
        raise
    except Exception as ex:
        d = vlib.exc_event(ex)
        ev.append({"op": "raised", "at": at, "what": f"{d['cls']}: {d['msg']} {d['where']}"})
    shutil.rmtree(dst, ignore_errors=True)
    return tr


def optimize(P, t, dst, ev):
    """two iterations of a real run; the files it leaves behind are judged"""
    heat = P.c["kind"] == "heat"
    dd = P.c["shuffle"]
    if not dd:
        left = set(t.design_elements.tolist()) - set(flat(t.dirichlet_elements, 0))
        if not left:
            return
        ev.append({"op": "exclude"})
    lo = 0.01 if P.c["scale"] == "one" else 0.49
    cfg = optimizers.OC_Config(
        dst_path=dst, max_iters=3, record_times=3, design_dirichlet=dd, rho_min=lo,
        vol_frac=SC.constant(target_value=0.5), beta=SC.constant(target_value=2.0),
        filter_radius=SC.constant(target_value=1.2), move_limit=SC.constant(target_value=0.3))
    cfg.scaling = rescale = P.c["before"] != "none" and not heat
    o = quiet(optimizers.OC_Optimizer, cfg, t)
    quiet(o.parameterize)
    if P.c["request"] == "half":
        quiet(o.optimize_steps, 2)
        quiet(o.optimize_steps, 5)
    else:
        quiet(o.optimize)
    # files written during the run may have the normalised geometry, the final shape must not
    x, pts, cells = read(P.m, f"{dst}/condition.vtu", rescale)
    ev.append({"op": "cond", "points": pts, "cells": cells, "changed": False,
               "nlabel": [int(v) for v in x.point_data["node_color"]],
               "elabel": [int(v) for v in x.cell_data["condition"][0]]})
    last = sorted(glob.glob(f"{dst}/data/*-rho.npz"))[-1]
    rho = np.ones(P.m.nelements)
    rho[t.design_elements] = np.load(last)["rho_design_elements"]
    q = scv(rho)
    q = [v + 1 if r > 0.5 and v <= 500000 else v for v, r in zip(q, rho)]
    e = {"op": "shape", "rho": q, "thr": 500000, "changed": False, "points": [], "cells": [],
         "none": not os.path.exists(f"{dst}/cubic_top.vtu")}
    if not e["none"]:
        x, e["points"], e["cells"] = read(P.m, f"{dst}/cubic_top.vtu")
    ev.append(e)
    fixed = np.setdiff1d(np.arange(P.m.nelements), t.design_elements)
    fs = sorted(glob.glob(f"{dst}/mesh_rho/info_mesh-*.vtu"))
    for f in fs:
        x, pts, cells = read(P.m, f, rescale)
        ev.append({"op": "fields", "points": pts, "cells": cells, "wantp": [], "gotp": [],
                   "want": [[1000000] * len(fixed)], "got": [scv(x.cell_data["rho_projected"][0][fixed])]})
    if len(fs) < len(glob.glob(f"{dst}/data/*-rho.npz")):
        ev.append({"op": "raised", "at": "run", "what": "no mesh file for a checkpoint"})


def _coo(b):
    b = b.tocoo()
    b.sum_duplicates()
    k = np.abs(b.data) > 1e-12
    return b.row[k], b.col[k], b.data[k]


# ------------------------------------------------------------------ checks
def dims(prop):
    s = lambda *x: "{" + ", ".join(f'"{v}"' for v in x) + "}"
    pat = ("x0", "x1", "y0", "z1", "x1a", "y1", "two", "one", "mid")
    kinds = {"C12": ("elastic", "heat", "base_v", "base_s", "nodes_v", "nodes_s"), "C13": ("elastic", "heat"),
             "C20": ("elastic", "heat", "base_v", "base_s")}[prop]
    bad = {"C12": ("none", "none ", "none  ", "len_dirs", "dir_sup"),
           "C13": ("none", "none ", "none  ", "none   ", "none    ", "len_vals", "len_ldirs", "dir_load",
                   "len_h", "len_tenv", "len_tval"), "C20": ("none",)}[prop]
    D = [("mesh", s("hex321", "hex222", "graded", "hex113", "tet", "tetg")), ("shuffle", "{TRUE, FALSE}"),
         ("scale", s("one", "half")), ("kind", s(*kinds)), ("entry", s("facets", "plain", "numbered")),
         ("sup1", s("none", *pat[:-1])), ("sup2", s("none", "none ", *pat[::2])), ("sup3", s("none", "none ", "one", "y1")),
         ("load1", s("none", "x1", "x1a", "one", "z1")), ("load2", s("none", "none ", "x1", "x1a", "mid", "two")),
         ("load3", s("none", "none ", "one", "z1")),
         ("conv1", s("none", "x1", "x1a", "two", "z1")), ("conv2", s("none", "none ", "x1", "y1", "one")),
         ("conv3", s("none", "none ", "y0")),
         ("dirs", s("all", "comp", "mixed")), ("single", s("bare", "list")),
         ("request", s("all", "all ", "half", "reversed", "sparse", "last")), ("dconv", "{TRUE, FALSE}"),
         ("before", s("none", "same", "other")), ("bad", s(*bad))]
    return "<< " + ", ".join(f'<<"{k}", {v}>>' for k, v in D) + " >>"


def warm():
    """compile the numeric kernels of both element families once, before forking"""
    from sktopt.fea import composer
    for k in ("hex321", "tet"):
        composer.get_elements_volume(make_mesh(k, False, 1.0, np.random.default_rng(0)))


def _check(c, prop):
    try:
        warm()
    except Exception:  # noqa  (reported by the scenarios)
        pass
    c.model("Domain", f"CONSTANTS NE = {4 if c.thorough else 3}\nINIT Init\nNEXT Next\n"
            "INVARIANT Partition LoadsAreSolid ConvectionOptIn OnlyRequested SupportsExcluded\n"
            "INVARIANT NothingElseExcluded EmptyRejected LabelsTell NodesTell ShapeKeepsFixed\n"
            "CHECK_DEADLOCK FALSE\n", timeout=800)
    n = 6000 if c.thorough else 800
    ops = {"C12": '{"exclude", "cond"}', "C13": '{"skip"}',
           "C20": '{"exclude", "cond", "shape", "fields"}'}[prop]
    mo = {"C12": 2, "C13": 0, "C20": 4}[prop]
    scns = c.generate("PickGen", f"CONSTANTS Dims = {dims(prop)}\nOps = {ops}\nMaxOps = {mo}\nINIT Init\n"
                      "NEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n", limit=n,
                      extra=("-simulate", f"num={n}", "-depth", "40", "-seed", str(c.seed)))
    for s in scns:
        for x in s["c"]:
            if isinstance(x["v"], str):
                x["v"] = x["v"].strip()
    if prop == "C20":   # files left behind by real runs
        n = 600 if c.thorough else 60
        D = dims(prop)
        for a, b in (('"elastic", "heat", "base_v", "base_s"', '"elastic", "heat"'),
                     ('"all", "comp", "mixed"', '"all"'), ('<<"sup1", {"none", ', '<<"sup1", {'),
                     ('"bare", "list"', '"bare"'), ('<<"conv1", {"none", ', '<<"conv1", {'),
                     ('<<"sup1", {"x0", "x1", "y0", "z1", "x1a", "y1", "two", "one"}', '<<"sup1", {"x0", "y1"}')):
            if a not in D:
                raise vlib.MachineryError(a)
            D = D.replace(a, b)
        more = c.generate("PickGen", f"CONSTANTS Dims = {D}\nOps = {{\"run\"}}\nMaxOps = 1\nINIT Init\n"
                          "NEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n", limit=n,
                          extra=("-simulate", f"num={n}", "-depth", "40", "-seed", str(c.seed)))
        for s in more:
            for x in s["c"]:
                if isinstance(x["v"], str):
                    x["v"] = x["v"].strip()
        scns = scns[:300 if not c.thorough else None] + more
    traces = c.replay(run, [(prop, s) for s in scns], timeout=120)
    for i in range(0, len(traces), 500):
        c.validate("DomainTrace", traces[i:i + 500])
    c.assumptions += ["box meshes with axis-aligned facets (uniform and graded, node and element numbers "
                      "permuted), 3-48 elements, up to three regions of each kind"]
    c.finish(rule="random walk over mesh, numbering, physics, construction route, regions, directions, design "
                  "set, options, malformed requests and operation order (PickGen); every result judged")


def c12(c):
    _check(c, "C12")


def c13(c):
    _check(c, "C13")


def c20(c):
    _check(c, "C20")
