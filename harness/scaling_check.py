"""C22: runs of the real optimizers with and without normalisation against Scaling*.tla."""
import glob
import os
import re
import shutil
import tempfile
import zlib

import fast  # noqa: F401
import numpy as np
import skfem
import sktopt
from sktopt.core import optimizers
from sktopt.mesh import LinearElasticity
from sktopt.tools import SchedulerConfig as SC

import vlib
from domain_check import patch
from problems import quiet
from solve_check import INTERP, mesh_of
from vlib import sc, scv

CLS = {"oc": (optimizers.OC_Config, optimizers.OC_Optimizer),
       "logmoc": (optimizers.LogMOC_Config, optimizers.LogMOC_Optimizer)}
F = 1e5                      # loads are normalised by this factor
BC = ("dirichlet_nodes", "dirichlet_dofs", "dirichlet_elements", "free_dofs", "neumann_nodes", "neumann_elements",
      "neumann_dir_type", "neumann_values", "dirichlet_neumann_elements", "force_nodes", "force_elements")


class Problem:
    def __init__(self, c):
        self.c = c
        rng = np.random.default_rng(zlib.crc32(repr(sorted(c.items())).encode()))
        m = mesh_of(c["mesh"], c["shuffle"], rng)
        self.unit = {"one": 1.0, "milli": 1e-3, "big": 250.0, "odd": 0.37}[c["unit"]]
        names = ["x1", "y1", "z1"][:c["cases"]]
        regions = [patch(m, q)[:2] if q == "x1" else patch(m, q)[:1] for q in names]
        while len(regions) > 1 and np.isin(
                m.t, np.unique(np.concatenate([m.facets[:, r].ravel() for r in regions]))).any(axis=0).sum() > m.nelements - 4:
            regions.pop()
        self.n = len(regions)
        sup = patch(m, "x0")
        f0 = {"one": 1.0, "kN": 2.5e3, "neg": -40.0}[c["load"]]
        self.dirs = ["u^3", "u^1", "u^2"][:self.n]
        self.vals = [f0, -0.5 * f0, 0.25 * f0][:self.n]
        design = np.arange(m.nelements)
        if c["design"] == "part":
            design = np.delete(design, rng.integers(m.nelements))
        m = m.translated((1.0, -2.0, 0.5)) if c["origin"] == "moved" else m
        touched = np.isin(m.t, np.unique(np.concatenate([m.facets[:, r].ravel() for r in [*regions, sup]]))).any(axis=0)
        if touched[design].sum() > len(design) - 2:
            c["dd"] = True                  # something must be left to design
        self.m = type(m)(m.p * self.unit, m.t)
        self.design, self.regions, self.sup = design, regions, sup
        if c["tags"]:
            self.m = self.m.with_boundaries({"dirichlet": sup, **{f"neumann_{i}": r for i, r in enumerate(regions)}}) \
                .with_subdomains({"design": design})
        tet = isinstance(m, skfem.MeshTet)
        self.elem = skfem.ElementVector(skfem.ElementTetP1() if tet else skfem.ElementHex1())
        self.E = {"one": 1.0, "GPa": 70.0, "Pa": 2.1e11}[c["E"]]
        self.L = np.ptp(self.m.p, axis=1).max()

    def task(self):
        b = skfem.Basis(self.m, self.elem, intorder=self.c["rule"])
        one = lambda a: a[0] if self.n == 1 and self.c["single"] == "bare" else a
        if self.c["tags"]:
            return quiet(LinearElasticity.from_mesh_tags, b, "all", one(self.dirs), one(self.vals), self.E, .3)
        return quiet(LinearElasticity.from_facets, b, self.sup, "all", one(self.regions), one(self.dirs),
                     one(self.vals), self.design.copy(), self.E, .3)

    def config(self, dst, scaling, restart=False):
        c = self.c
        spacing = np.ptp(self.m.p, axis=1).max() / 4
        R = {"const": lambda: SC.constant(target_value=1.3 * spacing),
             "step": lambda: SC.step(init_value=1.6 * spacing, target_value=.7 * spacing, num_steps=2)}[c["radius"]]()
        kw = dict(dst_path=dst, max_iters=4, record_times=9, filter_type=c["filter"], filter_radius=R, scaling=scaling,
                  sensitivity_filter=c["sf"], design_dirichlet=c["dd"], interpolation=c["interp"],
                  vol_frac=SC.step(init_value=.8, target_value=.5, num_steps=2), restart=restart,
                  check_convergence=c["conv"], tol_rho_change=.2137, tol_kkt_residual=1e250,
                  beta=SC.constant(target_value=2.0))
        if c["nscale"] == "step":
            kw["neumann_scale"] = SC.step_to_one(num_steps=2)
        if c["cls"] == "logmoc" or c["pct"]:
            kw["percentile"] = SC.constant(target_value=80.0)
        # no absolute magnitude of the sensitivities may matter
        if c["cls"] == "logmoc":
            kw.update(normalize_volume_chain=True, lagrangian_scale_floor=1e-250)
        else:
            kw.update(sensitivity_scale_floor=1e-250)
        return CLS[c["cls"]][0](**kw)


def key(x):
    """a value of a boundary condition, comparable"""
    if isinstance(x, (list, tuple)):
        return [key(v) for v in x]
    if isinstance(x, np.ndarray):
        return x.tolist()
    return x


class Watch:
    """one task and the optimizers run on it"""

    def __init__(self, P, scaling):
        self.P, self.scaling = P, scaling
        self.dst = tempfile.mkdtemp()
        self.fresh()
        self.o = None

    def fresh(self):
        t = self.t = self.P.task()
        self.loads0 = [np.array(f, copy=True) for f in t.neumann_linear]
        self.vol0 = np.array(t.elements_volume, copy=True)
        self.cond0 = self.cond()
        self.design0 = np.sort(np.asarray(t.design_elements)).tolist()

    def cond(self):
        return {k: key(getattr(self.t, k, None)) for k in BC}

    def state(self):
        t, P = self.t, self.P
        p, p0 = t.basis.mesh.p, P.m.p
        box = np.ptp(p, axis=1).max()
        lin = t.neumann_linear
        lin = lin if isinstance(lin, list) else list(lin)
        ok = len(lin) == len(self.loads0) and all(np.shape(f) == np.shape(g) for f, g in zip(lin, self.loads0))
        loads = [float(f @ g / (g @ g)) for f, g in zip(lin, self.loads0)] if ok else []
        off = [float(np.linalg.norm(f - a * g) / max(np.linalg.norm(f), 1e-300))
               for f, g, a in zip(lin, self.loads0, loads)]
        shape = np.abs(p / box - p0 / P.L).max()
        vol = np.asarray(t.elements_volume) / self.vol0
        geo = box / P.L
        b0, b1 = P.m.boundaries or {}, t.basis.mesh.boundaries or {}
        s0, s1 = P.m.subdomains or {}, t.basis.mesh.subdomains or {}
        tags = sorted(b0) == sorted(b1) and sorted(s0) == sorted(s1) and \
            all(np.array_equal(np.asarray(b0[k]), np.asarray(b1[k])) for k in b0) and \
            all(np.array_equal(np.asarray(s0[k]), np.asarray(s1[k])) for k in s0)
        # the elements the design should consist of: without supported ones unless they are opted in
        design = np.asarray(self.design0)
        if self.o is not None and not P.c["dd"]:
            design = np.setdiff1d(design, np.flatnonzero(np.isin(P.m.t, np.unique(P.m.facets[:, P.sup])).any(axis=0)))
        rule = skfem.Basis(P.m, P.elem, intorder=P.c["rule"]).quadrature
        return {"ncases": int(t.n_tasks), "geo": sc(geo), "ngeo": sc(box), "shape": sc(shape, 10**9),
                "loads": scv(loads), "nloads": scv([a * F for a in loads]), "off": scv(off, 10**9),
                "vol": scv([vol.min(), vol.max()]), "nvol": scv([vol.min() * P.L**3, vol.max() * P.L**3]),
                "same": self.cond() == self.cond0, "tags": bool(tags),
                "design": np.sort(np.asarray(t.design_elements)).tolist() == design.tolist(),
                "rule": bool(all(np.array_equal(a, b) for a, b in zip(rule, t.basis.quadrature))
                             and np.array_equal(t.basis.mesh.t, P.m.t) and t.basis.N == skfem.Basis(P.m, P.elem).N)}

    def build(self, scaling, restart=False):
        cfg = self.P.config(self.dst, scaling and self.scaling, restart)
        self.norm = bool(cfg.scaling)
        self.o = o = quiet(CLS[self.P.c["cls"]][1], cfg, self.t)
        quiet(o.parameterize)
        self.seen = []
        real = o.fem.objectives_multi_load

        def spy(*a, **k):
            r = real(*a, **k)
            self.seen.append(np.array(r, float))
            return r
        o.fem.objectives_multi_load = spy

    def saved(self):
        r = {}
        for f in glob.glob(f"{self.dst}/data/*-rho.npz"):
            with np.load(f) as z:
                r[int(re.search(r"(\d+)-rho", f).group(1))] = z["rho_design_elements"]
        return r

    def run(self, ask):
        a = set(self.saved())
        n = len(self.seen)
        last = f"{self.dst}/cubic_top.vtu"         # written when a run is complete
        if os.path.exists(last):
            os.remove(last)
        quiet(self.o.optimize) if ask is None else quiet(self.o.optimize_steps, ask)
        b = self.saved()
        return len(set(b) - a), b, self.seen[n:], os.path.exists(last)


def run(s):
    c = {x["k"]: x["v"] for x in s["c"]}
    tr = {"scn": c, "ops": s["ops"], "conv": c["conv"], "ncases": 0, "ev": []}
    ev = tr["ev"]
    old = np.seterr(all="ignore")
    at, W = "task", []
    try:
        P = Problem(c)
        tr["ncases"] = P.n
        L = P.L
        W = [Watch(P, False), Watch(P, True)]
        A, B = W
        ev.append({"op": "task", "task": B.state()})
        iters = 4
        cf = F * F / L                 # compliances are normalised by this factor

        def build(scaling=True, restart=False):
            nonlocal at
            at = f"build {scaling} {restart}"
            base = max(A.saved(), default=0) if restart else 0
            for w in W:
                np.random.seed(5)
                w.build(scaling, restart)
            ev.append({"op": "build", "norm": B.norm, "iter": base, "max": iters, "task": B.state()})
            # the same structure: analysis and filter of the task as it is now
            k = cf if B.norm else 1.0
            rng = np.random.default_rng(3)
            rho = .2 + .7 * rng.random(P.m.nelements)
            r = []
            for w in W:
                fem = sktopt.fea.FEM_SimpLinearElasticity(w.t, 1e-3, density_interpolation=INTERP[c["interp"]])
                u = np.zeros((w.t.basis.N, P.n))
                obj = np.asarray(fem.objectives_multi_load(rho, 2.0, u, force_scale=1.0), float)
                r.append((obj, np.abs(u).max(axis=0), fem.energy_multi_load(rho, 2.0, u)))
            e = r[1][2] * k - r[0][2]
            ku = F / L if B.norm else 1.0
            ev.append({"op": "analyse", "comp": scv(r[1][0] * k / r[0][0]), "disp": scv(r[1][1] * ku / r[0][1]),
                       "energy": scv(1 + np.abs(e).max(axis=0) / np.abs(r[0][2]).max(axis=0))})

        def step(ask):
            nonlocal at
            at = f"run {ask}"
            r = []
            for w in W:
                np.random.seed(6)
                r.append(w.run(ask))
            (na, ra, ca, fa), (nb, rb, cb, fb) = r
            k = cf if B.norm else 1.0
            diff = max([np.abs(ra[i] - rb[i]).max() for i in ra], default=0) if sorted(ra) == sorted(rb) else 1
            ok = len(ca) == len(cb) and all(x.shape == y.shape for x, y in zip(ca, cb))
            ev.append({"op": "run", "ask": 99 if ask is None else ask, "did": nb, "twin": na, "done": fb, "twindone": fa, "rho": sc(diff),
                       "comp": scv(np.concatenate([y * k / x for x, y in zip(ca, cb)])) if ok and ca else
                       ([] if ok else [0]), "task": B.state()})
            x = np.random.default_rng(4).random(P.m.nelements)
            y = [np.asarray(w.o.filter.forward(x)) for w in W]
            ev.append({"op": "filter", "diff": sc(np.abs(y[0] - y[1]).max())})

        build()
        for op in s["ops"]:
            if op in ("s1", "s2", "s3"):
                step(int(op[1]))
            elif op == "run":
                step(None)
            elif op in ("again", "plain"):        # another optimizer on the task of a complete run
                step(None)
                build(scaling=op == "again")
            elif op == "restart":                 # a new process continues the run
                if not A.saved():
                    continue
                for w in W:
                    w.fresh()
                    w.o = None
                build(restart=True)
            else:
                raise vlib.MachineryError(op)
    except vlib.MachineryError:
        raise
    except Exception as ex:
        d = vlib.exc_event(ex)
        ev.append({"op": "raised", "at": at, "what": f"{d['cls']}: {d['msg']} {d['where']}"})
    finally:
        np.seterr(**old)
        for w in W:
            shutil.rmtree(w.dst, ignore_errors=True)
    return tr


def c22(c):
    t = c.thorough
    c.model("Scaling", f"CONSTANTS NCases = 3\nMaxIters = {6 if t else 4}\nMaxOpt = {5 if t else 3}\nSPECIFICATION Spec\n"
            "INVARIANTS Restored Normalised Equivalent\nCHECK_DEADLOCK FALSE\n", timeout=800)
    S = lambda *x: "{" + ", ".join(f'"{v}"' for v in x) + "}"
    TF = "{TRUE, FALSE}"
    D = [("mesh", S("hex421", "hex322", "graded", "tet", "tetg", "hex116")), ("shuffle", TF), ("origin", S("zero", "moved")),
         ("unit", S("one", "milli", "big", "odd")), ("cases", "{1, 2, 3}"), ("single", S("bare", "list")), ("tags", TF),
         ("design", S("all", "part")), ("load", S("one", "kN", "neg")), ("E", S("one", "GPa")), ("rule", "{2, 3}"),
         ("filter", S("spacial", "helmholtz")), ("radius", S("const", "step")), ("cls", S("oc", "logmoc")),
         ("interp", S("SIMP", "RAMP")), ("sf", TF), ("dd", TF), ("nscale", S("one", "step")), ("pct", TF),
         ("conv", S("n", "n ", "y"))]
    ops = S("s1", "s2", "s3", "run", "again", "plain", "restart", "s1 ", "s2 ")
    n = 3000 if t else 170
    scns = c.generate("PickGen", "CONSTANTS Dims = << " + ", ".join(f'<<"{a}", {v}>>' for a, v in D) +
                      f" >>\nOps = {ops}\nMaxOps = 4\nINIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n",
                      limit=n, extra=("-simulate", f"num={n}", "-depth", "40", "-seed", str(c.seed)))
    for s in scns:
        s["ops"] = [o.strip() for o in s["ops"]]
        for x in s["c"]:
            if x["k"] == "conv":
                x["v"] = x["v"].strip() == "y"
    traces = c.replay(run, scns, timeout=120)
    for i in range(0, len(traces), 500):
        c.validate("ScalingTrace", traces[i:i + 500])
    c.assumptions += ["elasticity only: heat problems have no loads to normalise",
                      "the log-space rule only with percentile normalisation: without it its step depends on the magnitude "
                      "of the sensitivities by design"]
    c.finish(rule="random walk over meshes, units, load cases, materials, filters, rules and sequences of requests, further "
                  "optimizers on the same task and restarts; every run is paired with one without normalisation")
