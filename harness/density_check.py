"""C07, C08, C09, C11: runs of the real optimizers against Density.tla / DensityTrace.tla."""
import os
import shutil
import tempfile

import fast  # noqa: F401  (plots become inert)
import inspect

import meshio
import numpy as np
import skfem
import sktopt
from sktopt import filters
from sktopt.core import optimizers, projection
from sktopt.core.optimizers import common_density
from sktopt.fea import composer
from sktopt.mesh import LinearElasticity, LinearHeatConduction, toy_problem
from sktopt.tools import SchedulerConfig as SC

import vlib
from problems import quiet

# ------------------------------------------------------------------ problems
SCALE_VOL = {}


def mesh_of(geom):
    if geom == "graded":
        return skfem.MeshHex.init_tensor(np.array([0., 1., 3., 4., 6.]), np.array([0., 1., 3.]),
                                         np.array([0., 2., 3.]))
    if geom == "steep":
        return skfem.MeshHex.init_tensor(np.array([0., 1., 9., 10., 11., 12.]), np.array([0., 1., 2., 5.]),
                                         np.array([0., 1., 2.]))
    if geom == "tet":
        return toy_problem.create_box_tet(4.0, 2.0, 2.0, 1.0)
    return toy_problem.create_box_hex(4.0, 2.0, 2.0, 1.0)


def volumes(m):
    """element volumes as integers of a common scale, from the geometry alone"""
    P = m.p[:, m.t]
    if m.t.shape[0] == 4:
        v = np.abs(np.einsum("ij,ij->j", P[:, 1] - P[:, 0],
                             np.cross(P[:, 2] - P[:, 0], P[:, 3] - P[:, 0], axis=0)))
    else:
        v = np.prod(P.max(axis=1) - P.min(axis=1), axis=0)
    v = v / v.min()
    if np.abs(v - np.round(v)).max() > 1e-9:
        raise vlib.MachineryError("volumes are not commensurable")
    return np.round(v).astype(int)


def build(c):
    """problem of a scenario and the regions it was built from"""
    m = mesh_of(c["geom"])
    L = m.p.max(axis=1)
    heat = c["phys"].startswith("heat")
    hexa = isinstance(m, skfem.MeshHex)
    e = skfem.ElementHex1() if hexa else skfem.ElementTetP1()
    b = skfem.Basis(m, e if heat else skfem.ElementVector(e), intorder=2)
    near = lambda a, v: np.abs(a - v) < 1e-9
    sup = m.facets_satisfying(lambda x: near(x[0], 0))
    req = np.arange(m.nelements)
    if c["geom"] == "part":
        req = req[req % 5 != 2][::-1].copy()
    nodes = lambda fs: np.unique(m.facets[:, fs])
    reg = {"supported": nodes(sup), "loaded": np.array([], int), "convective": np.array([], int),
           "request": req, "dconv": True}
    if not heat:
        f1 = m.facets_satisfying(lambda x: near(x[0], L[0]) & (x[1] < L[1] * .6))
        f2 = m.facets_satisfying(lambda x: near(x[2], L[2]) & (x[0] > L[0] * .74))
        if c["phys"] == "elastic":
            t = quiet(LinearElasticity.from_facets, b, sup, "all", f1, "u^3", -1.0, req, 1.0, 0.3)
            reg["loaded"] = nodes(f1)
        else:
            t = quiet(LinearElasticity.from_facets, b, sup, "all", [f1, f2], ["u^2", "u^3"],
                      [-1.0, 0.5], req, 1.0, 0.3)
            reg["loaded"] = np.union1d(nodes(f1), nodes(f2))
        return t, reg
    hot = m.facets_satisfying(lambda x: near(x[0], L[0]) & (x[1] < L[1] * .6))
    conv = m.facets_satisfying(lambda x: near(x[2], L[2]) & (x[0] > L[0] * .74))
    rob = c["robin"]
    if c["phys"] == "heat2":
        dir_, val = [sup, hot], [0.0, 1.0]
        reg["supported"] = np.union1d(nodes(sup), nodes(hot))
        if rob == "none":
            rob = "out"
    else:
        dir_, val = [sup], [0.0]
        dir_, val = sup, 0.0
        if rob == "none":
            rob = "in"
    args = (conv, 1.5, 2.0, rob == "in")
    reg["convective"] = nodes(conv)
    reg["dconv"] = rob == "in"
    t = quiet(LinearHeatConduction.from_facets, b, dir_, val, *args, req, 1.0)
    return t, reg


# ------------------------------------------------------------------ configuration
def _step(typ, a, b, n, c=2.0):
    d = {"typ": typ, "init": a, "target": b, "n": n, "c": int(c * 10), "T": 1}
    return d


def schedules(kind, vol):
    """schedule records; values in 10^-4"""
    con = lambda v: _step("Constant", 0, v, 0)
    v1, v2 = {"low": (3000, 2000), "mid": (6000, 4000), "high": (7000, 9000)}[vol]
    if kind == "const":
        return {"p": con(30000), "vol_frac": con(v2), "move_limit": con(1500), "beta": con(20000),
                "eta": con(5000), "percentile": con(900000), "filter_radius": con(12000),
                "neumann_scale": _step("ConstantOne", 0, 10000, 0)}
    if kind == "vary":
        return {"p": _step("Step", 10000, 30000, 3), "vol_frac": _step("Step", v1, v2, 2),
                "move_limit": _step("SawtoothDecay", 2000, 500, 2), "beta": _step("StepAccelerating", 10000, 40000, 3),
                "eta": con(5000), "percentile": _step("None", 0, 0, 0),
                "filter_radius": _step("Step", 15000, 8000, 2),
                "neumann_scale": _step("StepToOne", 0, 10000, 2)}
    return {"p": _step("StepDecelerating", 15000, 30000, 3), "vol_frac": _step("StepAccelerating", v1, v2, 3),
            "move_limit": _step("Step", 3000, 1000, 3), "beta": _step("Step", 5000, 60000, 4),
            "eta": _step("Step", 3000, 7000, 3), "percentile": _step("Step", 700000, 950000, 2),
            "filter_radius": _step("StepDecelerating", 18000, 10000, 3),
            "neumann_scale": _step("StepAcceleratingToOne", 0, 10000, 3)}


def sched_config(s):
    t = s["typ"]
    U = 10000
    if t == "Constant":
        return SC.constant(target_value=s["target"] / U)
    if t == "ConstantOne":
        return SC.constant_one(name="neumann_scale")
    if t == "None":
        return SC.none()
    if t == "StepToOne":
        return SC.step_to_one(num_steps=s["n"])
    if t == "StepAcceleratingToOne":
        return SC.step_accelerating_to_one(num_steps=s["n"], curvature=s["c"] / 10)
    kw = dict(init_value=s["init"] / U, target_value=s["target"] / U, num_steps=s["n"])
    if "celerating" in t:
        kw["curvature"] = s["c"] / 10
    f = {"Step": SC.step, "StepAccelerating": SC.step_accelerating,
         "StepDecelerating": SC.step_decelerating, "SawtoothDecay": SC.sawtooth_decay}[t]
    return f(**kw)


LOG_OPTIONS = {
    "plain": {},
    "filter": {"filter_lagrangian": True},
    "center": {"center_objective": True, "lagrangian_clip": 0.4},
    "all": {"filter_lagrangian": True, "center_objective": True, "center_lagrangian": True,
            "lagrangian_percentile": 70.0},
    "norm": {"normalize_volume_chain": True, "volume_chain_percentile": 80.0, "volume_chain_gain": 1.7},
    "gain": {"normalize_volume_chain": True, "volume_chain_gain": 0.6, "volume_chain_gain_under": 2.5,
             "center_lagrangian": True, "lagrangian_clip": 2.0}}


def threshold(c):
    return {"half": .5, "low": .35, "high": .6}[c["thr"]]


def config(c, M, dst, restart=False, frm=-1):
    s = schedules(c["sched"], c["vol"])
    if c["pct"] == "none":
        s["percentile"] = _step("None", 0, 0, 0)
    kw = {k: sched_config(v) for k, v in s.items()}
    if c["rule"] != "oc" or c["eta"] == "float":
        if s["eta"]["typ"] != "Constant":
            s["eta"] = _step("Constant", 0, 4000, 0)
        kw["eta"] = s["eta"]["target"] / 10000
    if c["push"] == "hard":      # the scaling interval, not the move limit, has to bind
        s["move_limit"] = _step("Constant", 0, 9000, 0)
        kw["move_limit"] = sched_config(s["move_limit"])
        if c["rule"] == "oc":
            s["eta"] = _step("Constant", 0, 20000, 0)
            kw["eta"] = 2.0 if c["eta"] == "float" else sched_config(s["eta"])
    lo, hi = {"wide": (0.01, 1.0), "tight": (0.1, 0.9), "above": (0.35, 1.0),
              "below": (0.05, 0.5)}[c["range"]]
    if c["emin"] == "big":
        kw["E_min_coeff"] = 0.02
    kw.update(dst_path=dst, max_iters=M, record_times=3, filter_type=c["filter"], rho_min=lo,
              rho_max=hi, design_dirichlet=c["dd"], sensitivity_filter=c["sf"], restart=restart, restart_from=frm,
              interpolation=c["interp"] if "interp" in c else "SIMP", beta_eta=threshold(c))
    smin, smax = 700, 1300
    if c["rule"] == "oc":
        if c["range"] == "tight":
            smin, smax = 850, 1100
        elif c["range"] == "below":
            smin, smax = 500, 1200
        kw.update(scaling_rate_min=smin / 1000, scaling_rate_max=smax / 1000)
        cfg = optimizers.OC_Config(**kw)
        dual = (0, 0, 0, 0, 0)
    else:
        mu, aug, dec, dlo, dhi = (5.0, 0.0, 0.9, -1e7, 1e7) if c["range"] == "wide" else \
            (8.0, 2.0, 0.6, -0.5, 0.8)
        kw.update(mu_p=mu, augmented_lagrangian_mu=aug, lambda_decay=dec, lambda_lower=dlo,
                  lambda_upper=dhi, dual_update=c["rule"], **LOG_OPTIONS[c["lopt"]])
        cfg = optimizers.LogMOC_Config(**kw)
        dual = (int(mu * 10), int(aug * 10), int(round(dec * 100)), vlib.sc(dlo), vlib.sc(dhi))
    return cfg, s, (lo, hi), (smin, smax), dual


# ------------------------------------------------------------------ observation
SIG = inspect.signature(optimizers.OC_Optimizer.rho_update)


def fresh_filter(c, tsk, mask, radius):
    cls = filters.SpacialFilter if c["filter"] == "spacial" else filters.HelmholtzFilterNodal
    return cls.from_defaults(tsk.mesh, tsk.elements_volume, radius, design_mask=mask)


def project(x, beta, eta):
    return (np.tanh(beta * eta) + np.tanh(beta * (x - eta))) / \
        (np.tanh(beta * eta) + np.tanh(beta * (1 - eta)))


def slope(x, beta, eta):
    """derivative of project"""
    return beta * (1 - np.tanh(beta * (x - eta)) ** 2) / (np.tanh(beta * eta) + np.tanh(beta * (1 - eta)))


def linear_part(ff, v):
    """what a density filter does to a field, without the contribution of the passive elements"""
    peak = np.abs(v).max()
    if peak == 0:
        return v * 0.0
    return (ff.forward(v / peak) - ff.forward(np.zeros_like(v))) * peak


KNOWN_SERIES = ("rho_projected", "energy", "vol_error", "u_max", "scaling_rate", "neumann_scale",
                "rho_change_max", "kkt_residual", "-dC", "lmid", "dL", "lambda_v", "constraint_coeff",
                "dV_chain", "volume_chain_scale")


class Watch:
    def __init__(self, opt, c, tsk, reg, events, prop):
        self.o, self.c, self.t, self.ev, self.prop = opt, c, tsk, events, prop
        self.mask = np.isin(np.arange(tsk.mesh.nelements), tsk.design_elements)
        self.reset()
        fem, filt = opt.fem, opt.filter
        upd, obj, fwd = opt.rho_update, fem.objectives_multi_load, filt.forward
        objsig, enesig = inspect.signature(obj), inspect.signature(fem.energy_multi_load)
        ene = fem.energy_multi_load

        def w_fwd(x, *a, **k):
            y = fwd(x, *a, **k)
            if self.field is None:
                self.field, self.filtered = np.array(x, copy=True), np.array(y, copy=True)
                self.radius = float(filt.radius)
            return y

        def w_obj(*a, **k):
            b = objsig.bind(*a, **k)
            b.apply_defaults()
            b = b.arguments
            self.phys = np.array(b["rho"], copy=True)
            self.p, self.fs = float(b["p"]), float(b["force_scale"])
            r = obj(*a, **k)
            self.obj = float(np.mean(r))
            return r

        def w_ene(*a, **k):
            b = enesig.bind(*a, **k).arguments
            self.p_energy = float(b["p"])
            r = ene(*a, **k)
            self.energy = np.array(np.asarray(r).mean(axis=1), copy=True)
            return r

        def w_upd(*a, **k):
            b = SIG.bind(None, *a, **k).arguments
            before = np.array(b["rho_design_eles"], copy=True)
            dC = np.array(b["dC_drho_design_eles"], copy=True)
            r = upd(*a, **k)
            self.event(b, before, dC, np.array(b["rho_design_eles"], copy=True))
            self.reset()
            return r

        opt.rho_update, fem.objectives_multi_load, filt.forward = w_upd, w_obj, w_fwd
        fem.energy_multi_load = w_ene

    def reset(self):
        self.field = self.filtered = self.phys = None
        self.p_energy = None

    def event(self, b, before, dC, after):
        o, t = self.o, self.t
        s = vlib.scv
        ids = np.asarray(t.design_elements)
        full = self.field.copy()
        full[ids] = after
        ff = fresh_filter(self.c, t, self.mask, self.radius)
        beta = float(b["beta"])
        lat = lambda n: float(np.ravel(o.recorder.latest(n))[-1])
        obs = []

        def see(where, name, v):
            obs.append({"where": where, "name": name, "none": v is None,
                        "v": 0 if v is None else vlib.sc(v, 10**4), "tol": 1})
        see("analysis", "p", self.p)
        if self.p_energy is not None:
            see("energy", "p", self.p_energy)
        see("analysis", "neumann_scale", self.fs)
        see("filter", "filter_radius", self.radius)
        for n, a in (("beta", "beta"), ("vol_frac", "vol_frac"), ("move_limit", "move_limit"),
                     ("eta", "eta"), ("percentile", "percentile")):
            see("update", n, b[a])
        e = {"op": "iter", "k": int(b["iter_num"]), "before": s(before), "after": s(after),
             "ids": [int(i) + 1 for i in ids], "field": s(self.field), "phys": s(self.phys)}
        if self.prop == "C09":
            m = np.abs(dC).max()
            e["sens"] = s(np.maximum(-dC, 0) / m) if m > 0 else [0] * len(dC)
            e["physafter"] = s(project(ff.forward(full), beta, threshold(self.c)))
            e["volerr"] = vlib.sc(lat("vol_error"))
        e["lam"] = e["coeff"] = 0
        if self.prop == "C09" and self.c["rule"] != "oc":
            e["lam"], e["coeff"] = vlib.sc(lat("lambda_v")), vlib.sc(lat("constraint_coeff"))
        if self.prop == "C11":
            # the sharpness handed to the update is the one that was used for the analysed densities
            same = np.abs(project(self.filtered, beta, threshold(self.c)) - self.phys).max() < 1e-9
            see("projection", "beta", beta if same else -1.0)
            y = ff.forward(self.field)
            e["filterdev"] = vlib.sc(np.abs(y - self.filtered).max(), 10**9)
            kw = dict(density_interpolation={"SIMP": composer.simp_interpolation,
                                             "RAMP": composer.ramp_interpolation}[self.c["interp"]])
            cls = sktopt.fea.FEM_SimpLinearHeatConduction if self.c["phys"].startswith("heat") \
                else sktopt.fea.FEM_SimpLinearElasticity
            f2 = cls(t, o.cfg.E_min_coeff, **kw)
            u = np.zeros((t.basis.N, t.n_tasks))
            ref = float(np.mean(f2.objectives_multi_load(self.phys.copy(), self.p, u, force_scale=self.fs)))
            e["objdev"] = vlib.sc(abs(ref - self.obj) / max(abs(ref), 1e-30), 10**9)
        if self.prop in ("C23", "C24"):
            self.law(e, b, before, dC, after, ff, beta)
        e["obs"] = obs if self.prop == "C11" else []
        if self.prop != "C08":
            e["field"] = []
        if self.prop not in ("C08", "C09"):
            e["phys"] = []
        if self.prop == "C24":
            e["_"] = {"phys": self.phys, "energy": self.energy, "obj": self.obj, "fs": self.fs,
                      "u": np.abs(np.asarray(b["u_dofs"])).max(axis=0), "dC": dC}
        self.ev.append(e)

    def law(self, e, b, before, dC, after, ff, beta):
        """what the update rules make of the sensitivities of this iteration"""
        o, t = self.o, self.t
        s = vlib.scv
        e["mv"] = vlib.sc(float(b["move_limit"]))
        e["eta1000"] = vlib.sc(float(b["eta"]), 1000)
        peak = np.abs(dC).max()
        vol = np.asarray(b["elements_volume_design"], float)
        vol = vol / vol.sum()
        mean = lambda q: float(np.sum(vol * q))
        hist = lambda n: np.ravel(o.recorder.latest(n)).astype(float)
        if self.c["rule"] == "oc":
            if self.prop == "C23":
                e["ls"] = [vlib.sc(np.log(-x / peak), 10**4) if x < 0 else vlib.NAN for x in dC]
                e["lg"] = s(np.log(after / before), 10**4)
                return
            # recorded: -dC over the running scale
            r = hist("-dC")
            m = max(r.max(), -r.min())
            scale = peak / m if m > 0 else 1.0
            lam = float(hist("lmid")[-1])
            y = lam * scale * vol
            u = max(peak, np.abs(y).max())
            # without any sensitivity the running scale cannot be told from what is recorded
            e["kx"], e["ky"], e["unit"] = (s(dC / u), s(y / u), u) if peak > 0 else ([], [], 1.0)
            return
        opt = {"center_objective": False, "center_lagrangian": False, "filter_lagrangian": False,
               "lagrangian_percentile": 95.0, "normalize_volume_chain": False,
               "volume_chain_percentile": 95.0, "volume_chain_gain": 1.0,
               "volume_chain_gain_under": None, "lagrangian_clip": 1.0, **LOG_OPTIONS[self.c["lopt"]]}
        ids = np.asarray(t.design_elements)
        field = np.zeros(t.mesh.nelements)
        field[ids] = vol
        field *= slope(self.filtered, beta, threshold(self.c))
        chain = ff.gradient(field) if self.c["filter"] == "spacial" else linear_part(ff, field)
        chain = np.asarray(chain)[ids]
        ma = mean(dC) if opt["center_objective"] else 0.0
        gain = 1.0
        if opt["normalize_volume_chain"]:
            gain = opt["volume_chain_gain"]
            if opt["volume_chain_gain_under"] is not None and float(hist("vol_error")[-1]) < 0:
                gain = opt["volume_chain_gain_under"]
            gain *= np.percentile(np.abs(dC - ma), opt["lagrangian_percentile"]) / \
                np.percentile(np.abs(chain), opt["volume_chain_percentile"])
        cons = float(hist("constraint_coeff")[-1]) * gain * chain
        one = np.ones_like(dC)

        def through(q):
            if not opt["filter_lagrangian"]:
                return q
            full = np.zeros(t.mesh.nelements)
            full[ids] = q
            return linear_part(ff, full)[ids]
        fa, fb, f1 = through(dC), through(cons), through(one)
        L = fa + fb - ma * f1
        if opt["center_lagrangian"]:
            L = L - mean(L)
        rec = hist("dL")
        top, raw = (rec.max(), L.max()) if rec.max() >= -rec.min() else (rec.min(), L.min())
        if abs(raw) < 1e-12 * peak:      # a Lagrangian without a derivative: rounding, no law
            L = fa = fb = np.zeros_like(dC)
            ma, raw, top = 0.0, 0.0, 0.0
        scale = raw / top if top and raw else 1.0
        pct = b["percentile"] if isinstance(b["percentile"], float) else opt["lagrangian_percentile"]
        now = float(np.percentile(np.abs(L), pct))
        prev = getattr(self, "prevscale", None)
        self.prevscale = scale
        u = max(now, scale, prev or 0.0)
        e["pct"], e["scale"], e["prevscale"] = (vlib.sc(x / u) for x in (now, scale, prev or 0.0))
        for n, q in (("fa", fa), ("fb", fb), ("fm", ma * f1)):
            e[n], e["m" + n] = s(q / scale, 10**4), vlib.sc(mean(q) / scale, 10**4)
        e["lg"] = s(np.log(after / np.clip(before, o.cfg.rho_min, o.cfg.rho_max)), 10**4)
        e["chaindev"] = vlib.sc(abs(np.max(hist("dV_chain")[2]) - np.abs(gain * chain).max())
                                / np.abs(gain * chain).max(), 10**6)

    def fill(self, last):
        """what the run recorded for the iterations of the request just served"""
        o = self.o
        hs = o.recorder.histories
        name = next(n for n in hs if n not in KNOWN_SERIES)
        todo = [e for e in self.ev if "_" in e]
        for e in todo:
            m = e.pop("_")
            i = e["k"] - 1
            rec = []

            def see(n, arr):
                arr = np.asarray(arr, float).ravel()
                got = np.ravel(hs[n].data[i]).astype(float) if len(hs[n].data) > i else np.full(1, np.nan)
                z = max(np.abs(arr).max(), 1e-30)
                mn, me, mx = (got[0], got[1], got[2]) if len(got) >= 3 else (got[0],) * 3
                rec.append({"name": n if n != name else "objective", "arr": vlib.scv(arr / z),
                            "min": vlib.sc(mn / z), "mean": vlib.sc(me / z), "max": vlib.sc(mx / z),
                            "std": vlib.sc(got[3] / z, 10**3) if len(got) > 3 else -1})
            see("rho_projected", m["phys"][np.asarray(self.t.design_elements)])
            see("energy", m["energy"])
            see("u_max", m["u"])
            see(name, [m["obj"]])
            see("neumann_scale", [m["fs"]])
            e["rec"] = rec
            one = lambda n: float(np.ravel(hs[n].data[i])[-1]) if len(hs[n].data) > i else np.nan
            e["change"] = vlib.sc(one("rho_change_max"))
            if self.c["rule"] == "oc":
                e["kkt"] = vlib.sc(one("kkt_residual") / e.pop("unit"))
                sr = np.ravel(hs["scaling_rate"].data[i]).astype(float)
                e["srmin"], e["srmax"] = vlib.sc(sr[0], 1000), vlib.sc(sr[2], 1000)
            else:
                e["kkt"] = vlib.sc(one("kkt_residual"), 10**4)
            e["last"] = e is todo[-1]
            e["complete"] = not e["last"] or all(len(h.data) == e["k"] for h in hs.values())
            fn = os.path.join(o.cfg.dst_path, "mesh_rho", f"info_mesh-{e['k']:08d}.vtu")
            e["vtu"] = -1
            if os.path.exists(fn):
                d = meshio.read(fn).cell_data
                e["vtu"] = max(vlib.sc(np.abs(np.ravel(d[n][0]) - a).max() / max(np.abs(a).max(), 1e-30), 10**9)
                               for n, a in (("rho_projected", m["phys"]), ("energy", m["energy"])))


def run(item):
    prop, scn = item
    c = {x["k"]: x["v"] for x in scn["c"]}
    if c["rule"] != "oc":
        c["interp"] = "SIMP"
    M = scn["M"]
    dst = tempfile.mkdtemp(prefix="dens_", dir=os.getcwd())
    ev = []
    tsk, reg = build(c)
    cfg, sched, (lo, hi), (smin, smax), dual = config(c, M, dst)
    tr = {"prop": prop, "rule": c["rule"], "M": M, "conn": (tsk.mesh.t.T + 1).tolist(),
          "request": [int(i) + 1 for i in reg["request"]],
          "loaded": [int(i) + 1 for i in reg["loaded"]],
          "supported": [int(i) + 1 for i in reg["supported"]],
          "convective": [int(i) + 1 for i in reg["convective"]], "dd": c["dd"], "dconv": reg["dconv"],
          "vol": [int(v) for v in volumes(tsk.mesh)], "lo": vlib.sc(lo), "hi": vlib.sc(hi),
          "init": sched["vol_frac"]["init" if sched["vol_frac"]["typ"] != "Constant" else "target"] * 100,
          "sched": sched, "smin1000": smin, "smax1000": smax, "voltol": 300, "weak": 20,
          "mu10": dual[0], "aug10": dual[1], "decay100": dual[2], "dlo": dual[3], "dhi": dual[4],
          "centerobj": c["lopt"] in ("center", "all"), "centerlag": c["lopt"] in ("all", "gain"),
          "clip": {"center": 4000, "gain": 20000}.get(c["lopt"], 10000),
          "scn": c, "ops": [f"{o['op']}{o['n']}/{o['M']}" for o in scn["ops"]], "ev": ev}
    make = {"oc": optimizers.OC_Optimizer}.get(c["rule"], optimizers.LogMOC_Optimizer)

    def start(cfg):
        tsk, reg = build(c)
        o = quiet(make, cfg, tsk)
        quiet(o.parameterize)
        return o, Watch(o, c, tsk, reg, ev, prop)
    try:
        o, w = start(cfg)
        done, total = 0, 0
        for op in scn["ops"]:
            if op["op"] == "restart":
                M, done = op["M"], op["n"] or done
                ev.append({"op": "restart", "k": done + 1, "M": M})
                o, w = start(config(c, M, dst, restart=True, frm=op["n"] or -1)[0])
                continue
            if done + op["n"] == M and len(ev) % 2:
                quiet(o.optimize)
            else:
                quiet(o.optimize_steps, op["n"])
            done, total = done + op["n"], total + op["n"]
            if prop == "C24":
                w.fill(done)
            if sum(1 for x in ev if x["op"] == "iter") != total:
                ev.append({"op": "error", "what": "iterations missing"})
                break
    except vlib.MachineryError:
        raise
    except Exception as ex:  # a valid problem must run
        ev.append({"op": "error", "what": vlib.exc_event(ex)})
    shutil.rmtree(dst, ignore_errors=True)
    return tr


# ------------------------------------------------------------------ checks
DIMS = ('<< <<"phys", {"elastic", "elastic2", "heat", "heat2"}>>, <<"geom", {"box", "graded", "steep", "part", "tet"}>>, '
        '<<"rule", {"oc", "oc ", "ema", "augmented"}>>, <<"interp", {"SIMP", "RAMP"}>>, '
        '<<"filter", {"spacial", "helmholtz"}>>, <<"dd", {TRUE, FALSE}>>, <<"sf", {TRUE, FALSE}>>, '
        '<<"thr", {"half", "low", "high"}>>, <<"lopt", {"plain", "filter", "center", "all", "norm", "gain"}>>, <<"sched", {"const", "vary", "vary2"}>>, <<"vol", {"low", "mid", "high"}>>, '
        '<<"range", {"wide", "tight", "above", "below"}>>, <<"push", {"normal", "normal ", "hard"}>>, <<"eta", {"float", "sched"}>>, <<"pct", {"none", "given"}>>, <<"emin", {"default", "big"}>>, '
        '<<"robin", {"none", "in", "out"}>> >>')


def _check(c, prop):
    c.model("Density", "CONSTANTS Elems = {1, 2, 3}\nPassive = {3}\nSens = {0, 4, 9}\nMoves = {1, 3}\n"
            f"Targets = {'{4, 9, 14}' if c.thorough else '{4, 9}'}\nL = {24 if c.thorough else 12}\n"
            f"Depth = {3 if c.thorough else 2}\nLo = 1\nHi = 8\nQ = 8\n"
            "Mu10 = 20\nDecay100 = 90\nDualLo = -6\nDualHi = 6\n"
            "INIT Init\nNEXT Next\nINVARIANT Bounds SolidStays MoveLimit FactorLimit DualBounds NeverAbove OneLaw Descent\n"
            "PROPERTY ChangesOnlyDesign ScaleFollows\nCHECK_DEADLOCK FALSE\n")
    n = 1500 if c.thorough else 260
    cfg = (f"CONSTANTS Dims = {DIMS}\nMs = {{4, 5, 7}}\nMaxReq = 4\nINIT Init\nNEXT Next\nINVARIANT Emit\n"
           "CHECK_DEADLOCK FALSE\n")
    scns = c.generate("DensityGen", cfg, limit=n,
                      extra=("-simulate", f"num={n}", "-depth", "30", "-seed", str(c.seed)))
    for s in scns:
        for x in s["c"]:
            if x["k"] in ("rule", "push"):
                x["v"] = x["v"].strip()
    traces = c.replay(run, [(prop, s) for s in scns], timeout=300)
    for i in range(0, len(traces), 400):
        c.validate("DensityTrace", traces[i:i + 400])
    c.assumptions += ["rho_min > 0; meshes of 16-320 elements; 4-7 iterations",
                      "volume target tolerance 3e-4, elements with a relative sensitivity below 2e-5 cannot "
                      "be made to move up"]
    c.finish(rule="random walk over problem kind, mesh, design set, update rule, interpolation, filter, "
                  "schedules, bounds, options and request/restart splits (DensityGen), every iteration judged")


def c07(c):
    _check(c, "C07")


def c08(c):
    _check(c, "C08")


def c09(c):
    _check(c, "C09")


def c11(c):
    _check(c, "C11")


def c23(c):
    _check(c, "C23")


def c24(c):
    _check(c, "C24")
