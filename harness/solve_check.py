"""C14, C15: state solves, objectives and sensitivities of the real code against Solve*.tla."""
import glob
import inspect
import shutil
import tempfile
import zlib

import fast  # noqa: F401
import numpy as np
import scipy.sparse
import scipy.sparse.linalg as sla
import skfem
import sktopt
from skfem.helpers import ddot, dot, grad, sym_grad, trace
from sktopt.core import optimizers
from sktopt.fea import composer, solver_elastic
from sktopt.mesh import LinearElasticity, LinearHeatConduction
from sktopt.tools import SchedulerConfig as SC

import vlib
import petsc_stub
from domain_check import patch
from problems import quiet
from vlib import sc, scv

INTERP = {"SIMP": composer.simp_interpolation, "RAMP": composer.ramp_interpolation}
EXTERNAL = ("petsc", "petsc_spdirect")
POPTS = {"none": None, "hypre": {"pc_type": "hypre"}, "factor": {"pc_factor_mat_solver_type": "mumps"},
         "lu": {"ksp_type": "preonly", "pc_type": "lu"}, "own": {"use_set_from_options": False, "options_prefix": "a_"}}


AXES = {"hex421": ([0, 1, 2, 3, 4], [0, 1, 2], [0, 1]), "hex322": ([0, 1, 2, 3], [0, 1, 2], [0, 1, 2]),
        "graded": ([0, 1, 3, 4], [0, 2, 3], [0, 1, 3]), "hex116": ([0, 1], [0, 2], [0, 1, 2, 3, 4, 6, 7]),
        "tet": ([0, 1, 2, 3], [0, 1, 2], [0, 1]), "tetg": ([0, 1, 3, 4, 6], [0, 1, 2], [0, 1, 3])}


def mesh_of(kind, shuffle, rng):
    if kind == "big":
        return skfem.MeshHex.init_tensor(np.arange(8.), np.arange(8.), np.arange(7.))
    if kind == "bigtet":
        return skfem.MeshTet.init_tensor(np.arange(8.), np.arange(8.), np.arange(7.)).oriented()
    if kind.startswith("hex") or kind == "graded":
        m = skfem.MeshHex.init_tensor(*(np.array(a, float) for a in AXES[kind]))
    else:
        m = skfem.MeshTet.init_tensor(*(np.array(a, float) for a in AXES[kind])).oriented()
    if shuffle:
        pn, pe = rng.permutation(m.p.shape[1]), rng.permutation(m.t.shape[1])
        p = np.empty_like(m.p)
        p[:, pn] = m.p
        m2 = type(m)(p, np.ascontiguousarray(pn[m.t][:, pe]))
        m = m2.oriented() if isinstance(m, skfem.MeshTet) else m2
    return m


class Case:
    """one analysis problem; cases(i) is the same with only its i-th load case"""

    def __init__(self, c, E=1.0, zero=False):
        self.c = c
        self.rng = rng = np.random.default_rng(zlib.crc32(repr(sorted(c.items())).encode()))
        self.m = m = mesh_of(c["mesh"], c["shuffle"], rng)
        self.heat = c["phys"].startswith("heat")
        tet = isinstance(m, skfem.MeshTet)
        e = skfem.ElementTetP1() if tet else skfem.ElementHex1()
        self.basis = skfem.Basis(m, e if self.heat else skfem.ElementVector(e), intorder=2)
        self.E, self.nu = E * {"one": 1.0, "stiff": 210.0, "soft": 0.05}[c["E"]], {"std": 0.3, "low": 0.1}[c["nu"]]
        self.p = {"one": 1.0, "two": 2.0, "three": 3.0, "frac": 1.7}[c["p"]]
        n = m.nelements
        self.rho = {"random": 0.1 + 0.85 * rng.random(n), "solid": np.ones(n), "low": np.full(n, .12),
                    "mixed": np.where(rng.random(n) < .5, 1.0, .15), "grad": np.linspace(.2, .9, n)}[c["rho"]]
        if c["rho"] == "solid" and self.heat:
            self.rho = np.full(n, .95)
        self.emin = {"small": 1e-3, "tiny": 1e-6, "large": 0.1}[c["emin"]]
        self.zero = zero
        k = int(c["phys"][-1]) if c["phys"][-1].isdigit() else 2
        self.scalar = c["phys"] == "heats"
        names = [q for q in (("x0", "y1", "z1") if self.heat else ("x1", "y1", "z1")) if len(patch(m, q))]
        if c["order"] == "rev":
            names = names[::-1]
        self.regions = [patch(m, q) if self.heat else patch(m, q)[:1] for q in names[:k]]
        while not self.heat and len(self.regions) > 1 and np.isin(
                m.t, np.unique(np.concatenate([m.facets[:, r] for r in self.regions]))).any(axis=0).all():
            self.regions.pop()                      # some element must stay in the design
        self.dirs = (["u^1", "u^3", "u^2"] if c["order"] == "fwd" else ["u^2", "u^1", "u^3"])[:len(self.regions)]
        self.vals = [1.5, -2.0, 0.75][:len(self.regions)]
        if zero and self.heat:
            self.vals = [0.0] * len(self.vals)
        self.n = 1 if self.scalar else len(self.regions)
        self.scale = 1.0

    def task(self, only=None, E=None, basis=None, objective=None, weight=0.0):
        c, m, E = self.c, self.m, self.E if E is None else E
        idx = range(len(self.regions)) if only is None or self.scalar else [only]
        reg, vals, dirs = ([a[i] for i in idx] for a in (self.regions, self.vals, self.dirs))
        one = len(reg) == 1 and c["single"] == "bare"
        pick = lambda a: a[0] if one else a
        design = np.arange(m.nelements)
        basis = self.basis if basis is None else basis
        if self.heat:
            conv = patch(m, "x1")
            two = c["conv"] == "two" and len(patch(m, "mid"))
            cf = [conv, patch(m, "mid")] if two else conv
            h, te = ([0.7, 0.3], [2.0, 1.0]) if two else (0.7, 2.0)
            return quiet(LinearHeatConduction.from_facets, basis, pick(reg), vals[0] if self.scalar else pick(vals),
                         cf, h, te, True, design, E,
                         **({} if objective is None else {"objective": objective, "avg_temp_weight": weight}))
        return quiet(LinearElasticity.from_facets, basis, patch(m, "x0"), "all", pick(reg), pick(dirs), pick(vals),
                     design, E, self.nu)

    def fem(self, task=None, solver=None, **kw):
        cls = sktopt.fea.FEM_SimpLinearHeatConduction if self.heat else sktopt.fea.FEM_SimpLinearElasticity
        if solver is not None:
            kw["solver_config"] = solver
        return cls(self.task() if task is None else task, self.emin,
                   density_interpolation=INTERP[self.c["interp"]], **kw)

    def objective(self, fem, rho=None, n=None, s=None, p=None):
        u = np.zeros((self.basis.N, self.n if n is None else n))
        r = fem.objectives_multi_load(self.rho if rho is None else rho, self.p if p is None else p, u,
                                      force_scale=self.scale if s is None else s)
        return np.asarray(r, float), u

    # ---- independent system of equations
    def modulus(self, rho, E):
        if self.c["interp"] == "SIMP":
            return E * (self.emin + (1 - self.emin) * rho ** self.p)
        return E * (self.emin + (1 - self.emin) * rho / (1 + self.p * (1 - rho)))

    def system(self, task, rho, s=None):
        b, E = self.basis, self.modulus(rho, self.E)[:, None]
        if not self.heat:
            lam, mu = E * self.nu / ((1 + self.nu) * (1 - 2 * self.nu)), E / (2 * (1 + self.nu))
            K = skfem.asm(skfem.BilinearForm(
                lambda u, v, w: lam * trace(sym_grad(u)) * trace(sym_grad(v))
                + 2 * mu * ddot(sym_grad(u), sym_grad(v))), b)
            F = task.neumann_linear
            F = F if isinstance(F, list) else [F]
            return K.tocsr(), [f * (self.scale if s is None else s) for f in F]
        K = skfem.asm(skfem.BilinearForm(lambda u, v, w: E * dot(grad(u), grad(v))), b).tocsr()
        f = np.zeros(b.N)
        aslist = lambda a: a if isinstance(a, list) else [a]
        for B, L in zip(aslist(task.robin_bilinear), aslist(task.robin_linear)):
            K, f = K + B, f + L
        cnt, nod = np.zeros(b.N), np.zeros(b.N)
        for e in range(self.m.nelements):
            cnt[self.m.t[:, e]] += 1
            nod[self.m.t[:, e]] += rho[e]
        r = b.interpolate(nod / cnt)
        q = 4
        for h, te in zip(aslist(task.robin_coefficient), aslist(task.robin_bc_value)):
            g = lambda w, h=h: h * w["r"] ** self.p * (1 - w["r"]) ** q * np.sqrt(np.sum(w["r"].grad ** 2, axis=0))
            K = K + skfem.asm(skfem.BilinearForm(lambda u, v, w: g(w) * u * v), b, r=r)
            f = f + skfem.asm(skfem.LinearForm(lambda v, w, te=te: g(w) * te * v), b, r=r)
        return K.tocsr(), [f] * self.n

    def base_system(self, rho):
        """convection part of the heat system (matrix, load), to be handed to the code"""
        K, F = self.system(self.task(), rho)
        E, b = self.modulus(rho, self.E)[:, None], self.basis
        return (K - skfem.asm(skfem.BilinearForm(lambda u, v, w: E * dot(grad(u), grad(v))), b)).tocsr(), F[0].copy()

    def interface(self, rho, b):
        """size of the gradient of the nodal density average at the quadrature points"""
        cnt, nod = np.zeros(self.basis.N), np.zeros(self.basis.N)
        for e in range(self.m.nelements):
            cnt[self.m.t[:, e]] += 1
            nod[self.m.t[:, e]] += rho[e]
        r = b.interpolate(nod / cnt)
        return np.sqrt(np.sum(r.grad ** 2, axis=0))

    def fixed(self, i):
        """constrained dofs and their values in case i"""
        node = lambda reg: np.unique(self.m.facets[:, reg])
        if not self.heat:
            return self.basis.get_dofs(patch(self.m, "x0")).all(), 0.0
        if self.scalar:
            return np.unique(np.concatenate([node(r) for r in self.regions])), self.vals[0]
        return node(self.regions[i]), self.vals[i]

    def measure(self, task, u, s=None):
        K, F = self.system(task, self.rho, s)
        pres, resid = [], []
        for i in range(u.shape[1]):
            D, v = self.fixed(i)
            I = np.setdiff1d(np.arange(self.basis.N), D)
            top = max(np.abs(u[:, i]).max(), 1e-30)
            pres.append(sc(np.abs(u[D, i] - v).max() / top, 10**9))
            r = (K @ u[:, i] - F[i])[I]
            ref = np.linalg.norm((F[i] - K[:, D] @ np.full(len(D), v))[I])
            resid.append(sc(np.linalg.norm(r) / max(ref, 1e-30), 10**9))
        return pres, resid


class Spy:
    """records which kinds of linear solver run, and lets the iterative one fail"""
    DIRECT = ("spsolve", "splu", "factorized", "spilu")

    def __init__(self, fault):
        self.fault, self.used, self.saved = fault, [], []

    def put(self, mod, name, fn):
        self.saved.append((mod, name, getattr(mod, name)))
        setattr(mod, name, fn)

    def __enter__(self):
        import pyamg
        for n in self.DIRECT:
            f = getattr(sla, n)
            self.put(sla, n, lambda *a, _f=f, **k: (self.used.append("direct"), _f(*a, **k))[1])
        cg = sla.cg

        def my_cg(A, b, *a, **k):
            self.used.append("iterative")
            if self.fault == "info":
                return np.zeros_like(b), 7
            if self.fault == "breakdown":
                return np.full_like(b, np.nan), -1
            if self.fault == "raise":
                raise ArithmeticError("cg failed")
            return cg(A, b, *a, **k)
        self.put(sla, "cg", my_cg)
        if self.fault == "amg":
            def amg(*a, **k):
                self.used.append("iterative")
                raise ValueError("no hierarchy")
            self.put(pyamg, "smoothed_aggregation_solver", amg)
        return self

    def __exit__(self, *a):
        for mod, name, fn in reversed(self.saved):
            setattr(mod, name, fn)


def config_of(backend, fault, rtol=1e-10, popts=None):
    kw = dict(solver=backend, rtol=rtol, petsc_options=popts)
    if fault == "maxiter":
        kw["maxiter"] = 1
    return solver_elastic.LinearSolverConfig(**kw)


def solve_event(P, backend, fault, how):
    """one state solve; the outcome is an observation, also if it raises"""
    t = P.task()
    ext = backend in EXTERNAL
    if ext and how == "option" and P.heat:
        how = "config"                              # no option takes them there
    opts = P.c["popts"] if ext and how != "wrapper" else "none"
    cfg = config_of(backend, fault, popts=POPTS[opts])
    rho = P.rho.copy()
    e = {"op": "solve", "phys": "heat" if P.heat else "elastic", "backend": backend, "how": how,
         "fault": fault != "none", "n": P.n, "ok": True, "used": [], "pres": [], "resid": [], "alone": [],
         "tol": 2000, "alonetol": 20000, "changed": False, "err": "", "installed": P.c["pets"] == "present",
         "opts": opts, "ksp": "", "pc": "", "factor": "", "prefix": "", "setopts": True, "c": [], "work": []}
    if backend == "cg_jacobi" and fault == "amg":
        e["fault"] = False
    u = None
    with Spy(fault if not ext else "none") as spy, petsc_stub.Installed(e["installed"], fault, P.n) as log:
        try:
            if how == "option":
                f = P.fem(t, None, solver_option=backend,
                          **({"petsc_options": POPTS[opts]} if ext else {}))
                e["tol"] = 100000
            elif how == "optimizer":
                f = through_optimizer(P, t, backend, POPTS[opts] if ext else None)
                e["tol"] = 100000
            elif how != "wrapper":
                f = P.fem(t, cfg)
            if how == "again":                      # an earlier solve leaves nothing behind
                P.objective(f, rho=P.rng.permutation(rho), s=.3, p=P.p + 1)
                if P.c["nu"] == "low":
                    P.objective(f, rho=P.rng.permutation(rho), s=1.7)
            if how == "wrapper":
                if P.n == 1 and not P.heat and P.c["single"] == "bare" and P.c["conv"] == "one":
                    e["tol"] = 100000                # a wrapper with its default tolerance
                J, u = wrapper(P, t, backend, rho, fault)
            else:
                J, u = P.objective(f, rho=rho)
        except Exception as ex:
            e["ok"], e["err"] = False, f"{type(ex).__name__}: {ex}"[:200]
            u = None
        e.update(ksp=log.ksp, pc=log.pc, factor=log.factor, prefix=log.prefix, setopts=log.options)
    e["used"] = sorted(set(spy.used)) + (["external"] if log.solves else [])
    e["changed"] = not np.array_equal(rho, P.rho)
    if u is not None:
        e["pres"], e["resid"] = P.measure(t, u)
        if how == "wrapper" and J is not None:
            _, F = P.system(t, P.rho)
            e["c"], e["work"] = norm(np.ravel(J), np.array([F[i] @ u[:, i] for i in range(P.n)]))
        for i in range(P.n if P.n > 1 else 0):
            ti = P.task(only=i)
            _, ui = P.objective(P.fem(ti, config_of("spsolve", "none")), n=1)
            e["alone"].append(sc(np.abs(u[:, i] - ui[:, 0]).max() / max(np.abs(ui).max(), 1e-30), 10**9))
    return e


def wrapper(P, t, backend, rho, fault):
    """the same solve through the functions that take dofs and loads (fea.solver, fea.solver_heat)"""
    from sktopt.fea import solver, solver_heat
    law = INTERP[P.c["interp"]]
    kw = {"rtol": 1e-10, "maxiter": 1 if fault == "maxiter" else None}
    u = np.zeros((P.basis.N, P.n))
    Emin = P.E * P.emin
    v = P.c["single"], P.c["conv"]
    if P.heat:
        K, F = P.system(t, rho)
        cases = [P.fixed(i) for i in range(P.n)]
        dofs = [P.basis.get_dofs(nodes=d) for d, _ in cases]
        vals = [float(x) for _, x in cases]
        if v[0] == "bare" and backend in ("spsolve", "auto"):
            same = all(np.array_equal(np.sort(d.all()), np.sort(dofs[0].all())) for d in dofs)
            fn = solver_heat.solve_scipy if v[1] == "one" and same else solver_heat.solve_scipy_heat_multi_enforce
            quiet(fn, K.tocsr(), F[0], dofs, vals, u)
            return None, u
        base = P.base_system(rho)
        quiet(solver_heat.solve_multi_load, P.basis, None, [d for d, _ in cases], vals,
              base[0], base[1], P.E, Emin, P.p, rho, u, solver=backend, elem_func=law, **kw)
        return None, u
    D = P.basis.get_dofs(patch(P.m, "x0")).all()
    free = np.setdiff1d(np.arange(P.basis.N), D)
    F = [f * P.scale for f in (t.neumann_linear if isinstance(t.neumann_linear, list) else [t.neumann_linear])]
    args = (P.basis, free, D)
    rest = (P.E, Emin, P.p, P.nu, rho)
    if P.n == 1 and v[0] == "bare":
        if P.c["interp"] == "SIMP" and backend == "auto" and fault == "none" and v[1] == "one":
            J, u[:, 0] = quiet(solver.compute_compliance_simp_basis, *args, F[0], *rest)
        else:
            fn = solver.compute_compliance_basis if v[1] == "one" else solver.compute_compliance_basis_numba
            J, u[:, 0] = quiet(fn, *args, F[0], *rest, elem_func=law, solver=backend, **kw)
        return J, u
    if P.n > 1 and v[1] == "two":
        F2 = quiet(solver.solve_multi_load, *args, F, *rest, u, solver=backend, elem_func=law, **kw)
        return np.einsum("ij,ij->j", F2, u), u
    return quiet(solver.compute_compliance_basis_multi_load, *args, F, *rest, u, solver=backend, elem_func=law, **kw), u


def through_optimizer(P, t, backend, popts=None):
    dst = tempfile.mkdtemp()
    try:
        kw = {} if popts is None else {"petsc_options": popts}
        if popts and P.c["order"] == "rev":         # as an object: what is not given is its default
            kw["petsc_options"] = solver_elastic.PETScOptions(**popts)
        c = optimizers.OC_Config(dst_path=dst, max_iters=2, record_times=1, E_min_coeff=P.emin, design_dirichlet=True, solver_option=backend,
                                 interpolation=P.c["interp"], **kw)
        return quiet(optimizers.OC_Optimizer, c, t).fem
    finally:
        shutil.rmtree(dst, ignore_errors=True)


def bar(c):
    """unit cubes in a row along x, clamped at x = 0 and pulled at the other end (nu = 0)"""
    rng = np.random.default_rng(zlib.crc32(repr(sorted(c.items())).encode()))
    n = 2 + rng.integers(5)
    m = skfem.MeshHex.init_tensor(np.arange(n + 1.), np.arange(2.), np.arange(2.))
    rho = rng.integers(2, 11, n)
    p = int({"one": 1, "two": 2, "three": 3, "frac": 3}[c["p"]])
    b = skfem.Basis(m, skfem.ElementVector(skfem.ElementHex1()), intorder=2)
    t = quiet(LinearElasticity.from_facets, b, m.facets_satisfying(lambda x: x[0] == 0), "all",
              m.facets_satisfying(lambda x: x[0] == n), "u^1", 1.0, np.arange(n), 1.0, 0.0)
    f = sktopt.fea.FEM_SimpLinearElasticity(t, 1e-3, density_interpolation=INTERP[c["interp"]])
    u = np.zeros((b.N, 1))
    order = np.argsort(m.p[:, m.t].mean(axis=1)[0])
    r = np.empty(n)
    r[order] = rho / 10
    C = f.objectives_multi_load(r, float(p), u)
    en = f.energy_multi_load(r, float(p), u)[order, 0]
    nodes = b.nodal_dofs[0]
    return {"op": "bar", "law": c["interp"], "rho": [int(x) for x in rho], "p": p,
            "u": scv(u[nodes, 0], 10**5), "plane": [int(x) for x in np.rint(m.p[0])],
            "c": scv(C, 10**5), "en": scv(en, 10**5)}


def heatbar(c):
    rng = np.random.default_rng(zlib.crc32(repr(sorted(c.items())).encode()))
    n = int(2 + rng.integers(4))
    m = skfem.MeshHex.init_tensor(np.arange(n + 1.), np.arange(2.), np.arange(2.))
    r, h = int(rng.integers(5, 11)), int(rng.integers(2, 20))
    t0, te = int(rng.integers(0, 4)), int(rng.integers(0, 6))
    p = int({"one": 1, "two": 2, "three": 3, "frac": 3}[c["p"]])
    b = skfem.Basis(m, skfem.ElementHex1(), intorder=2)
    t = quiet(LinearHeatConduction.from_facets, b, m.facets_satisfying(lambda x: x[0] == 0), float(t0),
              m.facets_satisfying(lambda x: x[0] == n), h / 10, float(te), True, np.arange(n), 1.0)
    f = sktopt.fea.FEM_SimpLinearHeatConduction(t, 1e-3, density_interpolation=INTERP[c["interp"]])
    u = np.zeros((b.N, 1))
    f.objectives_multi_load(np.full(n, r / 10), float(p), u)
    return {"op": "heatbar", "law": c["interp"], "r": r, "p": p, "len": n, "h": h, "t0": t0, "tenv": te,
            "u": scv(u[:, 0], 1000), "plane": [int(x) for x in np.rint(m.p[0])]}


# ------------------------------------------------------------------ C15 operations
def norm(*arrays):
    ref = max(max(np.abs(a).max() for a in arrays), 1e-300)
    return [scv(np.ravel(a) / ref) for a in arrays]


def values(P):
    t = P.task()
    f = P.fem(t)
    J, u = P.objective(f)
    en = np.asarray(f.energy_multi_load(P.rho, P.p, u))
    K, F = P.system(t, P.rho)
    work = np.array([F[i] @ u[:, i] if not P.heat else u[:, i] @ (K @ u[:, i]) for i in range(P.n)])
    twice = 2 * en.sum(axis=0) if not P.heat else J
    a, b, c = norm(J, work, twice)
    return {"op": "values", "c": a, "work": b, "energy": c, "minenergy": sc(min(en.min(), 0), 10**9), "tol": 20}


def other_value(P, name, weight):
    """objective values of a heat problem other than the compliance, from its temperatures"""
    t = P.task(objective=name, weight=weight)
    f = P.fem(t)
    J, u = P.objective(f)
    aslist = lambda a: a if isinstance(a, list) else [a]
    total = u.sum(axis=0)
    if name == "averaged_temp":
        want = total
    else:
        b = skfem.CellBasis(P.m, P.basis.elem)
        I = P.interface(P.rho, b)
        size = np.sum(I * b.dx)
        want = np.zeros(P.n)
        for i in range(P.n):
            T = np.asarray(b.interpolate(u[:, i]))
            for h, te in zip(aslist(t.robin_coefficient), aslist(t.robin_bc_value)):
                want[i] -= te * h * np.sum((T - te) * I * b.dx) / size
        if np.ptp(P.rho) < 1e-9:                    # no interface: nothing is exchanged
            want, J = np.zeros(P.n), J if not weight else np.zeros(P.n)
        elif weight:
            a, c = (1.0, 1.0) if P.n == 1 else (np.abs(want).mean(), np.abs(total).mean())
            want = want / a + weight * total / c
    a, b = norm(want, J) if np.abs(want).max() > 0 else (scv(want), scv(J))
    return {"op": "objval", "objective": name, "want": a, "got": b, "cases": P.n}


def per_case_grad(P, f, rho, h=1e-5):
    """numerical derivative of every case's objective with respect to every element"""
    G = np.zeros((len(rho), P.n))
    for e in range(len(rho)):
        a, b = rho.copy(), rho.copy()
        a[e] += h
        b[e] -= h
        G[e] = (P.objective(f, rho=a)[0] - P.objective(f, rho=b)[0]) / (2 * h)
    return G


def analytic(P, f, rho):
    from sktopt.core import derivatives
    J, u = P.objective(f, rho=rho)
    if hasattr(f, "compliance_sensitivity_multi_load"):
        return np.asarray(f.compliance_sensitivity_multi_load(rho, P.p, u))
    en = np.asarray(f.energy_multi_load(rho, P.p, u))
    d = derivatives.dC_drho_simp if P.c["interp"] == "SIMP" else derivatives.dC_drho_ramp
    return np.stack([d(rho, en[:, i], f.E_max, f.E_min, P.p) for i in range(P.n)], axis=1)


SIG = inspect.signature(optimizers.OC_Optimizer.rho_update)


def handed(P, filt, mode):
    """what the optimizer hands to its update in the first iteration"""
    t = P.task()
    dst = tempfile.mkdtemp()
    beta, radius = 3.0, 1.3
    eta = {"half": .5, "low": .35, "high": .65}[P.c["thr"]]
    try:
        cls, ccls, kw = (optimizers.OC_Optimizer, optimizers.OC_Config, {}) if mode != "logmoc" else \
            (optimizers.LogMOC_Optimizer, optimizers.LogMOC_Config, {})
        base = dict(dst_path=dst, max_iters=3, record_times=3, E_min_coeff=P.emin, interpolation=P.c["interp"],
                    filter_type=filt, filter_radius=SC.constant(target_value=radius), p=SC.constant(target_value=P.p),
                    beta=SC.constant(target_value=beta), beta_eta=eta, vol_frac=SC.constant(target_value=0.5), rho_min=0.05,
                    move_limit=SC.constant(target_value=0.3), design_dirichlet=True,
                    sensitivity_filter=mode == "sf", **kw)
        o = quiet(cls, ccls(**base), t)
        quiet(o.parameterize)
        quiet(o.optimize_steps, 1)
        for path in sorted(glob.glob(f"{dst}/data/*rho*.npz")):     # continue from an uneven field
            with np.load(path) as z:
                z = {k: .1 + .85 * P.rng.random(z[k].shape) for k in z.files}
            np.savez(path, **z)
        t = P.task()
        o = quiet(cls, ccls(**base, restart=True), t)
        quiet(o.parameterize)
        got, obj = [], []
        upd, ob = o.rho_update, o.fem.objectives_multi_load

        def w_upd(*a, **k):
            got.append(np.array(SIG.bind(None, *a, **k).arguments["dC_drho_design_eles"], copy=True))
            return upd(*a, **k)

        def w_ob(*a, **k):
            r = ob(*a, **k)
            obj.append(np.array(r, float))
            return r

        fw = o.filter.forward
        o.rho_update, o.fem.objectives_multi_load = w_upd, w_ob
        starts = []
        o.filter.forward = lambda x, *a, **k: (starts.append(np.array(x, copy=True)), fw(x, *a, **k))[1]
        quiet(o.optimize_steps, 1)
        rec = float(np.ravel(o.recorder.latest(o._objective_history_name(t)))[-1]) \
            if hasattr(o, "_objective_history_name") else float(obj[-1].mean())
        ids = np.asarray(t.design_elements)
        fr = type(o.filter).from_defaults(t.mesh, t.elements_volume, radius,
                                          design_mask=np.isin(np.arange(t.mesh.nelements), ids))
    finally:
        shutil.rmtree(dst, ignore_errors=True)
    x = starts[0]                       # an iteration starts by filtering its field
    f = P.fem(t)
    unit = np.tanh(beta * eta) + np.tanh(beta * (1 - eta))
    th = lambda z: (np.tanh(beta * eta) + np.tanh(beta * (z - eta))) / unit
    dth = lambda z: beta * (1 - np.tanh(beta * (z - eta)) ** 2) / unit
    y = fr.forward(x)
    G = per_case_grad(P, f, th(y))
    want = np.mean([fr.gradient(G[:, i] * dth(y)) for i in range(P.n)], axis=0)
    if mode == "sf":
        want = fr.forward(want) - fr.forward(np.zeros_like(want))
    fd = np.array([])
    if filt == "spacial" and mode != "sf":
        fd = np.zeros(len(ids))
        for k, e in enumerate(ids):
            a, b = x.copy(), x.copy()
            a[e] += 1e-5
            b[e] -= 1e-5
            fd[k] = (P.objective(f, rho=th(fr.forward(a)))[0].mean()
                     - P.objective(f, rho=th(fr.forward(b)))[0].mean()) / 2e-5
    g = got[0]
    ref = max(np.abs(want[ids]).max(), 1e-6 * np.abs(G).max())
    m = obj[0].mean()
    return {"op": "handed", "filter": filt, "mode": mode, "want": scv(want[ids] / ref), "got": scv(g / ref),
            "fd": scv(fd / ref), "obj": sc(rec / m), "meanobj": 10**6}


def run(a):
    prop, s = a
    c = {x["k"]: x["v"] for x in s["c"]}
    tr = {"prop": prop, "scn": c, "ops": s["ops"], "ev": []}
    ev = tr["ev"]
    at = "build"
    old = np.seterr(all="ignore")
    try:
        P = Case(c, zero=prop == "C15")
        for i, op in enumerate(s["ops"]):
            at = f"{i}:{op}"
            if op.startswith("solve"):
                _, how = op.split("_")
                b = c["backend"]
                fault = c["fault"] if b in ("cg_jacobi", "cg_pyamg", "auto") + EXTERNAL else "none"
                if b in EXTERNAL and fault in ("amg", "maxiter"):
                    fault = {"amg": "infolast", "maxiter": "breakdownlast"}[fault]
                if how not in ("config", "again", "wrapper") and fault == "maxiter":
                    fault = "none"
                if fault == "maxiter" and P.heat:
                    fault = "none"
                ev.append(solve_event(P, b, fault, how))
            elif op == "bar":
                ev.append(bar(c))
            elif op == "heatbar":
                ev.append(heatbar(c))
            elif op == "values":
                ev.append(values(P))
            elif op.startswith("scale"):
                if P.heat:
                    continue
                f, k = P.fem(), {"scale_half": 5, "scale_neg": -10, "scale_three": 30}[op]
                x, y = P.objective(f, s=1.0)[0], P.objective(f, s=k / 10)[0]
                ref = max(np.abs(x).max(), np.abs(y).max() / (k * k / 100))
                ev.append({"op": "scale", "s": k, "c": scv(x / ref), "cs": scv(y / ref)})
            elif op.startswith("stiffen"):
                if P.heat:
                    continue
                k = {"stiffen_two": 20, "stiffen_half": 5, "stiffen_100": 1000}[op]
                x = P.objective(P.fem())[0]
                y = P.objective(P.fem(P.task(E=P.E * k / 10)))[0]
                ref = np.abs(x).max()
                ev.append({"op": "stiffen", "a": k, "c": scv(x / ref), "ca": scv(y / ref)})
            elif op.startswith("add"):
                if P.heat:
                    continue
                f = P.fem()
                r = P.rho.copy()
                if op == "add_one":
                    r[P.rng.integers(len(r))] = 1.0
                else:
                    r = np.minimum(1, r + .2 * P.rng.random(len(r)))
                x, y = P.objective(f)[0], P.objective(f, rho=r)[0]
                ref = np.abs(x).max()
                ev.append({"op": "add", "c": scv(x / ref, 10**9), "more": scv(y / ref, 10**9), "tol": 20})
            elif op == "grad":
                rho = .15 + .75 * P.rng.random(len(P.rho))
                f = P.fem()
                A, B = norm(per_case_grad(P, f, rho), analytic(P, f, rho))
                ev.append({"op": "grad", "fd": A, "an": B})
            elif op.startswith("other"):            # the objectives of heat problems besides compliance
                if not P.heat:
                    continue
                name = {"other_avg": "averaged_temp", "other_hx": "heat_exchange"}[op]
                rho = .15 + .75 * P.rng.random(len(P.rho))
                w = {"none": 0.0, "some": 0.2, "much": 1.5}[c["weight"]]
                ev.append(other_value(Case(c), name, w))
                f = P.fem(P.task(objective=name, weight=w if P.n == 1 else 0.0))
                A, B = norm(per_case_grad(P, f, rho), analytic(P, f, rho))
                ev.append({"op": "other", "objective": name, "fd": A, "an": B})
            elif op.startswith("handed"):
                _, filt, mode = op.split("_")
                ev.append(handed(P, filt, mode))
            else:
                raise vlib.MachineryError(op)
    except vlib.MachineryError:
        raise
    except Exception as ex:
        d = vlib.exc_event(ex)
        ev.append({"op": "raised", "at": at, "what": f"{d['cls']}: {d['msg']} {d['where']}"})
    finally:
        np.seterr(**old)
    return tr


def _check(c, prop):
    t = c.thorough
    c.model("Solve", "CONSTANTS NCases = 3\nSets = {1, 2}\nBackends = {\"auto\", \"spsolve\", \"cg_pyamg\", \"petsc\", \"bogus\"}\n"
            "Laws = {\"SIMP\", \"RAMP\"}\nSPECIFICATION Spec\n"
            "INVARIANTS OutcomeAllowed NoOtherBackend EveryCaseOnItsOwn OncePerCase BarMonotone\n"
            "PROPERTY Terminates\nCHECK_DEADLOCK FALSE\n", timeout=800)
    S = lambda *x: "{" + ", ".join(f'"{v}"' for v in x) + "}"
    c14 = prop == "C14"
    meshes = ("hex421", "hex322", "graded", "tet", "tetg") + (("big",) if c14 else ("hex116",))
    D = [("phys", S("elastic1", "elastic1 ", "elastic2", "elastic3", "heat1", "heat2", "heat3", "heats")),
         ("mesh", S(*meshes)), ("shuffle", "{TRUE, FALSE}"), ("interp", S("SIMP", "RAMP")),
         ("p", S("one", "two", "three", "frac")), ("rho", S("random", "solid", "low", "mixed", "grad")),
         ("emin", S("small", "tiny", "large")), ("thr", S("half", "low", "high")), ("E", S("one", "stiff", "soft")), ("nu", S("std", "low")), ("order", S("fwd", "rev")),
         ("single", S("bare", "list")), ("conv", S("one", "two")), ("weight", S("none", "some", "much"))]
    if c14:
        D += [("backend", S("auto", "auto ", "auto  ", "spsolve", "spsolve ", "cg_jacobi", "cg_jacobi ", "cg_pyamg",
                            "cg_pyamg ", "petsc", "petsc ", "petsc_spdirect", "petsc_spdirect ", "bogus", "SPSOLVE", "")),
              ("pets", S("absent", "present", "present ")), ("popts", S("none", "hypre", "factor", "lu", "own")),
              ("fault", S("none", "none ", "maxiter", "info", "breakdown", "raise", "amg"))]
    else:
        D += [("backend", S("spsolve")), ("fault", S("none"))]
    ops = S("solve_config", "solve_again", "solve_option", "solve_optimizer", "solve_wrapper", "solve_wrapper ",
            "bar", "heatbar") if c14 else \
        S("values", "scale_half", "scale_three", "scale_neg", "stiffen_two", "stiffen_half", "stiffen_100",
          "add_one", "add_many", "grad", "grad ", "other_avg", "other_hx", "bar", "handed_spacial_none", "handed_spacial_sf",
          "handed_helmholtz_none", "handed_helmholtz_sf", "handed_spacial_logmoc")
    n = (4000 if c14 else 2000) if t else (900 if c14 else 200)
    scns = c.generate("PickGen", "CONSTANTS Dims = << " + ", ".join(f'<<"{k}", {v}>>' for k, v in D) +
                      f" >>\nOps = {ops}\nMaxOps = {2 if c14 else 4}\nINIT Init\nNEXT Next\nINVARIANT Emit\n"
                      "CHECK_DEADLOCK FALSE\n",
                      limit=n, extra=("-simulate", f"num={n}", "-depth", "40", "-seed", str(c.seed)))
    for s in scns:
        s["ops"] = sorted((o.strip() for o in s["ops"]), key=lambda o: o.startswith("other"))
        for x in s["c"]:
            if isinstance(x["v"], str):
                x["v"] = x["v"].strip()
    try:
        Case({x["k"]: x["v"] for x in scns[0]["c"]}).task()
        INTERP["SIMP"](np.ones(2), 1.0, .1, 3.0), INTERP["RAMP"](np.ones(2), 1.0, .1, 3.0)
    except Exception:  # noqa  (reported by the scenarios)
        pass
    traces = c.replay(run, [(prop, s) for s in scns], timeout=200)
    for i in range(0, len(traces), 500):
        c.validate("SolveTrace", traces[i:i + 500])
    c.finish(rule="random walk over physics, load cases, meshes, densities, interpolation, backends, faults and "
                  "operations (PickGen); every solve / value / sensitivity judged")


def c14(c):
    c.assumptions += ["well-posed problems; PETSc is not installed here: absent, requests for it must raise; present, a "
                      "stand-in with the interface of petsc4py takes its place",
                      "residuals are measured with an independently assembled system; tolerance 2e-6 of the load "
                      "(1e-4 where the caller cannot set one)"]
    _check(c, "C14")


def c15(c):
    c.assumptions += ["densities in [0.1, 1]; heat problems with zero prescribed temperature driven by convection",
                      "derivatives compared with central differences, tolerance 5e-4 of the largest entry"]
    _check(c, "C15")
