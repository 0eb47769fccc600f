"""C25: element energies, stresses, matrices and derivatives of the real code against Material*.tla.

Everything is evaluated on integer meshes, integer gradients and densities in tenths, so that the
specification knows the answers exactly."""
import zlib

import fast  # noqa: F401
import numpy as np
import skfem
from sktopt.core import derivatives
from sktopt.fea import FEM_SimpLinearElasticity, FEM_SimpLinearHeatConduction, composer, solver_elastic, solver_heat

import vlib
from vlib import sc, scv

NU = {0: 0.0, 3: 1 / 3, 4: 0.25}
MAPS = [np.eye(3, dtype=int), np.array([[1, 1, 0], [0, 1, 0], [0, 0, 1]]),
        np.array([[1, 0, 0], [0, 1, -1], [1, 0, 1]]), np.array([[0, 1, 0], [0, 0, 1], [1, 0, 0]])]


def build(c, rng):
    """Integer mesh; returns the mesh and the x interval (of the unmapped grid) of every element."""
    pts = []
    for ax in "xyz":
        n = c["n" + ax]
        step = {"one": [1] * n, "two": [2] * n, "mixed": [1 + i % 2 for i in range(n)]}[c["spacing"]]
        pts.append(np.concatenate([[0], np.cumsum(step)]).astype(float))
    cls = skfem.MeshTet if c["kind"] == "tet" else skfem.MeshHex
    m = cls.init_tensor(*pts)
    p, t = m.p, m.t
    xs = p[0].copy()
    a = MAPS[c["map"]]
    p = a @ p
    if c["order"]:
        pn = rng.permutation(p.shape[1])
        inv = np.empty_like(pn)
        inv[pn] = np.arange(pn.size)
        p, xs, t = p[:, pn], xs[pn], inv[t][:, rng.permutation(t.shape[1])]
    m = cls(p, t, sort_t=False) if c["kind"] == "tet" else cls(p, t)
    return m, xs, pts[0]


def mat(g):
    return [[int(v) for v in r] for r in g]


class Task:
    pass


def run(s):
    c = {x["k"]: x["v"] for x in s["c"]}
    rng = np.random.default_rng(zlib.crc32(repr((sorted(c.items()), s["ops"])).encode()))
    m, xs, gx = build(c, rng)
    el = [[[int(round(v)) for v in m.p[:, n]] for n in m.t[:, e]] for e in range(m.nelements)]
    tr = {"scn": c, "ops": s["ops"], "kind": c["kind"], "el": el, "ev": []}
    ev = tr["ev"]
    ne = m.nelements
    ele = skfem.ElementTetP1() if c["kind"] == "tet" else skfem.ElementHex1()
    io = {"low": 1 if c["kind"] == "tet" else 2, "mid": 2, "high": 4}[c["quad"]]
    vb = skfem.Basis(m, skfem.ElementVector(ele), intorder=io)
    hb = skfem.Basis(m, ele, intorder=io)
    fn = composer.simp_interpolation if c["model"] == "simp" else composer.ramp_interpolation
    p, E0, Emin, nu = c["p"], c["E0"], c["Emin"], c["nu"]
    E0 = max(E0, Emin + 1)
    k = c["cases"]
    at = ""

    def law(op, r, **kw):
        return {"op": op, "model": c["model"], "p": p, "E0": E0, "Emin": Emin, "nu": nu,
                "r": [int(v) for v in r], **kw}

    def dens(n):
        r = {"any": rng.integers(0, 11, n), "solid": np.full(n, 10), "void": np.zeros(n, int),
             "mixed": rng.choice([0, 10, 5], n)}[c["dens"]]
        return r, r / 10

    def kept(*arrs):
        cp = [a.copy() for a in arrs]
        return lambda: any(not np.array_equal(a, b) for a, b in zip(arrs, cp))

    def affine_u(G, off):
        """dof vector of u = G x + off; component i of node n is dof vb.nodal_dofs[i, n]."""
        u = np.zeros(vb.N)
        val = np.asarray(G) @ m.p + np.asarray(off)[:, None]
        for i in range(3):
            u[vb.nodal_dofs[i]] = val[i]
        return u

    def affine_T(g, off):
        T = np.zeros(hb.N)
        T[hb.nodal_dofs[0]] = np.asarray(g) @ m.p + off
        return T

    def grads(n):
        res = []
        for _ in range(n):
            G = rng.integers(-1, 2, (3, 3))
            w = rng.integers(0, 6)
            if w == 0:
                G = np.zeros((3, 3), int)
                G[rng.integers(3), rng.integers(3)] = 1
            elif w == 1:
                G = G - G.T
                G = np.clip(G, -1, 1)
            res.append(G)
        return res

    def probes(K, basis, quad_energy):
        """random fields: K's quadratic form and the energy the code reports for them"""
        res = []
        for _ in range(2):
            u = rng.integers(-2, 3, basis.N) / 2
            res.append({"quad": sc(u @ (K @ u), 10**3), "energy": sc(np.sum(quad_energy(u)), 10**3)})
        return res

    def stray(K, basis):
        """entries between nodes that share no element"""
        K = K.tocoo()
        node = np.empty(basis.N, int)
        for row in basis.nodal_dofs:
            node[row] = np.arange(m.nvertices)
        ok = set()
        for e in range(ne):
            for a in m.t[:, e]:
                for b in m.t[:, e]:
                    ok.add((int(a), int(b)))
        return sum(1 for i, j, v in zip(K.row, K.col, K.data) if v != 0 and (int(node[i]), int(node[j])) not in ok)

    try:
        for i, op in enumerate(s["ops"]):
            at = f"{i}:{op}"
            kind, _, via = op.partition("_")
            r, rho = dens(ne)
            nuf = NU[nu]
            if kind in ("energy", "stress", "elastic"):
                n = 1 if via == "single" or kind == "stress" else (k + 1 if kind == "elastic" else k)
                G = grads(n)
                U = np.column_stack([affine_u(g, rng.integers(-3, 4, 3)) for g in G])
                chk = kept(rho, U)
                if kind == "energy":
                    mod = composer if via in ("composer", "csingle") else solver_elastic
                    if via == "fem":
                        t = Task()
                        t.E, t.nu, t.basis = float(E0), nuf, vb
                        v = FEM_SimpLinearElasticity(t, Emin / E0, density_interpolation=fn).energy_multi_load(
                            rho, float(p), U)
                    elif via in ("csingle", "esingle"):
                        v = np.column_stack([mod.strain_energy_skfem(
                            vb, rho, U[:, j].copy(), float(E0), float(Emin), float(p), nuf, fn) for j in range(n)])
                    else:
                        v = mod.strain_energy_skfem_multi(vb, rho, U, float(E0), float(Emin), float(p), nuf, fn)
                    v = np.asarray(v)
                    ev.append(law("energy", r, G=[mat(g) for g in G], via=via, changed=chk(),
                                  v=[scv(v[:, j], 10**5) for j in range(v.shape[1])] if v.ndim == 2 else []))
                elif kind == "stress":
                    u = U[:, 0].copy()
                    v = np.asarray(composer.stress_tensor_skfem(vb, rho, u, float(E0), float(Emin), float(p), nuf, fn))
                    rows = [] if v.ndim != 4 else [[scv(v[:, :, e, q], 1000) for q in range(v.shape[3])]
                                                   for e in range(v.shape[2])]
                    ev.append(law("stress", r, G=[mat(G[0])], nqp=int(vb.X.shape[1]), shape=list(v.shape), v=rows,
                                  changed=chk() or not np.array_equal(u, U[:, 0])))
                else:
                    if via == "own":
                        f = composer.assemble_stiffness_matrix_simp if c["model"] == "simp" else \
                            composer.assemble_stiffness_matrix_ramp
                        K = f(vb, rho, float(E0), float(Emin), float(p), nuf)
                    else:
                        K = composer.assemble_stiffness_matrix(vb, rho, float(E0), float(Emin), float(p), nuf, fn)
                    rig = [affine_u(np.zeros((3, 3)), np.eye(3)[j]) for j in range(3)] + \
                        [affine_u(w, [0, 0, 0]) for w in ([[0, 1, 0], [-1, 0, 0], [0, 0, 0]],
                                                          [[0, 0, 1], [0, 0, 0], [-1, 0, 0]],
                                                          [[0, 0, 0], [0, 0, 1], [0, -1, 0]])]
                    ev.append(law("elastic", r, G=[mat(g) for g in G], via=via, changed=chk(),
                                  b=[scv(U.T[a] @ (K @ U), 10**4) for a in range(n)],
                                  asym=sc(abs(K - K.T).max(), 10**6), stray=stray(K, vb),
                                  rigid=[sc(np.abs(K @ u).max(), 10**5) for u in rig],
                                  any=probes(K, vb, lambda u: solver_elastic.strain_energy_skfem(
                                      vb, rho, u, float(E0), float(Emin), float(p), nuf, fn))))
            elif kind == "mises":
                S = rng.integers(-9, 10, (3, 3, 7))
                S = (S + S.transpose(1, 0, 2)) // 2 * 2
                S = np.where(np.eye(3, dtype=bool)[:, :, None], S, S // 2)
                S[:, :, 0] = np.eye(3, dtype=int) * 4
                A = S.astype(float)
                if c["order"]:
                    A = A[:, :, :, None]
                chk = kept(A)
                v = np.asarray(composer.von_mises_from_stress_tensor(A))
                ev.append({"op": "mises", "S": [mat(S[:, :, j]) for j in range(7)], "v": scv(v, 100),
                           "changed": chk() or v.shape != A.shape[2:]})
            elif kind in ("heat", "product", "avgtemp", "conduct", "exchange"):
                n = 1 if via == "single" else (k + 1 if kind == "conduct" else k)
                g = [rng.integers(-2, 3, 3) for _ in range(n)]
                h = [rng.integers(-2, 3, 3) for _ in range(n)]
                cc = [int(v) for v in rng.integers(-3, 4, n)]
                T = np.column_stack([affine_T(x, o) for x, o in zip(g, cc)])
                L = np.column_stack([affine_T(x, 1) for x in h])
                env = int(rng.integers(-3, 6))
                chk = kept(rho, T, L)
                gl = [[int(v) for v in x] for x in g]
                if kind == "heat":
                    if via == "fem":
                        t = Task()
                        t.k, t.basis, t.objective = float(E0), hb, "compliance"
                        v = FEM_SimpLinearHeatConduction(t, Emin / E0, density_interpolation=fn).energy_multi_load(
                            rho, float(p), T)
                    elif via == "single":
                        v = solver_heat.heat_energy_skfem(hb, rho, T[:, 0].copy(), float(E0), float(Emin), float(p), fn)
                        v = np.asarray(v)[:, None]
                    else:
                        v = solver_heat.heat_energy_skfem_multi(hb, rho, T, float(E0), float(Emin), float(p), fn)
                    ev.append(law("heat", r, g=gl, via=via, changed=chk(),
                                  v=[scv(v[:, j], 10**5) for j in range(v.shape[1])]))
                elif kind == "product":
                    if via in ("heat_exchange", "averaged_temp"):
                        t = Task()
                        t.k, t.basis, t.objective = float(E0), hb, via
                        fem = FEM_SimpLinearHeatConduction(t, Emin / E0, density_interpolation=fn)
                        fem.λ_all = L
                        v = fem.energy_multi_load(rho, float(p), T)
                    else:
                        f = solver_heat.heat_exchange_grad_density_multi if via == "hx" else \
                            solver_heat.avg_temp_grad_density_multi
                        v = f(hb, T, L)
                    ev.append({"op": "product", "g": gl, "h": [[int(q) for q in x] for x in h], "via": via,
                               "changed": chk(), "v": [scv(v[:, j], 10**5) for j in range(v.shape[1])]})
                elif kind == "avgtemp":
                    if via == "single":
                        v = np.asarray(solver_heat.avg_temp_skfem(hb, T[:, 0].copy(), float(env)))[:, None]
                    else:
                        v = solver_heat.avg_temp_skfem_multi(hb, T, float(env))
                    ev.append({"op": "avgtemp", "g": gl, "c": cc, "env": env, "via": via, "changed": chk(),
                               "v": [scv(v[:, j], 1000) for j in range(v.shape[1])]})
                elif kind == "exchange":
                    # piecewise linear density along x of the unmapped grid
                    nl = gx.size - 1
                    w = rng.integers(0, 3, nl) if via == "graded" else np.zeros(nl, int)
                    f = np.concatenate([[0], np.cumsum(w * np.diff(gx) * rng.choice([-1, 1], nl))])
                    rn = np.zeros(hb.N)
                    rn[hb.nodal_dofs[0]] = np.interp(xs, gx, f)
                    hcoef = int(rng.integers(1, 4))
                    # slopes are those of the unmapped grid: only rotations keep them
                    if c["map"] in (1, 2):
                        continue
                    lay = [int(np.searchsorted(gx, xs[m.t[:, e]].mean()) - 1) for e in range(ne)]
                    cb = skfem.CellBasis(m, ele)
                    v = [solver_heat.heat_exchange_objective(cb, T[:, j].copy(), rn, float(env), float(hcoef))
                         for j in range(n)]
                    ev.append({"op": "exchange", "g": gl, "c": cc, "env": env, "h": hcoef, "changed": chk(),
                               "w": [int(w[q]) for q in lay], "v": scv(v, 1000)})
                else:
                    K = composer.assemble_conduction_matrix(hb, rho, float(E0), float(Emin), float(p), fn)
                    ev.append(law("conduct", r, g=gl, changed=chk(),
                                  b=[scv(T.T[a] @ (K @ T), 10**4) for a in range(n)],
                                  asym=sc(abs(K - K.T).max(), 10**6), stray=stray(K, hb),
                                  rigid=[sc(np.abs(K @ np.ones(hb.N)).max(), 10**5)],
                                  any=probes(K, hb, lambda u: solver_heat.heat_energy_skfem(
                                      hb, rho, u, float(E0), float(Emin), float(p), fn))))
            elif kind == "law":
                r, rho = dens(12)
                chk = kept(rho)
                v = fn(rho, float(E0), float(Emin), float(p))
                ev.append(law("law", r, v=scv(v, 10**5), changed=chk()))
            elif kind == "deriv":
                r, rho = dens(12)
                chk = kept(rho)
                a = (float(E0), float(Emin), float(p))
                if c["model"] == "simp":
                    v = derivatives.dE_drho_simp(rho, *a)
                elif via == "inplace":
                    v = np.full(12, 7.0)
                    derivatives.dE_drho_ramp_inplace(rho, v, *a)
                else:
                    v = derivatives.dE_drho_ramp(rho, *a)
                ev.append(law("deriv", r, via=via, v=scv(v, 10**5), changed=chk()))
            elif kind == "dcomp":
                r, rho = dens(12)
                U = rng.integers(0, 6, 12)
                Uf = U.astype(float)
                chk = kept(rho, Uf)
                a = (float(E0), float(Emin), float(p))
                if c["model"] == "simp":
                    v = derivatives.dC_drho_simp(rho, Uf, *a)
                elif via == "inplace":
                    v = np.full(12, 7.0)
                    derivatives.dC_drho_ramp_inplace(rho, Uf, v, *a)
                else:
                    v = derivatives.dC_drho_ramp(rho, Uf, *a)
                ev.append(law("dcomp", r, via=via, U=[int(x) for x in U], v=scv(v, 100), changed=chk()))
            elif kind == "lame":
                lam, mu = composer.lam_mu(float(E0), nuf)
                ev.append({"op": "lame", "E": E0, "nu": nu, "lam": sc(lam, 10**5), "mu": sc(mu, 10**5)})
    except vlib.MachineryError:
        raise
    except Exception as ex:
        d = vlib.exc_event(ex)
        ev.append({"op": "raised", "at": at, "what": f"{d['cls']}: {d['msg']} {d['where']}"})
    return tr


def _batch(b):
    return [run(s) for s in b]


def c25(c):
    t = c.thorough
    c.model("Material", f"CONSTANTS Vals = {{{'-1, 0, 1' if not t else '-1, 0, 1, 2'}}}\nMaxR = 9\nSPECIFICATION Spec\n"
            "INVARIANTS SymmetricStress EnergyPositive RotationFree Isotropic Reciprocal HydrostaticShift Ends Between "
            "Slope Penalises\nPROPERTY Increasing\nCHECK_DEADLOCK FALSE\n")
    S = lambda *x: "{" + ", ".join(f'"{v}"' for v in x) + "}"
    D = [("kind", S("tet", "hex")), ("nx", "1..3"), ("ny", "1..2"), ("nz", "1..2"),
         ("spacing", S("one", "two", "mixed")), ("map", "0..3"), ("order", "{TRUE, FALSE}"),
         ("quad", S("low", "mid", "high")), ("model", S("simp", "ramp")), ("p", "1..3"), ("E0", "1..9"), ("Emin", "0..2"),
         ("nu", "{0, 3, 4}"), ("cases", "1..3"), ("dens", S("any", "mixed", "solid", "void"))]
    ops = S("energy_composer", "energy_elastic", "energy_csingle", "energy_esingle", "energy_fem", "stress", "mises",
            "elastic", "elastic_own", "conduct", "heat_multi", "heat_single", "heat_fem", "product_hx", "product_avg",
            "product_heat_exchange", "product_averaged_temp", "avgtemp_single", "avgtemp_multi", "exchange_graded",
            "exchange_flat", "law", "deriv", "deriv_inplace", "dcomp", "dcomp_inplace", "lame")
    n = 5000 if t else 500
    scns = c.generate("PickGen", "CONSTANTS Dims = << " + ", ".join(f'<<"{k}", {v}>>' for k, v in D) +
                      f" >>\nOps = {ops}\nMaxOps = 5\nINIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n",
                      limit=8 * n, extra=("-simulate", f"num={n}", "-depth", "40", "-seed", str(c.seed)))
    traces = c.replay(_batch, [scns[i:i + 20] for i in range(0, len(scns), 20)])
    for i in range(0, len(traces), 2000):
        c.validate("MaterialTrace", traces[i:i + 2000])
    c.assumptions += ["fields with constant gradient are exact; for other fields the matrices are compared with the energies",
                      "Poisson ratios 0, 1/4, 1/3; densities in tenths; exponents 1 to 3"]
    c.finish(rule="random walk over meshes, affine maps, numberings, integration orders, material constants and calls "
                  "(PickGen); results compared with exact integer arithmetic in MaterialCore")
