"""C21: the mesh utilities of the real code against MeshUtil*.tla."""
import itertools
import os
import shutil
import tempfile
import zlib

import fast  # noqa: F401
import meshio
import numpy as np
import skfem
from sktopt.fea import composer
from sktopt.mesh import loader, toy_problem, utils

import vlib
from problems import quiet
from vlib import sc, scv

CELL = np.array([[0, 0, 0], [0, 0, 1], [0, 1, 0], [1, 0, 0], [0, 1, 1], [1, 0, 1], [1, 1, 0], [1, 1, 1]])
AXES = {"one": ([0, 1], [0, 1], [0, 1]), "row": ([0, 1, 3, 4], [0, 2], [0, 1]), "slab": ([0, 2, 3], [0, 1, 2], [0, 1]),
        "block": ([0, 1, 2], [0, 1, 3], [0, 2, 3]), "long": ([0, 5], [0, 1, 2, 3], [0, 1])}
MAPS = {"plain": lambda p: p, "shear": lambda p: np.array([2 * p[0] + p[1], 3 * p[1] - p[2], p[2] + p[0]]),
        "taper": lambda p: np.array([p[0] * (7 - p[2]), p[1] * (7 - p[2]), 2 * p[2]]),
        "turn": lambda p: np.array([p[1], p[2], p[0]]), "shift": lambda p: p + np.array([[-3], [2], [-1]])}


def numberings():
    """the 48 ways to number the corners of a cell: permutation, right-handed or not"""
    r = []
    for q in itertools.permutations(range(3)):
        for f in itertools.product((0, 1), repeat=3):
            img = CELL[:, q] ^ np.array(f)
            perm = [int(np.flatnonzero((CELL == c).all(axis=1))[0]) for c in img]
            right = (np.linalg.det(np.eye(3)[list(q)]) > 0) == (sum(f) % 2 == 0)
            r.append((perm, right))
    return r


HEXNUM = numberings()
TETNUM = [(list(q), np.linalg.det(np.eye(4)[list(q)]) > 0) for q in itertools.permutations(range(4))]


class Mesh:
    def __init__(self, c):
        self.rng = rng = np.random.default_rng(zlib.crc32(repr(sorted(c.items())).encode()))
        self.kind = kind = c["kind"]
        ax = [np.array(a, float) for a in AXES[c["axes"]]]
        cls = skfem.MeshTet if kind == "tet" else skfem.MeshHex
        m = cls.init_tensor(*ax)
        f = MAPS[c["map"]]
        p, t = np.rint(f(m.p)).astype(int), np.array(m.t)
        box = np.array([[a[0], a[-1]] for a in ax]).T                      # 2 x 3
        corners = np.array([[box[i, k] for k, i in enumerate(q)] for q in CELL]).T
        self.domain = np.rint(f(corners)).astype(int).T.tolist()
        # right-handed numbering
        sgn = np.array([round(np.linalg.det(np.array([p[:, e[i]] - p[:, e[0]] for i in ((1, 2, 3) if kind == "tet" else (3, 2, 1))])))
                        for e in t.T])
        swap = [0, 2, 1, 3] if kind == "tet" else [0, 3, 2, 1, 6, 5, 4, 7]
        t[:, sgn < 0] = t[:, sgn < 0][swap]
        if c["shuffle"]:
            pn, pe = rng.permutation(p.shape[1]), rng.permutation(t.shape[1])
            q = np.empty_like(p)
            q[:, pn] = p
            p, t = q, pn[t][:, pe]
        if c["turned"]:
            for e in range(t.shape[1]):
                t[:, e] = t[self.pick(True), e]
        self.p, self.t = p, np.ascontiguousarray(t)
        self.unit = {"one": 1.0, "milli": 1e-3, "big": 1e3, "odd": 0.37}[c["unit"]]
        self.cls = cls
        self.m = cls(self.p * self.unit, self.t)

    def pick(self, right):
        q = [a for a, r in (TETNUM if self.kind == "tet" else HEXNUM) if r == right]
        return q[self.rng.integers(len(q))]

    def flipped(self, share):
        t = np.array(self.t)
        for e in range(t.shape[1]):
            if self.rng.random() < share:
                t[:, e] = t[self.pick(False), e]
        return t


def one(t):
    return (np.asarray(t).T + 1).tolist()


def box_event(kind, lens, size):
    make = toy_problem.create_box_hex if kind == "hex" else toy_problem.create_box_tet
    m = quiet(make, *lens, size)
    p, t = np.asarray(m.p), np.asarray(m.t)
    lev = []
    for k in range(3):
        v = np.sort(p[k])
        v = v[np.concatenate([[True], np.diff(v) > 1e-9 * size])]
        lev.append(scv(v / size))
    ids = (1, 2, 3) if kind == "tet" else (3, 2, 1)
    det = np.array([np.linalg.det(np.array([p[:, e[i]] - p[:, e[0]] for i in ids])) for e in t.T])
    vol = det / 6 if kind == "tet" else det
    loc = list(itertools.combinations(range(4), 3)) if kind == "tet" else \
        [np.flatnonzero(CELL[:, k] == v) for k in range(3) for v in (0, 1)]
    count = {}
    for e in t.T:
        for f in loc:
            g = tuple(sorted(e[list(f)].tolist()))
            count[g] = count.get(g, 0) + 1
    outer = all(any((np.abs(p[k, list(g)] - v) < 1e-9 * size).all() for k in range(3) for v in (0.0, lens[k]))
                for g, n in count.items() if n == 1)
    lib = composer.get_elements_volume(m)
    return {"op": "box", "len": scv(np.array(lens) / size), "levels": lev, "total": sc(vol.sum() / np.prod(lens)),
            "minvol": int(vol.min() > 0) if np.allclose(lib, vol, rtol=1e-9) else 0,
            "inner": max(count.values()) <= 2, "outer": bool(outer)}


def run(s):
    c = {x["k"]: x["v"] for x in s["c"]}
    tr = {"scn": c, "ops": s["ops"], "ev": []}
    ev = tr["ev"]
    at = "build"
    tmp = tempfile.mkdtemp()
    old = np.seterr(all="ignore")
    try:
        M = Mesh(c)
        m, n = M.m, M.t.shape[1]
        tr.update(kind=M.kind, p=M.p.T.tolist(), t=one(M.t), domain=M.domain)
        some = lambda k: M.rng.choice(n, size=min(n, k), replace=False)
        for i, op in enumerate(s["ops"]):
            at = f"{i}:{op}"
            k6 = 6 / M.unit**3
            if op == "volumes":
                a, b = np.array(m.p), np.array(m.t)
                v = np.asarray(composer.get_elements_volume(m))
                ev.append({"op": "volumes", "vol": scv(v * k6, 1000),
                           "unchanged": bool(np.array_equal(a, m.p) and np.array_equal(b, m.t))})
            elif op.startswith("orient"):
                fn = {"orient": utils.fix_elements_orientation, "orient_fn": None, "orient_numba": None}[op]
                t = M.flipped(c["share"] / 10)
                t0, p = np.array(t), M.p * M.unit

                def fix(t):
                    if fn is not None:
                        return fn(M.cls(p, np.ascontiguousarray(t)))
                    if M.kind == "hex":
                        return utils.fix_hexahedron_orientation(t, p)
                    return (utils.fix_tetrahedron_orientation if op == "orient_fn"
                            else utils.fix_tetrahedron_orientation_numba)(t, p)
                r = np.asarray(fix(t))
                ev.append({"op": "orient", "before": one(t0), "t": one(r), "again": one(fix(r)),
                           "unchanged": bool(np.array_equal(t, t0))})
            elif op.startswith("matrix"):
                if op == "matrix_face":
                    if M.kind != "tet":
                        continue
                    a = composer.adjacency_matrix(m)
                    pairs, ok = [[x + 1, int(y) + 1] for x, l in enumerate(a) for y in l], len(a) == n
                else:
                    a = (utils.build_element_adjacency_matrix if op == "matrix"
                         else utils.build_element_adjacency_matrix_fast)(m)
                    z = a.tocoo()
                    pairs = [[int(x) + 1, int(y) + 1] for x, y, v in zip(z.row, z.col, z.data) if v]
                    ok = bool((a.toarray() <= 1).all() and a.shape == (n, n))
                ev.append({"op": "matrix", "by": "face" if op == "matrix_face" else "node", "pairs": pairs, "one": ok})
            elif op.startswith("around"):
                of = some({"around": 2, "around_one": 1, "around_fast": 3}[op])
                if op == "around_fast":
                    got = utils.get_adjacent_elements_fast(utils.build_element_adjacency_matrix_fast(m), of)
                else:
                    got = utils.get_adjacent_elements(m, of.tolist() if op == "around" else of)
                ev.append({"op": "around", "of": (of + 1).tolist(), "got": [int(x) + 1 for x in got]})
            elif op.startswith("bynodes"):
                nd = M.rng.choice(M.p.shape[1], size=min(M.p.shape[1], int(M.rng.integers(1, 5))), replace=False)
                arg = nd if op == "bynodes" else [nd[:1], nd[1:], nd[:1]]
                got = utils.get_elements_by_nodes(m, arg)
                ev.append({"op": "bynodes", "of": (nd + 1).tolist(), "got": [int(x) + 1 for x in got]})
            elif op.startswith("box"):
                U = M.unit
                lens = [float(x) for x in M.rng.choice([.3, .5, .9, 1.0, 1.6, 2.0, 3.7], 3)]
                size = float(M.rng.choice([.3, .4, .55, .8, 1.0, 2.5]))
                if c["share"] == 10:            # lengths that are multiples of the spacing
                    lens = [float(x) * size for x in M.rng.integers(1, 6, 3)]
                if op == "box_tet":
                    size = max(size, max(lens) / 7.9)
                ev.append(box_event(op[4:], [x * U for x in lens], size * U))
                tr["kind"] = M.kind
                ev[-1]["kind"] = op[4:]
            elif op == "range":
                lo, hi = np.sort(M.rng.integers(-4, 12, (2, 3)), axis=0)
                pts = np.concatenate([M.p.T, M.rng.integers(-5, 13, (8, 3)), [lo, hi]])
                f = utils.get_points_in_range(*[(a * M.unit, b * M.unit) for a, b in zip(lo, hi)])
                ev.append({"op": "range", "lo": lo.tolist(), "hi": hi.tolist(), "pts": pts.tolist(),
                           "got": [bool(x) for x in f(pts.T * M.unit)]})
            elif op.startswith("load"):
                fn = f"{tmp}/mesh.{op[5:]}"
                if M.kind == "tet":
                    quiet(meshio.write_points_cells, fn, M.p.T * M.unit, [("tetra", M.flipped(c["share"] / 10).T)],
                                              **({"file_format": "gmsh22", "binary": False} if op == "load_msh" else {}))
                else:
                    quiet(m.save, fn, **({"file_format": "gmsh22", "binary": False} if op == "load_msh" else {}))
                b = quiet(loader.basis_from_file, fn)
                q, t = np.asarray(b.mesh.p), np.asarray(b.mesh.t)
                ids = (1, 2, 3) if M.kind == "tet" else (3, 2, 1)
                det = [np.linalg.det(np.array([q[:, e[j]] - q[:, e[0]] for j in ids])) for e in t.T]
                ev.append({"op": "load", "nodes": q.shape[1], "elements": t.shape[1], "dofs": int(b.N),
                           "vol": scv(np.asarray(composer.get_elements_volume(b.mesh)) * k6, 1000),
                           "positive": bool(min(det) > 0)})
            else:
                raise vlib.MachineryError(op)
    except vlib.MachineryError:
        raise
    except Exception as ex:
        d = vlib.exc_event(ex)
        ev.append({"op": "raised", "at": at, "what": f"{d['cls']}: {d['msg']} {d['where']}"})
    finally:
        np.seterr(**old)
        shutil.rmtree(tmp, ignore_errors=True)
    return tr


def c21(c):
    t = c.thorough
    for mode in ("tet", "hex"):
        c.model("MeshUtil", f"CONSTANT Mode = \"{mode}\"\nSPECIFICATION Spec\n"
                "INVARIANTS RightHanded SameRegion ProperUntouched\nPROPERTY Idempotent\nCHECK_DEADLOCK FALSE\n", timeout=800)
    S = lambda *x: "{" + ", ".join(f'"{v}"' for v in x) + "}"
    TF = "{TRUE, FALSE}"
    D = [("kind", S("tet", "hex")), ("axes", S(*AXES)), ("map", S(*MAPS)), ("shuffle", TF), ("turned", TF),
         ("unit", S("one", "milli", "big", "odd")), ("share", "{0, 3, 5, 10}")]
    ops = S("volumes", "orient", "orient_fn", "orient_numba", "matrix", "matrix_fast", "matrix_face", "around",
            "around_one", "around_fast", "bynodes", "bynodes_list", "box_hex", "box_tet", "range", "load_msh", "load_vtk",
            "load_vtu")
    n = 6000 if t else 400
    scns = c.generate("PickGen", "CONSTANTS Dims = << " + ", ".join(f'<<"{a}", {v}>>' for a, v in D) +
                      f" >>\nOps = {ops}\nMaxOps = 6\nINIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n",
                      limit=n, extra=("-simulate", f"num={n}", "-depth", "40", "-seed", str(c.seed)))
    traces = c.replay(run, scns, timeout=120)
    for i in range(0, len(traces), 500):
        c.validate("MeshTrace", traces[i:i + 500])
    c.assumptions += ["hexahedra with plane faces (the volume of others depends on what their faces are taken to be)",
                      "volumes and box meshes: elements that are right-handed"]
    c.finish(rule="random walk over lattice meshes (element kinds, gradings, affine and tapered maps, numberings, units) "
                  "and sequences of calls of the mesh utilities")
