"""Small problems used by the replay harness, built through the public API."""
import fast  # noqa: F401  (stubs plotting before sktopt is imported)
import numpy as np
import skfem
from sktopt.mesh import LinearElasticity, LinearHeatConduction, toy_problem
from sktopt.tools import SchedulerConfig as SC  # noqa: F401
import contextlib
import io


def hex_basis(nx, ny, nz, vector=True):
    m = toy_problem.create_box_hex(nx, ny, nz, 1.0)
    e = skfem.ElementHex1()
    return m, skfem.Basis(m, skfem.ElementVector(e) if vector else e, intorder=2)


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def elastic(nx=4, ny=2, nz=1, forces=((2, -1.0),), design=None, supports="all"):
    m, b = hex_basis(nx, ny, nz)
    d = m.facets_satisfying(lambda x: x[0] == 0)
    f = m.facets_satisfying(lambda x: x[0] == nx)
    names = {1: "u^1", 2: "u^2", 3: "u^3"}
    if len(forces) == 1:
        ff, fd, fv = f, names[forces[0][0] + 1], forces[0][1]
    else:
        ff = [f for _ in forces]
        fd = [names[k + 1] for k, _ in forces]
        fv = [v for _, v in forces]
    return quiet(LinearElasticity.from_facets, b, d, supports, ff, fd, fv,
                 np.arange(m.nelements) if design is None else design, 1.0, 0.3)
