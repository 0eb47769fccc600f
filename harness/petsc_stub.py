"""Stand-in for petsc4py (not installed here): the part of its interface a KSP solve needs, with the
behaviour of PETSc that callers depend on: matrices are copied, vectors share the caller's array, the
outcome of a solve is only told by getConvergedReason (negative: not converged, whatever is in x)."""
import sys
import types

import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg as sla

_spsolve, _cg = sla.spsolve, sla.cg          # not the observed ones


class Log:
    def __init__(self):
        self.ksp, self.pc, self.factor, self.prefix, self.options, self.solves, self.rtol = \
            "", "", "", "", False, 0, 0.0


def module(fault, log):
    M = types.ModuleType("petsc4py.PETSc")
    M.COMM_SELF = object()

    class Mat:
        def createAIJ(self, size, csr=None, comm=None, **k):
            p, i, d = csr
            self.A = sp.csr_matrix((np.array(d, float), np.array(i), np.array(p)), shape=size)
            return self
        create = createAIJ

        def assemblyBegin(self, *a):
            pass

        assemblyEnd = assemble = setUp = setOption = destroy = assemblyBegin

    class Vec:
        def createWithArray(self, a, size=None, bsize=None, comm=None):
            if not (isinstance(a, np.ndarray) and a.flags.c_contiguous and a.dtype == float):
                raise ValueError("array must be contiguous and of the scalar type")
            self.a = a
            return self

        def createSeq(self, n, bsize=None, comm=None):
            self.a = np.zeros(n)
            return self

        def getArray(self, *a):
            return self.a
        array = property(getArray)

        def setArray(self, v):
            self.a[:] = v

        def set(self, v):
            self.a[:] = v

        def duplicate(self):
            return Vec().createSeq(len(self.a))

        def destroy(self):
            pass

    class PC:
        def setType(self, t):
            log.pc = str(t)

        def setFactorSolverType(self, t):
            log.factor = str(t)

    class KSP:
        def __init__(self):
            self.pc, self.max_it, self.rtol, self.reason, self.guess = PC(), 10000, 1e-5, 0, False

        def create(self, comm=None):
            return self

        def setOperators(self, A, P=None):
            self.A = A.A

        def setOptionsPrefix(self, s):
            log.prefix = str(s)

        def setType(self, t):
            log.ksp = str(t)

        def getPC(self):
            return self.pc

        def setTolerances(self, rtol=None, atol=None, divtol=None, max_it=None):
            self.rtol = self.rtol if rtol is None else rtol
            self.max_it = self.max_it if max_it is None else max_it
            log.rtol = self.rtol

        def setFromOptions(self):
            log.options = True

        def setInitialGuessNonzero(self, f):
            self.guess = f

        def setUp(self):
            pass

        def destroy(self):
            pass

        def solve(self, b, x):
            log.solves += 1
            late = fault.endswith("last") and log.solves < log.last
            if fault == "raise":
                raise RuntimeError("error code 76")
            if fault.startswith(("info", "breakdown")) and not late:
                self.reason = -3 if fault.startswith("info") else -9
                x.a[:] = np.nan if fault.startswith("breakdown") else .5 * _spsolve(self.A.tocsc(), b.a)
                return
            if log.ksp == "preonly":
                if log.pc not in ("lu", "cholesky"):
                    self.reason = 4              # one application of a preconditioner is no solution
                    x.a[:] = b.a / self.A.diagonal()
                    return
                x.a[:], self.reason = _spsolve(self.A.tocsc(), b.a), 4
                return
            d = sp.diags(1 / self.A.diagonal())
            x.a[:], info = _cg(self.A, b.a, x0=x.a.copy() if self.guess else None, M=d,
                               rtol=min(self.rtol, 1e-10), maxiter=self.max_it if fault != "none" else 10000)
            self.reason = 2 if info == 0 else -3

        def getConvergedReason(self):
            return self.reason
        reason_ = property(getConvergedReason)

        def getIterationNumber(self):
            return 1

        def getResidualNorm(self):
            return 0.0
    M.Mat, M.Vec, M.KSP, M.PC = Mat, Vec, KSP, PC
    M.ScalarType, M.IntType = np.float64, np.int32
    return M


class Installed:
    """the stand-in is importable as petsc4py while this is active"""

    def __init__(self, present, fault="none", last=1):
        self.present, self.fault, self.log = present, fault, Log()
        self.log.last = last

    def __enter__(self):
        self.saved = {k: v for k, v in sys.modules.items() if k.split(".")[0] == "petsc4py"}
        for k in self.saved:
            del sys.modules[k]
        if self.present:
            p = types.ModuleType("petsc4py")
            p.PETSc = module(self.fault, self.log)
            p.init = lambda *a, **k: None
            p.__path__ = []
            sys.modules["petsc4py"], sys.modules["petsc4py.PETSc"] = p, p.PETSc
        else:
            sys.modules["petsc4py"] = None       # an import fails whatever is installed
        return self.log

    def __exit__(self, *a):
        for k in [k for k in sys.modules if k.split(".")[0] == "petsc4py"]:
            del sys.modules[k]
        sys.modules.update(self.saved)
