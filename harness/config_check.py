"""C19: configurations written, read back and parsed by the real code against Config*.tla."""
import argparse
import contextlib
import dataclasses
import glob
import hashlib
import io
import json
import os
import shutil
import tempfile
import zlib

import fast  # noqa: F401
import numpy as np
import skfem
from sktopt.core import misc, optimizers
from sktopt.mesh import LinearElasticity
from sktopt.tools import SchedulerConfig as SC

import vlib
from problems import quiet

CLS = {"oc": optimizers.OC_Config, "logmoc": optimizers.LogMOC_Config}
OPT = {"oc": optimizers.OC_Optimizer, "logmoc": optimizers.LogMOC_Optimizer}


def flat(x, pre="", out=None):
    """every setting by name, exactly; nested settings with their type"""
    out = [] if out is None else out
    for f in dataclasses.fields(x):
        v = getattr(x, f.name)
        if dataclasses.is_dataclass(v):
            out.append({"k": f"{pre}{f.name}", "v": type(v).__name__})
            flat(v, f"{pre}{f.name}.", out)
        else:
            out.append({"k": pre + f.name, "v": repr(v)})
    if not pre and dataclasses.is_dataclass(getattr(x, "solver_config", None)):
        flat(x.solver_config, "solver_config.", out)
    return out


def plain(v):
    """a setting as the command line writes it"""
    if v is None:
        return "none"
    if isinstance(v, (bool, np.bool_)):
        return str(bool(v)).lower()
    if isinstance(v, (int, float)):
        return f"{float(v):.12g}"
    return str(v)


def flat_plain(x, pre=""):
    out = []
    for f in dataclasses.fields(x):
        v = getattr(x, f.name)
        if dataclasses.is_dataclass(v):
            out += flat_plain(v, f"{pre}{f.name}.")
        else:
            out.append({"k": pre + f.name, "v": plain(v)})
    return out


# ------------------------------------------------------------------ configurations
def schedule(kind, name, a, b, n):
    kw = dict(init_value=a, target_value=b, num_steps=n)
    return {"const": lambda: SC.constant(name=name, target_value=b), "one": lambda: SC.constant_one(name=name),
            "step": lambda: SC.step(name=name, **kw), "acc": lambda: SC.step_accelerating(name=name, curvature=2.5, **kw),
            "dec": lambda: SC.step_decelerating(name=name, curvature=1.5, **kw),
            "saw": lambda: SC.sawtooth_decay(name=name, **kw), "none": SC.none,
            "toone": lambda: SC.step_to_one(num_steps=n), "acctoone": lambda: SC.step_accelerating_to_one(num_steps=n, curvature=2.0),
            "dectoone": lambda: SC.step_decelerating_to_one(num_steps=n, curvature=3.0)}[kind]()


def make(c, dst, alt=False, zeros=False):
    rng = np.random.default_rng(zlib.crc32(repr((sorted(c.items()), alt)).encode()))
    R = lambda lo, hi: float(np.round(lo + (hi - lo) * rng.random(), int(rng.integers(1, 12))))
    kw = dict(dst_path=dst, max_iters=int(rng.integers(2, 4)), record_times=int(rng.integers(1, 4)))
    S = {"p": (1, 3, c["p"]), "vol_frac": (.8, .4, c["vol_frac"]), "beta": (.5, 6, c["beta"]),
         "filter_radius": (1.4, .9, c["radius"]), "move_limit": (.3, .1, c["move"]),
         "neumann_scale": (1, 1, c["scale"]), "percentile": (70, 90, c["pct"]), "eta": (.3, .6, c["eta"])}
    for k, (a, b, kind) in S.items():
        if kind == "default":
            continue
        if k == "eta" and kind == "float":
            kw[k] = R(.2, .7)
            continue
        kw[k] = schedule(kind, k, R(a, a * 1.1), R(b, b * 1.1) if b != 1 else 1.0, int(rng.integers(2, 5)))
    if c["num"] != "default":
        kw.update(E_min_coeff=R(1e-4, 1e-2) + 1e-5, rho_min=R(.01, .1) + 1e-3, rho_max=1.0 - R(0, .1), beta_eta=R(.3, .6),
                  tol_rho_change=R(.01, .3), tol_kkt_residual=1e-3 / 3)
    if c["flags"] != "default":
        b = [bool(x) for x in rng.integers(0, 2, 5)]
        kw.update(export_img=b[0] and c["flags"] == "img", design_dirichlet=b[1], sensitivity_filter=b[2],
                  check_convergence=b[3], export_img_opaque=b[4])
    if c["solver"] != "default":
        kw["solver_option"] = c["solver"]
    if c["petsc"] == "dict":
        kw["petsc_options"] = {"ksp_type": "gmres", "pc_factor_mat_solver_type": "mumps"}
    elif c["petsc"] == "object":
        kw["petsc_options"] = type(CLS["oc"]().petsc_options)(ksp_type="minres", pc_type="ilu", options_prefix="q_", use_set_from_options=False)
    kw["interpolation"], kw["filter_type"] = c["interp"], c["filter"]
    if c["own"] != "default":
        kw.update(lambda_lower=-R(.1, 9) if c["cls"] == "logmoc" else R(1e-9, 1e-6) + 1e-10, lambda_upper=R(10, 1e5))
        for f in dataclasses.fields(CLS[c["cls"]]):     # the numeric settings of the class itself
            if f.name not in kw and f.name not in ("restart_from", "max_iters", "record_times"):
                d = f.default
                if isinstance(d, bool):
                    if f.name not in ("restart", "scaling"):
                        kw[f.name] = bool(rng.integers(2))
                elif isinstance(d, float):
                    kw[f.name] = d * (1 - R(0, .2))
        if c["cls"] == "logmoc":
            kw["dual_update"] = str(rng.choice(["ema", "augmented"]))
    if zeros:      # settings nobody runs with, but which have to survive all the same
        for k in sorted(kw):
            v = kw[k]
            if type(v) is float and rng.random() < .3:
                kw[k] = float(rng.choice([0.0, 1.0, 1e-12, 123456789.125]))
            elif type(v) is int and rng.random() < .3:
                kw[k] = int(rng.choice([0, 1, 10**9]))
            elif isinstance(v, SC) and rng.random() < .3:
                kw[k] = dataclasses.replace(v, target_value=0.0)
    return CLS[c["cls"]](**kw)


def problem():
    m = skfem.MeshHex.init_tensor(np.arange(4.), np.arange(3.), np.arange(2.))
    b = skfem.Basis(m, skfem.ElementVector(skfem.ElementHex1()), intorder=2)
    return quiet(LinearElasticity.from_facets, b, m.facets_satisfying(lambda x: x[0] == 0), "all",
                 m.facets_satisfying(lambda x: x[0] == 3)[:1], "u^3", -1.0, np.arange(m.nelements), 1.0, .3)


def digest(name, cfg):
    """what a run with these settings leaves behind"""
    with contextlib.redirect_stdout(io.StringIO()):
        o = quiet(OPT[name], cfg, problem())
        quiet(o.parameterize)
        np.random.seed(7)       # the multigrid set-up draws random vectors
        quiet(o.optimize)
    h = hashlib.sha1()
    for fn in sorted(glob.glob(f"{cfg.dst_path}/data/*.npz")):
        h.update(os.path.basename(fn).encode())
        with np.load(fn, allow_pickle=True) as z:
            for k in sorted(z.files):
                h.update(k.encode())
                h.update(repr(z[k].tolist()).encode())
    return h.hexdigest()[:16]


def run(a):
    s = a
    c = {x["k"]: x["v"] for x in s["c"]}
    if s["ops"] == ["cli"]:
        return run_cli(c)
    tr = {"scn": c, "ops": s["ops"], "ev": []}
    ev = tr["ev"]
    root = tempfile.mkdtemp()
    at = "new"
    old = np.seterr(all="ignore")
    try:
        for d in ("d1", "d2", "r"):
            os.makedirs(f"{root}/{d}")
        z = not any(op.startswith("run") for op in s["ops"])
        cfg = {"a": make(c, f"{root}/r", zeros=z), "b": make(c, f"{root}/r", alt=True, zeros=z)}
        wrote = {}
        for i, op in enumerate(s["ops"]):
            at = f"{i}:{op}"
            w, *arg = op.split("_")
            x = cfg[arg[0]] if arg and arg[0] in cfg else None
            before = flat(x) if x is not None else []
            if w == "export":
                quiet(x.export, f"{root}/{arg[1]}")
                wrote[arg[1]] = (type(x).__name__, x, flat(x))
                ev.append({"op": "export", "dir": arg[1], "fields": flat(x), "before": before})
            elif w == "legacy":
                for fn in glob.glob(f"{root}/{arg[0]}/*.json"):
                    with open(fn) as fh:
                        d = json.load(fh)
                    d["record_timing"] = True
                    with open(fn, "w") as fh:
                        json.dump(d, fh)
                ev.append({"op": "legacy", "dir": arg[0]})
            elif w == "import":
                e = {"op": "import", "dir": arg[1], "ok": True, "fields": [], "cls": "", "wascls": "", "equal": True}
                try:
                    y = quiet(type(x).import_from, f"{root}/{arg[1]}")
                    e.update(fields=flat(y), cls=type(y).__name__, wascls=type(x).__name__)
                    if arg[1] in wrote and flat(wrote[arg[1]][1]) == wrote[arg[1]][2]:   # object unchanged since
                        e["equal"] = bool(y == wrote[arg[1]][1])
                    cfg[arg[0]] = y
                except Exception as ex:
                    e.update(ok=False, fields=[{"k": "error", "v": repr(ex)[:200]}])
                ev.append(e)
            elif w == "change":
                x.vol_frac = SC.constant(name="vol_frac", target_value=.375)
                x.record_times = 7
                x.beta = dataclasses.replace(x.beta, name="renamed")
                ev.append({"op": "new"})
            elif w == "run":
                for d in ("data", "mesh_rho"):
                    shutil.rmtree(f"{root}/r/{d}", ignore_errors=True)
                named = lambda q: [f for f in q if not f["k"].endswith(".name")]
                g = digest(c["cls"], x)
                wrote["r"] = (type(x).__name__, x, before)
                ev.append({"op": "run", "dir": "r", "fields": before, "settings": named(before), "digest": g})
            else:
                raise vlib.MachineryError(op)
    except vlib.MachineryError:
        raise
    except Exception as ex:
        d = vlib.exc_event(ex)
        ev.append({"op": "raised", "at": at, "what": f"{d['cls']}: {d['msg']} {d['where']}"})
    finally:
        np.seterr(**old)
        shutil.rmtree(root, ignore_errors=True)
    return tr


# ------------------------------------------------------------------ command line
SHORT = dict(x.split("=") for x in (
    "interpolation=I max_iters=NI filter_type=FT filter_radius_init=FRI filter_radius=FR "
    "filter_radius_step=FRS move_limit_init=MLI move_limit=ML move_limit_step=MLR record_times=RT "
    "dst_path=DP vol_frac_init=VI vol_frac=V vol_frac_step=VFT p_init=PI p=P p_step=PRT beta_init=BI "
    "beta=B beta_curvature=BC beta_step=BR percentile_init=PTI percentile_step=PTR percentile=PT "
    "rho_min=RhM E_min_coeff=EM eta=ET beta_eta=BE lambda_upper=BSH restart=RS restart_from=RF "
    "task_name=T mesh_path=MP export_img=EI design_dirichlet=DD sensitivity_filter=SF "
    "solver_option=SO ").split())


def parse(words, cls):
    p = misc.add_common_arguments(argparse.ArgumentParser(exit_on_error=False))
    with contextlib.redirect_stderr(io.StringIO()):
        ns = vars(p.parse_args(words))
    return CLS[cls].from_defaults(**misc.args2OC_Config_dict(ns))


def run_cli(c):
    cls = c["cls"]
    tr = {"scn": c, "ops": ["cli"], "ev": []}

    def attempt(words):
        try:
            return True, flat_plain(parse(words, cls))
        except (Exception, SystemExit) as ex:
            return False, [{"k": "error", "v": repr(ex)[:200]}]
    ok, f = attempt([])
    tr["ev"].append({"op": "base", "ok": ok, "fields": f})
    opts = [{"k": k, "v": v} for k, v in c.items() if k not in ("cls", "form") and v != "-"]
    words = []
    for o in opts:
        words += [f"--{o['k']}={o['v']}"] if c["form"] == "eq" else [f"--{o['k']}", o["v"]]
    if c["form"] == "short":
        words = [w for o in opts for w in (f"-{SHORT[o['k']]}" if o["k"] in SHORT else f"--{o['k']}", o["v"])]
    if c["form"] == "rev":
        words = [w for o in opts[::-1] for w in (f"--{o['k']}", o["v"])]
    ok, f = attempt(words)
    tr["ev"].append({"op": "cli", "opts": opts, "ok": ok, "fields": f})
    return tr


def c19(c):
    S = lambda *x: "{" + ", ".join(f'"{v}"' for v in x) + "}"
    t = c.thorough
    c.model("Config", "CONSTANTS Ids = {1, 2}\nDirs = {\"x\", \"y\"}\nVals = {\"0\", \"1\"}\n"
            f"MaxLen = {7 if t else 5}\nSPECIFICATION Spec\nPROPERTIES FileStable ImportedWhatIsThere\n"
            "CHECK_DEADLOCK FALSE\n", timeout=800)
    full = ("default", "const", "step", "acc", "dec", "saw")
    D = [("cls", S("oc", "logmoc")), ("p", S(*full)), ("vol_frac", S(*full)), ("beta", S(*full)),
         ("radius", S("default", "const", "step", "acc", "dec")), ("move", S(*full)),
         ("scale", S("default", "one", "toone", "acctoone", "dectoone")), ("pct", S("default", "none", "const", "step")),
         ("eta", S("default", "float", "const", "step")), ("num", S("default", "set", "set ")),
         ("flags", S("default", "set", "set ", "img")), ("solver", S("default", "spsolve", "cg_pyamg", "auto", "cg_jacobi")),
         ("petsc", S("default", "dict", "object")), ("interp", S("SIMP", "RAMP")), ("filter", S("spacial", "helmholtz")),
         ("own", S("default", "set", "set "))]
    ops = S("export_a_d1", "export_b_d1", "export_a_d2", "export_b_d2", "import_a_d1", "import_b_d1", "import_a_d2",
            "import_b_d2", "import_a_d1 ", "import_b_d2 ", "legacy_d1", "legacy_d2", "change_a", "run_a", "run_b",
            "import_b_r", "import_a_r")
    N = "-"
    num = lambda *v: S(N, N + " ", N + "  ", *v)
    C = [("cls", S("oc", "logmoc")), ("form", S("eq", "words", "rev", "short")),
         ("interpolation", num("RAMP")), ("max_iters", num("17", "1")), ("filter_type", num("spacial")),
         ("filter_radius_init", num("0.7", "0")), ("filter_radius", num("0.35", "2")), ("filter_radius_step", num("4", "1")),
         ("move_limit_init", num("0.55", "0")), ("move_limit", num("0.15", "1")), ("move_limit_step", num("2", "1")),
         ("record_times", num("3", "1")), ("dst_path", num("some/where")), ("vol_frac_init", num("0.65", "0")),
         ("vol_frac", num("0.45", "1")), ("vol_frac_step", num("3", "1", "none", "NaN")), ("p_init", num("1.5", "0")), ("p", num("4.25", "1")),
         ("p_step", num("6", "1", "null")), ("beta_init", num("0.25", "0")), ("beta", num("7.5", "0")),
         ("beta_curvature", num("2.5", "abc")), ("beta_step", num("5", "1", "None")), ("percentile_init", num("60", "0", "none")),
         ("percentile_step", num("2", "1", "nan")), ("percentile", num("90", "0", "100", "none")), ("rho_min", num("0.025", "0")),
         ("E_min_coeff", num("0.0005", "0")), ("eta", num("0.6", "0", "1")), ("beta_eta", num("0.4", "0")), ("lambda_lower", num("1e-06", "0", "-5")),
         ("lambda_upper", num("5000", "0")), ("restart", num("t", "False")), ("restart_from", num("12", "0", "1", "-1")),
         ("export_img", num("f", "TRUE", "yes")), ("design_dirichlet", num("F", "true")),
         ("sensitivity_filter", num("False", "T")), ("solver_option", num("cg_pyamg")), ("task_name", num("toy2")),
         ("mesh_path", num("x.msh"))]
    n = 2500 if t else 160

    def scenarios(dims, ops, k, n, seed):
        scns = c.generate("PickGen", "CONSTANTS Dims = << " + ", ".join(f'<<"{a}", {v}>>' for a, v in dims) +
                          f" >>\nOps = {ops}\nMaxOps = {k}\nINIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n",
                          limit=n, extra=("-simulate", f"num={n}", "-depth", "70", "-seed", str(seed)))
        for s in scns:
            s["ops"] = [o.strip() for o in s["ops"]]
            for x in s["c"]:
                if isinstance(x["v"], str):
                    x["v"] = x["v"].strip()
        return scns
    scns = scenarios(D, ops, 8, n, c.seed) + scenarios(C, S("cli"), 1, 2 * n, c.seed + 1)
    # one option at a time, every value
    for k, v in C[2:]:
        for val in sorted(set(json.loads("[" + v[1:-1] + "]"))):
            if val.strip() != N:
                for cls in CLS:
                    scns.append({"c": [{"k": "cls", "v": cls}, {"k": "form", "v": "eq"}, {"k": k, "v": val}], "ops": ["cli"]})
    traces = c.replay(run, scns, timeout=120)
    for i in range(0, len(traces), 400):
        c.validate("ConfigTrace", traces[i:i + 400])
    c.assumptions += ["PETSc solvers cannot be configured here (not installed)",
                      "command line: the options common to both optimizers (misc.add_common_arguments)"]
    c.finish(rule="random walk over configuration classes, schedules, settings and sequences of export / import / "
                  "change / run on two objects and three folders; command lines over subsets of all options, and "
                  "every option alone")
