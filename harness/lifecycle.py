"""C01-C05: run requests, checkpoints, histories, restarts, crashes against LifeCore/Lifecycle."""
import glob
import inspect
import json
import os
import re
import shutil
import sys
import tempfile
import zipfile

import vlib
import problems as pb
import numpy as np
import sktopt
from sktopt.core.optimizers import common_density
from sktopt.core.optimizers import OC_Config, LogMOC_Config
from sktopt.tools import SchedulerConfig as SC

FULL = 9999
SIG = inspect.signature(sktopt.core.OC_Optimizer.rho_update)
UNIT = 1024


def bind(a, k):
    """Arguments of rho_update by name."""
    return SIG.bind(None, *a, **k).arguments


def units(a, scale):
    return [vlib.sc(x, scale) for x in np.asarray(a, dtype=float).ravel()]


# ------------------------------------------------------------ scripted update rule
class Scripted(common_density.DensityMethod):
    """A user-defined update rule, the documented extension point of DensityMethod."""

    def __init__(self, cfg, tsk, mode, salt, script=None, hook=None):
        super().__init__(cfg, tsk)
        self.recorder = self.add_recorder(tsk)
        self.recorder.add("ident")
        self.recorder.add("pattern", plot_type="min-max-mean-std")
        self.mode, self.salt, self.script = mode, salt, script or {}
        self.hook = hook

    def rho_update(self, *a, **k):
        v = bind(a, k)
        it, rho = v["iter_num"], v["rho_design_eles"]
        q = units(rho, UNIT)
        rec = {"it": int(it), "before": q, "after": [], "d": 0, "k": "above"}
        if self.mode == "hash":
            new = [((5 * x + 11 * it + 17 * (e + 1) + self.salt) % 800) + 100
                   for e, x in enumerate(q)]
            kkt = 1.0
        else:
            d, kl = self.script[it]
            rec["d"], rec["k"] = d, kl
            new = [x - (d if e == 0 else d // 2) if x >= 512 else x + (d if e == 0 else d // 2)
                   for e, x in enumerate(q)]
            kkt = {"below": 0.0099, "negbelow": -0.0099, "zero": 0.0, "at": 0.015625,
                   "negat": -0.015625, "above": 0.02, "negabove": -5.0, "nan": float("nan"),
                   "inf": float("inf"), "neginf": float("-inf")}[kl]
        if self.hook:
            self.hook(rec, v)
        rho[:] = np.array(new, dtype=float) / UNIT
        v["scaling_rate"][:] = 1.0
        self.kkt_residual = kkt
        self.recorder.feed_data("vol_error", 0.001 * it)
        self.recorder.feed_data("kkt_residual", kkt)
        self.recorder.feed_data("ident", float(it))
        self.recorder.feed_data("pattern", np.array([0.0, float(it)]))


def base_cfg(cls, dst, M, R, **kw):
    d = dict(dst_path=dst, max_iters=M, record_times=R, filter_type="spacial",
             vol_frac=SC.constant(target_value=0.5), filter_radius=SC.constant(target_value=1.2),
             beta=SC.constant(target_value=1.0), p=SC.constant(target_value=3.0))
    d.update(kw)
    return cls(**d)


# ------------------------------------------------------------ observation of the directory
def observe_ck(dst, scale):
    out = []
    for f in sorted(glob.glob(f"{dst}/data/*")):
        m = re.fullmatch(r"(\d{6,})-rho\.npz", os.path.basename(f))
        if not m:
            continue
        try:
            with np.load(f) as z:
                q, ok = units(z["rho_design_elements"], scale), True
        except Exception:
            q, ok = [], False
        out.append({"it": int(m.group(1)), "q": q, "ok": ok})
    return out


def observe_vtu(dst):
    r = []
    for f in glob.glob(f"{dst}/mesh_rho/*.vtu"):
        m = re.search(r"-(\d+)\.vtu$", f)
        if m:
            r.append(int(m.group(1)))
    return sorted(r)


def series_view(data_by_name, scripted):
    """ids: iteration identity of the entries; chg: recorded density changes; lens of all series"""
    ids = [vlib.sc(x, 1) for x in data_by_name.get("ident", [])] if scripted else None
    return ids


def hist_rec(get, scale, scripted):
    """get: dict name -> list of entries (scalars or lists)"""
    lens = [len(v) for v in get.values()]
    chg = [vlib.sc(x, scale) for x in get.get("rho_change_max", [])]
    if scripted:
        ids = [vlib.sc(x, 1) for x in get.get("ident", [])]
        pat = [[vlib.sc(y, 2) for y in x] for x in get.get("pattern", [])]
        ok = all(p == [0, i, 2 * i, i] for p, i in zip(pat, ids)) and len(pat) == len(ids)
        ve = [vlib.sc(x, 1000) for x in get.get("vol_error", [])]
        ok = ok and ve == ids
    else:
        ids, ok = list(range(1, len(chg) + 1)), True
    return {"ok": ok, "present": True, "ids": ids, "chg": chg, "lens": lens}


NOHIST = {"ok": True, "present": False, "ids": [], "chg": [], "lens": []}


def mem_hist(opt, scale, scripted):
    return hist_rec({n: list(h.data) for n, h in opt.recorder.histories.items()}, scale, scripted)


def disk_hist(dst, scale, scripted):
    fn = f"{dst}/histories.npz"
    if not os.path.exists(fn):
        return dict(NOHIST)
    try:
        d = {}
        with np.load(fn, allow_pickle=True) as z:
            for key in z.files:
                if key.endswith("_header"):
                    continue
                a = z[key]
                d[key] = a.T.tolist() if a.ndim == 2 else a.tolist()
        return hist_rec(d, scale, scripted)
    except Exception:
        return {"ok": False, "present": True, "ids": [], "chg": [], "lens": []}


def full_hist(opt):
    out = []
    for n, h in sorted(opt.recorder.histories.items()):
        a = np.array([np.ravel(x) for x in h.data], dtype=float)
        w = a.shape[1] if a.ndim == 2 else 1
        m = np.max(np.abs(a)) if a.size and np.all(np.isfinite(a)) else 1.0
        out.append({"name": n, "w": int(w), "raw": a})
    return out


def scale_hist(h, ref):
    """Scaled by a magnitude taken from the reference run, so that runs are comparable."""
    out = []
    for x in h:
        a = x["raw"]
        r = ref.get(x["name"])
        m = 1.0
        if r is not None and r.size:
            fin = r[np.isfinite(r)]
            m = float(np.max(np.abs(fin))) if fin.size and np.max(np.abs(fin)) > 0 else 1.0
        out.append({"name": x["name"], "w": x["w"], "data": [vlib.sc(v / m, 10**8) for v in a.ravel()]})
    return out


# ------------------------------------------------------------ the replay machine
class Machine:
    def __init__(self, scn, mode="hash", make=None, scale=UNIT, conv=False, ref=None, refh=None):
        self.scn, self.mode, self.scale, self.conv = scn, mode, scale, conv
        self.make = make or self.make_scripted
        self.dst = tempfile.mkdtemp(prefix="run_")
        self.ev, self.opt, self.iters, self.salt = [], None, [], 0
        self.pipe = None
        self.ref, self.refh = ref, refh or {}
        self.proj = {}
        self.since_fresh = False
        self.scripted = mode != "real"
        self.q0 = [] if mode == "real" else [512] * 4

    def make_scripted(self, restart, frm, M, R):
        extra = {}
        if self.conv:
            extra = dict(check_convergence=True, tol_rho_change=0.125, tol_kkt_residual=0.015625)
        cfg = base_cfg(common_density.DensityMethod_OC_Config, self.dst, M, R,
                       restart=restart, restart_from=frm, **extra)
        script = None
        if self.mode == "step":
            script = {i + 1: tuple(x) for i, x in enumerate(self.scn["script"])}
        o = Scripted(cfg, pb.elastic(), self.mode, self.salt, script, self.on_iter)
        o.parameterize()
        return o

    def on_iter(self, rec, v):
        self.iters.append(rec)
        if "rho_projected" in v:
            self.proj[rec["it"]] = np.array(v["rho_projected"], dtype=float)
        if self.pipe is not None:
            os.write(self.pipe, (json.dumps(rec) + "\n").encode())

    def wrap_real(self, opt):
        orig = opt.rho_update

        def upd(*a, **k):
            v = bind(a, k)
            rec = {"it": int(v["iter_num"]), "before": units(v["rho_design_eles"], self.scale),
                   "after": [], "d": 0, "k": "above"}
            self.on_iter(rec, v) if self.pipe is None else None
            orig(*a, **k)
            rec["after"] = units(v["rho_design_eles"], self.scale)
            if self.pipe is not None:
                self.on_iter(rec, v)
        opt.rho_update = upd
        return opt

    def observe(self):
        return {"ck": observe_ck(self.dst, self.scale), "vtu": observe_vtu(self.dst),
                "disk": disk_hist(self.dst, self.scale, self.scripted)}

    def vtu_bad(self):
        import meshio
        bad = []
        saved = {c["it"] for c in observe_ck(self.dst, self.scale)}
        for it in observe_vtu(self.dst):
            if it in saved and it in self.proj and any(x["it"] == it for x in self.iters):
                try:
                    m = meshio.read(f"{self.dst}/mesh_rho/info_mesh-{it:08d}.vtu")
                    a = np.ravel(m.cell_data["rho_projected"][0])
                    if a.shape != self.proj[it].shape or np.max(np.abs(a - self.proj[it])) > 1e-9:
                        bad.append(it)
                except (Exception, SystemExit):
                    bad.append(it)
        return bad

    def new(self, op):
        self.iters, err = [], ""
        try:
            if op["op"] == "fresh":
                self.salt += 1
                self.since_fresh = True
                self.opt = self.make(False, -1, op["M"], op["R"])
            else:
                self.since_fresh = False
                self.opt = self.make(True, op["from"], op["M"], op["R"])
        except Exception as ex:
            err = vlib.exc_event(ex)["cls"] + ": " + str(ex)[:200]
            self.opt = None
        self.ev.append({"op": op["op"], "M": op["M"], "R": op["R"], "from": op["from"],
                        "salt": self.salt, "error": err, **self.observe()})

    def request(self, op):
        self.iters, err, tb = [], "", ""
        n = op["n"]
        try:
            if n == FULL:
                self.opt.optimize()
            else:
                self.opt.optimize_steps(n)
        except Exception as ex:
            e = vlib.exc_event(ex)
            err, tb = e["cls"] + ": " + e["msg"], e["tb"]
        e = {"op": "request", "n": n, "error": err, "tb": tb[-600:], "iters": self.iters,
             "fresh": self.since_fresh,
             "mem": mem_hist(self.opt, self.scale, self.scripted) if self.opt else dict(NOHIST),
             "vtubad": self.vtu_bad() if not err else [], **self.observe(), "hist": []}
        if self.refh and self.opt:
            e["hist"] = scale_hist(full_hist(self.opt), self.refh)
        self.ev.append(e)
        if err:
            self.opt = None

    # --- a segment (new + requests) in its own process, killed at fs event j
    def kill_segment(self, ops, kill, j, torn):
        """ops: constructor op and plain requests, then the killed request. Returns number of
        file system events seen when j is None."""
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd)
                self.ev = []
                for o in ops:
                    self.new(o) if o["op"] in ("fresh", "restart") else self.request(o)
                os.write(wr, (json.dumps({"EV": self.ev}) + "\n").encode())
                self.pipe = wr
                st = {"n": 0, "busy": False}
                dst = os.path.realpath(self.dst)

                def hook(name, args):
                    if st["busy"]:
                        return
                    if name == "open":
                        p, mode, flags = args
                        w = (isinstance(mode, str) and any(c in mode for c in "wax+")) or \
                            (mode is None and isinstance(flags, int)
                             and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
                        if not w or not isinstance(p, (str, bytes, os.PathLike)):
                            return
                        paths, kind = [p], "open"
                    elif name in ("os.rename", "os.remove", "os.rmdir", "os.mkdir", "os.link",
                                  "os.truncate", "shutil.move", "shutil.copyfile"):
                        paths = [a for a in args[:2] if isinstance(a, (str, bytes, os.PathLike))]
                        kind = "other"
                    else:
                        return
                    st["busy"] = True
                    try:
                        ps = [os.path.realpath(os.fsdecode(p)) for p in paths]
                        if not any(p.startswith(dst + os.sep) for p in ps):
                            return
                        st["n"] += 1
                        os.write(wr, (json.dumps({"FS": st["n"], "kind": kind, "path": ps[-1]})
                                      + "\n").encode())
                        if j is not None and st["n"] == j:
                            os._exit(9)
                    finally:
                        st["busy"] = False
                sys.addaudithook(hook)
                if kill["n"] == FULL:
                    self.opt.optimize()
                else:
                    self.opt.optimize_steps(kill["n"])
                os.write(wr, b'{"DONE": 1}\n')
            except BaseException as ex:  # noqa
                try:
                    os.write(wr, (json.dumps({"EXC": repr(ex)}) + "\n").encode())
                except BaseException:
                    pass
            finally:
                os._exit(0)
        os.close(wr)
        buf = b""
        while True:
            b = os.read(rd, 65536)
            if not b:
                break
            buf += b
        os.close(rd)
        os.waitpid(pid, 0)
        iters, fs, evs, exc, done = [], [], [], None, False
        for ln in buf.decode().splitlines():
            d = json.loads(ln)
            if "EV" in d:
                evs = d["EV"]
            elif "FS" in d:
                fs.append(d)
            elif "EXC" in d:
                exc = d["EXC"]
            elif "DONE" in d:
                done = True
            else:
                iters.append(d)
        return {"iters": iters, "fs": fs, "ev": evs, "exc": exc, "done": done}

    def run(self):
        """Execute the scenario; kill operations carry j and torn."""
        ops = self.scn["ops"]
        try:
            i = 0
            while i < len(ops):
                seg = [ops[i]]
                k = i + 1
                while k < len(ops) and ops[k]["op"] in ("request",):
                    seg.append(ops[k])
                    k += 1
                if k < len(ops) and ops[k]["op"] == "kill" and ops[i]["op"] in ("fresh", "restart"):
                    if ops[i]["op"] == "fresh":
                        pass
                    r = self.kill_segment(seg, ops[k], ops[k]["j"], ops[k]["torn"])
                    if ops[i]["op"] == "fresh":
                        self.salt += 1
                    self.opt = None
                    self.ev += r["ev"]
                    if r["exc"]:
                        self.ev.append({"op": "request", "n": ops[k]["n"], "error": r["exc"],
                                        "tb": "", "iters": r["iters"], "fresh": False,
                                        "mem": dict(NOHIST), "vtubad": [], **self.observe(),
                                        "hist": []})
                        break
                    if ops[k]["torn"] and len(r["fs"]) >= 2 and r["fs"][-2]["kind"] == "open" \
                            and not r["done"]:
                        p = r["fs"][-2]["path"]
                        if os.path.isfile(p):
                            os.truncate(p, os.path.getsize(p) // 2)
                    self.ev.append({"op": "killed", "n": ops[k]["n"], "error": "",
                                    "iters": r["iters"], **self.observe()})
                    i = k + 1
                    continue
                o = ops[i]
                if o["op"] in ("fresh", "restart"):
                    self.new(o)
                    if self.opt is None:
                        break
                elif o["op"] == "request":
                    if self.opt is None:
                        break
                    self.request(o)
                elif o["op"] == "foreign":
                    self.foreign()
                    self.ev.append({"op": "foreign", "error": ""})
                i += 1
            if self.mode == "real":
                self.q0 = [vlib.sc(self.init, self.scale)] * self.ne()
            t = {"q0": self.q0, "mode": self.mode, "conv": self.conv, "tol": 128, "ne": self.ne(),
                 "ref": self.ref or [], "refh": [{"name": n, "w": int(a.shape[1]) if a.ndim == 2 else 1,
                                                  "data": x["data"]}
                                                 for (n, a), x in zip(
                                                     sorted(self.refh.items()),
                                                     scale_hist([{"name": n, "w": 1, "raw": a}
                                                                 for n, a in sorted(self.refh.items())],
                                                                self.refh))],
                 "scn": self.scn, "ev": self.ev}
            return t
        finally:
            shutil.rmtree(self.dst, ignore_errors=True)

    def ne(self):
        for e in self.ev:
            for x in e.get("iters", []):
                return len(x["before"])
        return 4

    def foreign(self):
        """Files that are not checkpoints of this run, or are truncated."""
        d = f"{self.dst}/data"
        good = sorted(glob.glob(f"{d}/*-rho.npz"))
        src = good[-1] if good else None
        if src is None:
            return
        raw = open(src, "rb").read()
        kind = self.scn.get("foreign", 0)
        variants = [
            ("000097-rho.npz", raw[:len(raw) // 2]),
            ("000098-rho.npz", b""),
            ("000099-rho.npz.bak", raw),
            ("x000096-rho.npz", raw),
            ("000095-rho.npz.tmp", raw[:-7]),
            ("0000a9-rho.npz", raw),
            ("000094-rho.npz", b"not a checkpoint"),
            ("notes.txt", b"hello"),
            ("999999-rho.txt", raw),
        ]
        for n, (name, data) in enumerate(variants):
            if kind == 0 or kind == n:
                with open(f"{d}/{name}", "wb") as fh:
                    fh.write(data)


# ------------------------------------------------------------ clause ownership
CL = {
    "C01": ["order", "before", "executed", "reference", "reference_history", "noop_iterates",
            "noop_checkpoints", "noop_history", "noop_disk_history", "request_raised",
            "constructor_raised", "history"],
    "C02": ["order", "executed", "noop_iterates", "noop_checkpoints", "checkpoint_set",
            "checkpoint_content", "request_raised", "constructor_raised", "noop_history"],
    "C03": ["checkpoint_set", "checkpoint_content", "meshes", "mesh_content",
            "no_partial_checkpoint", "request_raised", "constructor_raised", "fresh_directory"],
    "C04": ["order", "before", "executed", "restart_must_fail", "no_iterations_on_failure",
            "checkpoint_lost", "checkpoint_content", "request_raised", "constructor_raised",
            "fresh_directory", "checkpoint_set", "no_partial_checkpoint"],
    "C05": ["history", "disk_history", "disk_history_lost", "noop_history", "noop_disk_history",
            "request_raised", "constructor_raised", "order", "executed"],
}


def drive(scn):
    return Machine(scn).run()


def drive_step(scn):
    return Machine(scn, mode="step", conv=scn["conv"]).run()


def tag(traces, pid):
    for t in traces:
        t["clauses"] = CL[pid]
    return traces


def gcfg(Ms, Rs, steps, depth, restarts="{}", rms="{}", runs=1, kills="FALSE", foreign="FALSE"):
    return (f"INIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS Ms = {Ms}\n"
            f" Rs = {Rs}\n Steps = {steps}\n Depth = {depth}\n Restarts = {restarts}\n"
            f" RestartMs = {rms}\n MaxRuns = {runs}\n Kills = {kills}\n Foreign = {foreign}\n")


def design(c):
    M, ops = (4, 9) if c.thorough else (3, 7)
    c.model("Lifecycle", "SPECIFICATION Spec\nCONSTANTS MaxM = %d\n Rs = {1, 2, 4}\n MaxRuns = 2\n"
            " MaxOps = %d\n Steps = {0, 1, 2, 9999}\n HistFirst = TRUE\n Forget = TRUE\n"
            " CleanFresh = TRUE\nCHECK_DEADLOCK FALSE\nINVARIANTS EachIterationOnce RightDensities "
            "CheckpointsFaithful HistoryCoversCheckpoints Refines\n" % (M, ops))


# ------------------------------------------------------------ real optimizers
def real_maker(machine, kind):
    def make(restart, frm, M, R):
        opt_cls, cfg_cls, kw, tsk = REAL[kind]()
        machine.init = kw["vol_frac"].init_value if "vol_frac" in kw else 0.5
        cfg = base_cfg(cfg_cls, machine.dst, M, R, restart=restart, restart_from=frm, **kw)
        o = opt_cls(cfg, tsk)
        o.parameterize()
        return machine.wrap_real(o)
    return make


def _oc_spacial():
    return (sktopt.core.OC_Optimizer, OC_Config,
            dict(vol_frac=SC.step(init_value=0.8, target_value=0.5, num_steps=3),
                 beta=SC.step_accelerating(init_value=1.0, target_value=4.0, num_steps=3,
                                           curvature=2.0),
                 p=SC.step(init_value=1.0, target_value=3.0, num_steps=2),
                 filter_radius=SC.step(init_value=1.6, target_value=1.1, num_steps=2)),
            pb.elastic(5, 2, 1))


def _oc_helm():
    return (sktopt.core.OC_Optimizer, OC_Config,
            dict(filter_type="helmholtz", sensitivity_filter=True,
                 filter_radius=SC.constant(target_value=0.8)),
            pb.elastic(4, 2, 1, forces=((2, -1.0), (1, 2.0))))


def _moc():
    return (sktopt.core.LogMOC_Optimizer, LogMOC_Config,
            dict(eta=0.6, mu_p=3.0, neumann_scale=SC.step_to_one(num_steps=2)), pb.elastic(5, 2, 1))


def _moc_aug():
    return (sktopt.core.LogMOC_Optimizer, LogMOC_Config,
            dict(eta=0.4, dual_update="augmented", augmented_lagrangian_mu=1.0,
                 normalize_volume_chain=True, filter_type="helmholtz"), pb.elastic(4, 2, 1))


REAL = {"oc_spacial": _oc_spacial, "oc_helm": _oc_helm, "moc": _moc, "moc_aug": _moc_aug}


def drive_real(scn):
    """Reference run without interruption, then the scenario."""
    ref, refh = None, None
    if scn.get("reference", True):
        r = Machine({"ops": []}, mode="real", scale=10**9)
        try:
            o = real_maker(r, scn["kind"])(False, -1, scn["ops"][0]["M"], scn["ops"][0]["R"])
            o.optimize()
            ref = [x["after"] for x in r.iters]
            refh = {x["name"]: x["raw"] for x in full_hist(o)}
        finally:
            shutil.rmtree(r.dst, ignore_errors=True)
    m = Machine(scn, mode="real", scale=10**9, ref=ref, refh=refh)
    m.make = real_maker(m, scn["kind"])
    return m.run()


def real_scns(c, scns, kinds, limit):
    import random
    rnd = random.Random(c.seed)
    out = []
    for k in sorted(kinds):
        s = list(scns)
        rnd.shuffle(s)
        for x in s[:limit]:
            out.append({**x, "kind": k})
    return out


# ------------------------------------------------------------ checks
def c01(c):
    design(c)
    big = c.thorough
    scns = c.generate("LifeGen", gcfg("{1, 2, 3}", "{1}", "{-1, 0, 1, 2, 9999}", 4))
    scns += c.generate("LifeGen", gcfg("{4, 5}", "{3}", "{1, 2, 3, 4, 9999}", 4),
                       limit=None if big else 60)
    scns += c.generate("LifeGen", gcfg("{6, 7, 9}", "{2, 4}", "{0, 1, 2, 3, 5, 9999}", 7),
                       extra=["-simulate", f"num={300 if big else 30}", "-depth", "9",
                              "-seed", str(c.seed)], workers=1, limit=300 if big else 30)
    if not big:
        pass
    traces = c.replay(drive, scns)
    c.validate("LifeTrace", tag(traces, "C01"))
    traces = c.replay(drive_step, conv_scns(c, 600 if c.thorough else 60, restarts=True))
    c.validate("LifeTrace", tag(traces, "C01"))
    rs = c.generate("LifeGen", gcfg("{5}", "{2}", "{0, 1, 2, 3, 9999}", 4))
    rs = [x for x in rs if sum(min(o["n"], 5) for o in x["ops"]) >= 5 and x["ops"][1]["n"] != FULL]
    traces = c.replay(drive_real, real_scns(c, rs, REAL, 30 if big else 6))
    c.validate("LifeTrace", tag(traces, "C01"))
    c.assumptions += ["plots are replaced by inert stand-ins during replay"]
    c.finish(rule="every request sequence (length 3) over run requests -1,0,1,2,full for up to 3 "
                  "iterations, seeded longer ones, scripted integer update rule; sampled splits of "
                  "real OC and LogMOC runs against the uninterrupted run")


def conv_scns(c, n, restarts=False):
    """scripted density changes and residuals around the tolerances; n: how many (None: all)"""
    scns = c.generate("ConvGen", "INIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
                      "CONSTANTS M = 3\n Ds = {127, 128, 129}\n")
    ks = ["below", "negbelow", "zero", "at", "negat", "above", "negabove", "nan", "inf", "neginf"]
    import random
    rnd = random.Random(c.seed)
    out = []
    # all pairs (change class, residual class) at the deciding iteration, three positions
    for d in (1, 127, 128, 129, 300):
        for k in ks:
            for pos in (1, 2, 3):
                for conv in (True, False):
                    sc_ = [(200, "above")] * 4
                    sc_[pos - 1] = (d, k)
                    out.append({"conv": conv, "script": sc_, "split": rnd.choice([0, 1, 2])})
    for s in scns:
        out.append({"conv": True, "script": [(x["d"], x["k"]) for x in s["script"]],
                    "split": rnd.choice([0, 1, 2])})
    if restarts:   # iterations after the converged one, and runs that do converge
        out = [s for s in out if s["conv"] and any(abs(d) < 128 for d, _ in s["script"])]
        for s in out:
            s["script"] = list(s["script"]) + [rnd.choice([(200, "above"), (1, "zero")])
                                               for _ in range(rnd.choice([0, 2]))]
    if n and len(out) > n:
        out = out[:300] + rnd.sample(out[300:], n - 300) if n > 300 else rnd.sample(out, n)
    for s in out:
        M = len(s["script"])
        op = lambda o, **k: {**{"op": o, "M": 0, "R": 0, "n": 0, "from": 0}, **k}  # noqa
        R = rnd.choice([1, 1, 2, M, M + 2]) if restarts else 1
        reqs = {0: [FULL, FULL, 1], 1: [1] * (M + 1), 2: [2, FULL, 2]}[s["split"]]
        s["ops"] = [op("fresh", M=M, R=R)] + [op("request", n=r) for r in reqs]
        if restarts and rnd.random() < .5:
            s["ops"] += [op("restart", M=M, R=R, **{"from": -1})] + [op("request", n=r) for r in reqs[:2]]
        s["script"] = [list(x) for x in s["script"]]
    return out


def c02(c):
    design(c)
    traces = c.replay(drive_step, conv_scns(c, None if c.thorough else 420))
    c.validate("LifeTrace", tag(traces, "C02"))
    traces = c.replay(drive_step, conv_scns(c, 600 if c.thorough else 80, restarts=True))
    c.validate("LifeTrace", tag(traces, "C02"))
    c.finish(rule="all combinations of density change (below/at/above tolerance) and residual class "
                  "(below, at, above, both signs, NaN, infinities) at each iteration of short runs, "
                  "with and without convergence checking, whole and split runs; restarts of such runs")


def c03(c):
    design(c)
    scns = c.generate("LifeGen", gcfg("1..6" if not c.thorough else "1..9",
                                      "1..8" if not c.thorough else "1..12", "{9999}", 2))
    scns += c.generate("LifeGen", gcfg("{5, 7}", "{1, 2, 3, 9}", "{1, 2, 3, 9999}", 4),
                       limit=None if c.thorough else 120)
    scns += c.generate("LifeGen", gcfg("{4}", "{1, 2}", "{1, 2, 9999}", 5, "{-1, 1, 2}", "{4, 6}", 2),
                       limit=500 if c.thorough else 80)
    traces = c.replay(drive, scns)
    c.validate("LifeTrace", tag(traces, "C03"))
    traces = c.replay(drive_step, conv_scns(c, 600 if c.thorough else 60, restarts=True))
    c.validate("LifeTrace", tag(traces, "C03"))
    rs = c.generate("LifeGen", gcfg("{4}", "{2}", "{1, 2, 9999}", 3))
    traces = c.replay(drive_real, real_scns(c, rs, ["oc_spacial", "moc"], 20 if c.thorough else 4))
    c.validate("LifeTrace", tag(traces, "C03"))
    c.finish(rule="every (max_iters <= 6, record_times <= 8) with full runs, splits into requests and "
                  "restarts; files on disk and their contents after every request")


def expand_kills(c, scns):
    """Find the number of file system events of the killed request, then every (j, torn)."""
    def probe(s):
        ops = s["ops"]
        i = next(k for k, o in enumerate(ops) if o["op"] == "kill")
        st = max(k for k in range(i) if ops[k]["op"] in ("fresh", "restart"))
        m = Machine({"ops": ops[:st]})
        try:
            mm = m
            for o in ops[:st]:
                mm.new(o) if o["op"] in ("fresh", "restart") else mm.request(o)
            r = mm.kill_segment(ops[st:i], ops[i], None, False)
            return [x["kind"] for x in r["fs"]]
        finally:
            shutil.rmtree(m.dst, ignore_errors=True)
    out = []
    for s, (kind, v) in zip(scns, vlib.pmap(probe, scns)):
        if kind != "ok":
            c.fail("unexpected_" + kind, {"scenario": s, "detail": v})
            continue
        for j in range(1, len(v) + 2):
            for torn in (False, True):
                if torn and (j < 2 or v[j - 2] != "open"):
                    continue
                ops = [dict(o) for o in s["ops"]]
                for o in ops:
                    if o["op"] == "kill":
                        o["j"], o["torn"] = j, torn
                out.append({**s, "ops": ops})
    return out


def kill_scns(c, pid):
    base = c.generate("LifeGen", gcfg("{3}", "{1, 3}", "{2, 9999}", 4, "{-1}", "{3, 4}", 1, "TRUE"),
                      limit=None)
    base = [s for s in base if any(o["op"] == "kill" for o in s["ops"])
            and s["ops"][-1]["op"] == "request" and s["ops"][-1]["n"] == FULL
            and s["ops"][-2]["op"] == "restart"]
    extra = c.generate("LifeGen", gcfg("{3}", "{3}", "{1, 9999}", 6, "{-1, 1}", "{3}", 1, "TRUE"))
    extra = [s for s in extra if s["ops"][-1]["op"] == "request" and s["ops"][-1]["n"] == FULL
             and s["ops"][-2]["op"] == "restart" and s["ops"][-2]["from"] == -1
             and s["ops"][-3]["op"] == "kill"]
    import random
    rnd = random.Random(c.seed)
    rnd.shuffle(extra)
    base = base + extra[:40 if c.thorough else 3]
    out = expand_kills(c, base)
    if not c.thorough and len(out) > 330:
        out = rnd.sample(out, 330)
    c.parts["crash_points"] = len(out)
    return out


def c04(c):
    design(c)
    restart = c.generate("LifeGen", gcfg("{3}", "{3}", "{1, 9999}", 5, "{-1, 1, 2, 7}", "{3, 4}", 2),
                         limit=1500 if c.thorough else 130)
    forg = c.generate("LifeGen", gcfg("{3}", "{3}", "{2}", 5, "{-1, 2, 97}", "{4}", 1, "FALSE", "TRUE"))
    forg = [{**s, "foreign": k} for s in forg for k in range(0, 10)
            if any(o["op"] == "foreign" for o in s["ops"])]
    if not c.thorough and len(forg) > 120:
        import random
        forg = random.Random(c.seed).sample(forg, 120)
    traces = c.replay(drive, restart + forg)
    c.validate("LifeTrace", tag(traces, "C04"))
    traces = c.replay(drive, kill_scns(c, "C04"))
    c.validate("LifeTrace", tag(traces, "C04"))
    rs = c.generate("LifeGen", gcfg("{4}", "{2}", "{2, 9999}", 4, "{-1, 1, 2}", "{4, 5}", 1))
    rs = [{**s, "reference": False} for s in rs if any(o["op"] == "restart" for o in s["ops"])]
    traces = c.replay(drive_real, real_scns(c, rs, REAL, 30 if c.thorough else 6))
    c.validate("LifeTrace", tag(traces, "C04"))
    c.assumptions += ["a kill during the constructor of a fresh run is not explored",
                      "a torn file is a prefix of what would have been written"]
    c.finish(rule="sequences of fresh runs, partial runs and automatic/explicit restarts; foreign, "
                  "truncated and empty files; a kill at every file-system event of a request, with "
                  "and without the last written file cut in half")


def c05(c):
    design(c)
    scns = c.generate("LifeGen", gcfg("{3}", "{1, 3}", "{1, 2, 9999}", 4, "{-1, 1, 2}", "{3, 4}", 2),
                      limit=None if c.thorough else 200)
    scns += c.generate("LifeGen", gcfg("{4, 6}", "{1, 2, 6}", "{1, 2, 3, 9999}", 9, "{-1, 1, 2, 3}",
                                       "{6}", 2),
                       extra=["-simulate", f"num={400 if c.thorough else 60}", "-depth", "11",
                              "-seed", str(c.seed)], workers=1, limit=400 if c.thorough else 60)
    traces = c.replay(drive, scns)
    c.validate("LifeTrace", tag(traces, "C05"))
    traces = c.replay(drive_step, conv_scns(c, 600 if c.thorough else 60, restarts=True))
    c.validate("LifeTrace", tag(traces, "C05"))
    traces = c.replay(drive, kill_scns(c, "C05"))
    c.validate("LifeTrace", tag(traces, "C05"))
    rs = c.generate("LifeGen", gcfg("{4}", "{2}", "{1, 2, 9999}", 5, "{-1, 1, 2}", "{4, 5}", 1))
    rs = [{**s, "reference": False} for s in rs if any(o["op"] == "restart" for o in s["ops"])]
    traces = c.replay(drive_real, real_scns(c, rs, REAL, 30 if c.thorough else 5))
    c.validate("LifeTrace", tag(traces, "C05"))
    c.finish(rule="sequences of fresh runs, partial runs, restarts and kills; every recorded series "
                  "in memory and on disk compared with the iterations of the surviving run")
