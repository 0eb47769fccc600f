"""Common machinery: TLC runs, parallel execution of the code under test, verdicts, evidence."""
import argparse
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("NUMBA_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
REPO = "/repo"
NCPU = min(8, os.cpu_count() or 1)


class MachineryError(Exception):
    pass


def sc(x, scale=10**6):
    """Real number -> scaled integer; everything outside the 32 bit range is pinned."""
    x = float(x)
    if x != x:
        return 2000000001
    v = x * scale
    if v > 2e9:
        return 2000000000
    if v < -2e9:
        return -2000000000
    return int(round(v))


def scv(a, scale=10**6):
    import numpy as np
    return [sc(x, scale) for x in np.asarray(a, dtype=float).ravel()]


NAN = 2000000001


# ----------------------------------------------------------------- TLC
class TlcResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        m2 = re.findall(r"The number of states generated: (\d+)", out)
        self.generated = int(m[-1][0]) if m else (int(m2[-1]) if m2 else 0)
        self.distinct = int(m[-1][1]) if m else 0

    def lines(self, tag):
        """Payloads of PrintT("TAG json") lines."""
        res = []
        pre = '"' + tag + " "
        for ln in self.out.splitlines():
            if ln.startswith(pre) and ln.endswith('"'):
                res.append(json.loads(json.loads(_tla_str(ln))[len(tag) + 1:]))
        return res


def _tla_str(ln):
    # TLC prints a string value with \" and \\ escapes only, as JSON does
    return ln


def tlc(module, cfg, env=None, workers=None, extra=(), timeout=600, heap="3g"):
    """Run TLC on spec/<module>.tla with the given cfg text; returns TlcResult."""
    work = tempfile.mkdtemp(prefix="tlc_")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(work, f))
        # constants the cfg syntax cannot express become definitions of a wrapper module
        defs, lines = [], []
        for ln in cfg.splitlines():
            m = re.match(r"^(\s*(?:CONSTANTS?\s+)?)(\w+) = (.*)$", ln)
            if m and ("-" in m.group(3) or ".." in m.group(3) or "<<" in m.group(3)):
                defs.append(f"mc_{m.group(2)} == {m.group(3)}")
                ln = f"{m.group(1)}{m.group(2)} <- mc_{m.group(2)}"
            lines.append(ln)
        cfg = "\n".join(lines) + "\n"
        if defs:
            with open(os.path.join(work, "MC_" + module + ".tla"), "w") as fh:
                fh.write(f"---- MODULE MC_{module} ----\nEXTENDS {module}\n"
                         + "\n".join(defs) + "\n====\n")
            module = "MC_" + module
        with open(os.path.join(work, "run.cfg"), "w") as fh:
            fh.write(cfg)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xss16m", "-Xmx" + heap, "-cp", CP,
               "-Djava.io.tmpdir=" + work, "tlc2.TLC", "-metadir", os.path.join(work, "st"),
               "-workers", str(workers or NCPU), "-config", "run.cfg", *extra,
               module + ".tla"]
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as ex:
            raise MachineryError(f"TLC timed out on {module} after {timeout}s") from ex
        return TlcResult(p.stdout, p.returncode, time.time() - t)
    finally:
        shutil.rmtree(work, ignore_errors=True)


# ------------------------------------------------------- parallel execution
def _repo_frame(tb):
    last = None
    for fr in traceback.extract_tb(tb):
        f = os.path.realpath(fr.filename)
        if f.startswith(REPO + "/"):
            last = f"{os.path.basename(fr.filename)}:{fr.name}"
        elif f.startswith(VERIF + "/"):
            last = None
    return last


def exc_event(ex):
    """Describe an exception: did it come through the code under test?"""
    return {"cls": type(ex).__name__, "msg": str(ex)[:300],
            "where": _repo_frame(ex.__traceback__) or "", "tb": traceback.format_exc()[-3000:]}


def _child(fn, item, conn):
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    import numpy
    numpy.random.seed(1)
    try:
        try:
            r = ("ok", fn(item))
        except Exception as ex:  # noqa
            d = exc_event(ex)
            r = ("merr" if isinstance(ex, (MachineryError, MemoryError)) else "exception", d)
        conn.send(r)
        conn.close()
    except BaseException:
        try:
            conn.send(("merr", {"cls": "?", "msg": "send failed", "where": "",
                               "tb": traceback.format_exc()}))
        except BaseException:
            pass
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(0)


def pmap(fn, items, timeout=240, nproc=None):
    """Run fn(item) in one forked child each, NCPU at a time. Yields (kind, value) in order.
    kind: ok | exception (escaped from the code under test) | merr | hang | died"""
    ctx = mp.get_context("fork")
    nproc = nproc or NCPU
    res = [None] * len(items)
    pend = list(range(len(items)))[::-1]
    run = {}
    while pend or run:
        while pend and len(run) < nproc:
            i = pend.pop()
            rd, wr = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(fn, items[i], wr))
            p.start()
            wr.close()
            run[i] = (p, rd, time.time())
        ready = mp.connection.wait([v[1] for v in run.values()], timeout=1.0)
        for i in list(run):
            p, rd, t0 = run[i]
            if rd in ready:
                try:
                    res[i] = rd.recv()
                except EOFError:
                    res[i] = ("died", {"msg": "process ended without a result"})
                p.join(10)
                if p.is_alive():
                    p.kill()
                    p.join()
                rd.close()
                del run[i]
            elif time.time() - t0 > timeout:
                p.kill()
                p.join()
                rd.close()
                res[i] = ("hang", {"msg": f"no result within {timeout}s"})
                del run[i]
    return res


def warm_up(fn, item, seconds=60):
    """Run once in this process so that forked children share imported and compiled code."""
    def stop(*a):
        raise TimeoutError
    old = signal.signal(signal.SIGALRM, stop)
    signal.alarm(seconds)
    out = os.dup(1)
    sys.stdout.flush()
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    try:
        fn(item)
    except Exception:  # noqa  (the children report it)
        pass
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        sys.stdout.flush()
        os.dup2(out, 1)
        os.close(out)


# ------------------------------------------------------------------ checks
class Check:
    def __init__(self, pid, level="model_checking"):
        ap = argparse.ArgumentParser()
        ap.add_argument("prop", nargs="?")
        ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
        a, _ = ap.parse_known_args()
        self.pid, self.level = pid, level
        self.tier = a.tier if a.tier in ("quick", "thorough") else "quick"
        self.seed = int(os.environ.get("VERIF_SEED") or 1)
        self.t0 = time.time()
        self.states = self.transitions = self.validated = 0
        self.samples, self.assumptions, self.parts = [], [], {}
        self.bad, self.known = [], []
        os.makedirs(EVID, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=f"v_{pid}_")
        # the code under test may litter its directory: keep everything in the scratch folder
        os.chdir(self.work)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def log(self, *a):
        print(f"[{self.pid} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    # --- design check: any error reported by TLC is a defect of the specification
    def model(self, module, cfg, **kw):
        r = tlc(module, cfg, **kw)
        if r.rc != 0 or "No error has been found" not in r.out:
            raise MachineryError(f"design check of {module} failed:\n{r.out[-4000:]}")
        self.states += r.distinct
        self.transitions += r.generated
        self.parts.setdefault("design", []).append(
            {"module": module, "states": r.distinct, "transitions": r.generated,
             "wall_s": round(r.wall, 1)})
        self.log(f"design {module}: {r.distinct} states, {r.generated} transitions, {r.wall:.1f}s")
        return r

    # --- scenario generation
    def generate(self, module, cfg, tag="SCN", limit=None, **kw):
        r = tlc(module, cfg, **kw)
        s = r.lines(tag)
        if not s:
            raise MachineryError(f"no scenarios from {module}:\n{r.out[-3000:]}")
        if r.rc != 0 and "-simulate" not in kw.get("extra", ()):
            raise MachineryError(f"scenario generation {module} failed:\n{r.out[-3000:]}")
        self.states += r.distinct
        self.transitions += r.generated
        uniq, seen = [], set()
        for x in s:
            k = json.dumps(x, sort_keys=True)
            if k not in seen:
                seen.add(k)
                uniq.append(x)
        uniq.sort(key=lambda x: json.dumps(x, sort_keys=True))
        n = len(uniq)
        if limit and n > limit:
            uniq = random.Random(self.seed).sample(uniq, limit)
        self.log(f"scenarios {module}: {len(uniq)} of {n} ({r.wall:.1f}s)")
        return uniq

    # --- replay: fn(scenario) -> trace {"id":..., "ev":[...], ...}
    def replay(self, fn, scns, timeout=240, nproc=None, warm=True):
        traces = []
        if warm and len(scns) > 16:
            warm_up(fn, scns[0])
        for s, (kind, v) in zip(scns, pmap(fn, scns, timeout, nproc)):
            if kind == "ok":
                for t in (v if isinstance(v, list) else [v]):
                    if t is not None:
                        traces.append(t)
            elif kind == "merr":
                raise MachineryError(f"driver failed on {s}:\n{v['tb']}")
            else:
                self.fail(f"unexpected_{kind}", {"scenario": s, "detail": v})
        self.log(f"replayed {len(scns)} scenarios -> {len(traces)} traces")
        return traces

    # --- trace validation by TLC
    def validate(self, module, traces, cfg=None, timeout=800, heap="6g", sample=2):
        if not traces:
            raise MachineryError("no traces to validate")
        cfg = cfg or "INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\n"
        if "CHECK_DEADLOCK" not in cfg:
            cfg += "CHECK_DEADLOCK FALSE\n"
        self._validate(module, traces, cfg, timeout, heap)
        for t in traces[:sample]:
            s = json.dumps(t)
            self.samples.append(t if len(s) < 4000 else s[:4000] + "...")

    def _validate(self, module, traces, cfg, timeout, heap):
        fn = os.path.join(self.work, "traces.json")
        with open(fn, "w") as fh:
            json.dump(traces, fh)
        r = tlc(module, cfg, env={"TRACE_FILE": fn}, timeout=timeout, heap=heap)
        bads = r.lines("BAD")
        if r.rc != 0 or "No error has been found" not in r.out:
            # a trace the specification cannot even interpret: isolate one
            if len(traces) > 1:
                self.log(f"trace validation error in {module}, searching among {len(traces)} traces")
                m = [int(x) for x in re.findall(r"\btid = (\d+)", r.out)]
                for i in m[-1:]:
                    if i <= len(traces) and self._validate(module, traces[i - 1:i], cfg, timeout, heap):
                        return True
                h = len(traces) // 2
                return self._validate(module, traces[:h], cfg, timeout, heap) or \
                    self._validate(module, traces[h:], cfg, timeout, heap)
            if "java.lang.OutOfMemory" in r.out or "Parsing" in r.out and "Semantic error" in r.out:
                raise MachineryError(r.out[-3000:])
            self.fail("uninterpretable", {"trace": traces[0], "tlc": r.out[-3000:]})
            return True
        exp = 0
        badat = {b["tid"]: b for b in bads}
        other = {b["tid"]: b for b in r.lines("OTHER")}
        self.parts["stopped_by_other_property"] = \
            self.parts.get("stopped_by_other_property", 0) + len(other)
        if other:
            self.log("traces stopped by clauses of another property:",
                     json.dumps(sorted({c for b in other.values() for c in b["clauses"]})))
        both = {**other, **badat}
        for i, t in enumerate(traces, 1):
            # one state per consumed event plus the initial one
            exp += (both[i]["step"] if i in both else len(t["ev"])) + 1
        if r.distinct != exp:
            raise MachineryError(
                f"{module}: {r.distinct} states for {exp} expected: events were not consumed\n"
                + r.out[-2000:])
        self.states += r.distinct
        self.transitions += r.generated
        self.validated += len(traces) - len(both)
        self.log(f"validated {module}: {len(traces)} traces, {exp} states, {len(badat)} rejected, "
                 f"{r.wall:.1f}s")
        for i, b in sorted(badat.items()):
            t = traces[i - 1]
            self.fail(",".join(sorted(b["clauses"])),
                      {"trace": t, "step": b["step"],
                       "event": t["ev"][b["step"] - 1] if b["step"] <= len(t["ev"]) else None,
                       "clauses": b["clauses"], "module": module})

    def fail(self, clause, detail):
        sig = None
        for k in known_findings(self.pid):
            if k["match"] and all(m in json.dumps(detail, sort_keys=True) + clause
                                  for m in k["match"]):
                sig = k
        if sig:
            if sig["what"] not in self.known:
                self.known.append(sig["what"])
            return
        self.bad.append((clause, detail))

    def finish(self, rule=None, exhaustive=None):
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {k}")
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.validated,
               "samples": self.samples[:4], **self.parts}
        if rule:
            cov["rule"] = rule
        if exhaustive is not None:
            cov["exhaustive"] = exhaustive
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.bad)}
        with open(os.path.join(EVID, f"{self.pid}.json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        if self.bad:
            rp = os.path.join(EVID, f"replay-{self.pid}.json")
            with open(rp, "w") as fh:
                json.dump([{"clause": c, **d} for c, d in self.bad[:20]], fh, indent=1,
                          default=str)
            cl = {}
            for c, _ in self.bad:
                cl[c] = cl.get(c, 0) + 1
            for c, n in sorted(cl.items(), key=lambda x: -x[1])[:15]:
                print(f"  clause {c}: {n} trace(s)")
            c, d = self.bad[0]
            print(f"  first: {json.dumps({'clause': c, 'event': d.get('event'), 'detail': d.get('detail')}, default=str)[:1500]}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            sys.stdout.flush()
            sys.exit(1)
        self.log("ok", json.dumps({k: cov[k] for k in
                                   ("states", "transitions", "traces_validated_against_impl")}))
        sys.exit(0)


def known_findings(pid):
    """Lines 'known: property=<id> match=[...json...] <what>' of known-findings.txt."""
    res = []
    fn = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(fn):
        for ln in open(fn):
            m = re.match(r"known: property=(\S+) match=(\[.*?\]) (.*)", ln)
            if m and m.group(1) == pid:
                res.append({"match": json.loads(m.group(2)), "what": m.group(3).strip()})
    return res


def main(pid, fn, level="model_checking"):
    c = Check(pid, level)
    try:
        fn(c)
        c.finish()
    except SystemExit:
        raise
    except MachineryError as ex:
        if c.bad:
            c.log("machinery stopped early:", str(ex)[:2000])
            c.finish()
        print(f"MACHINERY ERROR {pid}: {ex}")
        shutil.rmtree(c.work, ignore_errors=True)
        sys.exit(2)
    except Exception as ex:  # noqa
        d = exc_event(ex)
        if d["where"]:
            c.fail("unexpected_exception", {"detail": d})
            c.finish()
        if c.bad:
            c.log("machinery stopped early:", d["tb"])
            c.finish()
        traceback.print_exc()
        shutil.rmtree(c.work, ignore_errors=True)
        sys.exit(2)
