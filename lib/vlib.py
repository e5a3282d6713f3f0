"""Common machinery of the checks: scripts, runs of a driver under mpirun, TLC, evidence."""
import concurrent.futures as cf
import glob
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gabuild
from gabuild import VERIF, REPO, WORK

SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
SPEC = os.path.join(VERIF, "spec")
JAVA = ["java", "-XX:+UseSerialGC", "-Xss16m", "-XX:TieredStopAtLevel=4", "-cp",
        "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"]
MPIENV = {
    "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
    "OMPI_MCA_rmaps_base_oversubscribe": "1", "OMPI_MCA_hwloc_base_binding_policy": "none",
    "OMPI_MCA_mpi_yield_when_idle": "1", "OMPI_MCA_plm": "isolated", "OMPI_MCA_btl": "self,vader",
    "OMPI_MCA_pml": "ob1", "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
    "OMPI_MCA_osc": "^ucx", "OMPI_MCA_rmaps_base_mapping_policy": "",
}


class Script:
    """Operations of a run: text for the driver, records for the specification."""

    def __init__(self):
        self.lines = []   # (id, who, op, driver words, spec record or None)
        self.cases = []

    def add(self, who, op, spec=None, logs=True, **kw):
        """who: '*' or list of ranks.  spec: extra fields of the event (None: no event).
        logs: the driver records an observation for every rank of who."""
        i = len(self.lines) + 1
        words = []
        for k, v in kw.items():
            if v is None:
                continue
            if isinstance(v, (list, tuple)):
                v = ",".join(str(int(x)) for x in v)
            words.append("%s=%s" % (k, v))
        self.lines.append({"id": i, "who": who, "op": op, "words": words, "logs": logs,
                           "spec": spec})
        return i

    def note(self, op, **spec):
        """an event of the specification only"""
        spec["op"] = op
        self.lines.append({"id": len(self.lines) + 1, "who": [], "op": op, "words": None, "logs": False, "spec": spec})

    def case(self, name):
        i = len(self.lines) + 1
        self.lines.append({"id": i, "who": [], "op": "case", "words": None, "logs": False,
                           "spec": {"op": "case", "name": name}})

    def text(self):
        out = []
        for x in self.lines:
            if x["words"] is None:
                continue
            who = "*" if x["who"] == "*" else ",".join(str(w) for w in x["who"])
            out.append("%d %s %s %s" % (x["id"], who, x["op"], " ".join(x["words"])))
        return "\n".join(out) + "\n"

    def events(self, obs, np):
        """Merges the script with the observations obs[(id, rank)]; returns (events, missing)."""
        ev, missing = [], None
        for x in self.lines:
            if x["spec"] is None:
                continue
            base = dict(x["spec"])
            base.setdefault("op", x["op"])
            base["id"] = x["id"]
            if not x["logs"]:
                base.setdefault("r", -1 if x["who"] == "*" or not x["who"] else x["who"][0])
                ev.append(base)
                continue
            for r in (range(np) if x["who"] == "*" else x["who"]):
                o = obs.get((x["id"], r))
                if o is None:
                    missing = missing or (x["id"], r)
                    continue
                e = dict(base)
                e.update(o)
                e["r"] = r
                ev.append(e)
        return ev, missing


class Job:
    """One run of a driver.  np counts the processes the program sees."""

    def __init__(self, name, script, port="ts", np=4, nodes=1, env=None, timeout=45, exe=None,
                 trace="GADataTrace", cyclic=False):
        self.name, self.script, self.port, self.np = name, script, port, np
        self.nodes, self.env, self.timeout, self.exe = nodes, dict(env or {}), timeout, exe
        self.trace, self.cyclic = trace, cyclic

    def describe(self):
        return {"job": self.name, "port": self.port, "np": self.np, "nodes": self.nodes,
                "env": self.env, "trace": self.trace}


def mpirun_cmd(job, exe, args):
    ranks = job.np
    if job.port == "pr":
        ranks += job.nodes * int(job.env.get("GA_NUM_PROGRESS_RANKS_PER_NODE", "1"))
    return ["mpirun", "-np", str(ranks), "--oversubscribe", exe] + args


def private_shm():
    """A command prefix that gives a run a /dev/shm of its own (empty if that is not possible):
    the ports name their segments by process or rank only, so that runs beside each other collide."""
    global _SHM
    if _SHM is None:
        cmd = ["unshare", "-Urm", "sh", "-c", 'mount -t tmpfs tmpfs /dev/shm && exec "$@"', "sh"]
        try:
            ok = subprocess.run(cmd + ["true"], capture_output=True, timeout=20).returncode == 0
        except (OSError, subprocess.TimeoutExpired):
            ok = False
        _SHM = cmd if ok else []
    return _SHM


_SHM = None
PTLOCK = threading.Lock()


def clean_shm(before):
    if private_shm():
        return
    for p in glob.glob("/dev/shm/*"):
        b = os.path.basename(p)
        if b in before:
            continue
        if b.startswith(("cmx", "comex", "osc_", "vader_segment")) or "vader" in b:
            try:
                os.unlink(p)
            except OSError:
                pass


def run_proc(cmd, env, timeout, cwd, out):
    """Returns (rc, timed_out); ends the whole process group on a timeout."""
    with open(out, "w") as f:
        p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=f, stderr=subprocess.STDOUT,
                             start_new_session=True)
        try:
            return p.wait(timeout), False
        except subprocess.TimeoutExpired:
            pass
        # the processes of an mpirun stay in its session
        subprocess.run(["pkill", "-KILL", "-s", str(p.pid)])
        p.wait()
        return -9, True


def run_job(job, base, tag="", scale=1.0):
    """Runs the driver; returns dict(rc, timeout, obs, log, dir)."""
    d = os.path.join(base, job.name + tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with open(d + "/script", "w") as f:
        f.write(job.script.text() if hasattr(job.script, "text") else job.script)
    with open(d + "/job.json", "w") as f:
        json.dump(job.describe(), f)
    with open(d + "/clock", "wb") as f:
        f.write(b"\0" * 65536)
    tmp = "/tmp/vf%d.%s" % (os.getpid(), abs(hash(job.name + tag)) % 100000)
    os.makedirs(tmp, exist_ok=True)
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(("COMEX_", "ARMCI_", "GA_", "MA_")):
            del env[k]
    env.update(MPIENV)
    env.update({"VERIF_OUT": d + "/trace", "VERIF_CLOCK": d + "/clock", "TMPDIR": tmp,
                "OMPI_MCA_orte_tmpdir_base": tmp, "VERIF_SCRATCH": tmp})
    if job.nodes > 1:
        env["VERIF_NODES"] = str(job.nodes)
        if job.cyclic:
            env["VERIF_NODES_CYCLIC"] = "1"
    env.update(job.env)
    if job.port == "mpi3":
        env["VERIF_THREADS"] = "single"   # one-sided communication of this MPI library requires it
    pre = private_shm()
    lock = PTLOCK if job.port == "pt" and not pre else threading.Lock()
    with lock:
        t0 = time.time()
        rc, to = run_proc(pre + mpirun_cmd(job, job.exe, ["./script"]), env, job.timeout * scale, d, d + "/log")
    shutil.rmtree(tmp, ignore_errors=True)
    obs, done = {}, 0
    for p in glob.glob(d + "/trace.*"):
        for line in open(p, errors="replace"):
            try:
                o = json.loads(line)
            except ValueError:
                continue
            if o["id"] == 1000000000:
                done += 1
                continue
            obs.setdefault((o["id"], o["r"]), {k: v for k, v in o.items() if k not in ("id", "r")})
    return {"rc": rc, "timeout": to, "obs": obs, "dir": d, "done": done, "wall": time.time() - t0}


def tlc(module, cfg, env=None, workers=1, timeout=600, extra=(), heap="2g", meta=None):
    """Runs TLC; returns (rc, output)."""
    meta = meta or os.path.join(WORK, "tlc", "%s.%d.%d" % (module, os.getpid(), random.getrandbits(40)))
    os.makedirs(meta, exist_ok=True)
    e = dict(os.environ)
    e.update(env or {})
    cmd = JAVA[:1] + ["-Xmx" + heap, "-Djava.io.tmpdir=" + meta] + JAVA[1:] + [
        "tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE",
        "-config", cfg + ".cfg"] + list(extra) + [module + ".tla"]
    try:
        r = subprocess.run(cmd, env=e, cwd=SPEC, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as x:
        return 124, "TLC timed out after %s s\n" % timeout + str(x.stdout or "")[-2000:]
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def tlc_stats(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", out)
    if not m:
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct", out)
    if not m:
        return 0, 0
    g, s = m[-1]
    return int(g.replace(",", "")), int(s.replace(",", ""))


class ToolError(Exception):
    pass


def write_trace(events, path):
    """Adds nx (line of the next case) and writes the events."""
    n = len(events)
    nxt = n + 1
    for i in range(n - 1, -1, -1):
        if events[i]["op"] == "case":
            events[i]["nx"] = nxt
            nxt = i + 1
    with open(path, "w") as f:
        for e in events:
            f.write(json.dumps(e, separators=(",", ":")) + "\n")


def check_trace(module, path, nlines, timeout=600):
    """Returns (accepted, text about mismatches, generated states)."""
    rc, out = tlc(module, module, {"TRACE": path}, timeout=timeout)
    g, s = tlc_stats(out)
    if rc == 0 and "No error has been found" in out:
        return True, "", s
    if "REJECTED" not in out:
        # an evaluation error in the middle of a trace (a value of impossible shape) also rejects it
        if "TLC_TOOL" in out or rc == 124 or "Semantic error" in out or "arsing or semantic analysis failed" in out:
            raise ToolError(out[-3000:])
    rc2, out2 = tlc(module, module + "Explain", {"TRACE": path}, timeout=timeout)
    mm = re.findall(r'<<\s*"MISMATCH".*?(?=\n<<\s*"MISMATCH"|\nModel checking|\nError|\nProgress|\n@!|\Z)', out2, re.S)
    return False, mm or [out[-1500:] + out2[-1500:]], s


class Check:
    # operations whose v is an input
    stores = {"put", "pput", "sput", "scatter", "acc", "pacc", "sacc", "scatacc", "nbput", "nbacc"}

    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.base = os.path.join(WORK, "run", prop)
        shutil.rmtree(self.base, ignore_errors=True)
        os.makedirs(self.base)
        self.rng = random.Random("%s-%d" % (prop, SEED))
        self.states = self.transitions = self.traces = self.lines = 0
        self.samples, self.models, self.violations, self.known = [], [], [], []
        self.extra = {}
        self.assumptions = []
        self.shm = set(os.listdir("/dev/shm"))
        self.pool, self.modeljobs, self.lock = None, [], threading.Lock()
        self.stop, self.skipped, self.selftests = False, [], 0
        self.limit = 1700 if THOROUGH else 560   # seconds after which no further run starts
        self.findings = load_findings(prop)

    # -- model checking of the specification itself
    def model(self, module, cfg=None, workers=2, timeout=700, broken=False):
        """Model checks spec/MODULE.tla with CFG.cfg in the background; finish() waits for it.
        broken: a deliberately broken variant, whose violation TLC must find."""
        if self.pool is None:
            self.pool = cf.ThreadPoolExecutor(2 if not THOROUGH else 3)
        self.modeljobs.append(self.pool.submit(self._model, module, cfg or module, workers, timeout, broken))

    def _model(self, module, cfg, workers, timeout, broken):
        rc, out = tlc(module, cfg, workers=workers, timeout=timeout, heap="4g")
        g, s = tlc_stats(out)
        if broken:
            if "is violated" not in out and "Deadlock reached" not in out and "was violated" not in out:
                raise ToolError("broken model %s: no violation found:\n%s" % (cfg, out[-4000:]))
        elif rc != 0 or "No error has been found" not in out:
            raise ToolError("model %s does not hold:\n%s" % (cfg, out[-4000:]))
        with self.lock:
            self.states += s
            self.transitions += g
            self.models.append({"module": module, "cfg": cfg, "distinct_states": s,
                                "states_generated": g, "expected": "violation" if broken else "holds"})

    # -- runs
    def run(self, jobs, workers=None, validate=None):
        """Runs the jobs in parallel and validates their traces."""
        cores = os.cpu_count() or 4
        workers = workers or max(1, (3 * cores) // 8)
        with cf.ThreadPoolExecutor(workers) as ex:
            for f in [ex.submit(self._one, j, validate) for j in jobs]:
                f.result()

    def _attempt(self, job, tag, scale=1.0):
        r = run_job(job, self.base, tag, scale)
        ev, missing = job.script.events(r["obs"], job.np)
        d = r["dir"]
        if r["rc"] != 0 or r["done"] != job.np or missing:
            if r["rc"] == 3:
                raise ToolError("driver error in %s:\n%s" % (d, open(d + "/log", errors="replace").read()[-1500:]))
            why = ("the program did not finish within %d s" % (job.timeout * scale) if r["timeout"] else
                   "the program ended with status %d, %d of %d processes complete, first missing observation %s"
                   % (r["rc"], r["done"], job.np, missing))
            return None, [why + "\n" + open(d + "/log", errors="replace").read()[-1500:]], d, ev
        path = d + "/trace.ndjson"
        write_trace(ev, path)
        t = time.time()
        ok, mm, s = check_trace(job.trace, path, len(ev))
        if os.environ.get("VERIF_VERBOSE"):
            print("%-12s run %5.1f s, check %5.1f s, %d lines, %s" % (job.name, r["wall"], time.time() - t, len(ev), ok), flush=True)
        return ok, mm, d, ev

    def _one(self, job, validate=None):
        if self.stop or time.time() - self.t0 > self.limit:
            self.skipped.append(job.name)
            return
        ok, mm, d, ev = self._attempt(job, "")
        if ok is None:
            # a program that did not finish is run again, with more time, before this is believed
            for k in range(2):
                ok2, mm2, d2, ev2 = self._attempt(job, ".again%d" % k, 1.5)
                if not ok2:
                    self._bad(job, mm2 if ok2 is False else mm, d2 if ok2 is False else d, ev)
                    self.stop = bool(self.violations)
                    return
            ok, mm, d, ev = ok2, mm2, d2, ev2
            self.extra.setdefault("reruns", []).append(job.name)
        elif not ok:
            self._bad(job, mm, d, ev)
            self.stop = len(self.violations) >= 3
            return
        with self.lock:
            n = sum(1 for e in ev if e["op"] == "case")
            self.traces += n
            self.lines += len(ev)
            self.states += len(ev) + 1
            self.transitions += len(ev)
            if len(self.samples) < 3:
                self.samples.append({"job": job.describe(), "events": [trim(e) for e in ev[1:6]]})
            first = self.selftests == 0
            self.selftests += first
        if first:
            self._selftest(job, d, ev)

    def _selftest(self, job, d, ev):
        """The specification must reject this trace once an observed number is changed."""
        for e in reversed(ev):
            k = next((k for k in ("out", "abs", "res", "v", "o", "m") if k in e and e["op"] not in self.stores), None)
            if k is None or e[k] == [] or isinstance(e[k], str):
                continue
            x = dict(e)
            x[k] = e[k] + 1 if isinstance(e[k], int) else e[k][:-1] + [e[k][-1] + 1]
            path = d + "/selftest.ndjson"
            write_trace([x if y is e else y for y in ev], path)
            ok, mm, s = check_trace(job.trace, path, len(ev))
            if ok:
                raise ToolError("a trace with a wrong number in line %s was accepted (%s)" % (e["id"], path))
            self.extra["selftest"] = "line %d of %s with %s changed: rejected" % (e["id"], job.name, k)
            return
        self.selftests = 0

    def _bad(self, job, mm, d, ev):
        text = mm if isinstance(mm, list) else [mm]
        known = []
        for k in self.findings:
            rest = [t for t in text if not re.search(k["match"], job.name + "\n" + t, re.S)]
            if len(rest) < len(text):
                known.append(k)
                text = rest
        for k in known:
            if k["text"] not in self.known:
                self.known.append(k["text"])
        if not text:
            return
        with open(d + "/mismatches", "w") as f:
            f.write("\n\n".join(text))
        self.violations.append((job.name, d, text[:3]))

    def violation(self, name, d, text):
        self.violations.append((name, d, [text]))

    def finish(self):
        for f in self.modeljobs:
            f.result()
        clean_shm(self.shm)
        if self.skipped:
            self.extra["not_run"] = self.skipped
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick",
              "seed": SEED, "level": self.level, "violations": len(self.violations),
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces,
                           "trace_lines": self.lines, "models": self.models,
                           "samples": self.samples or ["none"]},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1)}
        ev["coverage"].update(self.extra)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for t in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, t))
        if self.violations:
            keep = os.path.join(WORK, "replay", self.prop)
            shutil.rmtree(keep, ignore_errors=True)
            os.makedirs(keep)
            for i, (name, d, text) in enumerate(self.violations[:5]):
                to = os.path.join(keep, "%d-%s" % (i, os.path.basename(d)))
                shutil.copytree(d, to)
                print("in %s:" % name)
                for t in text:
                    print("   " + t[:1200].replace("\n", "\n   "))
                print("VIOLATION property=%s replay=%s" % (self.prop, to))
            print("%s: %d violations, %.1f s" % (self.prop, len(self.violations), ev["wall_s"]))
            return 1
        print("%s: held; %d states, %d cases in recorded runs (%d lines), %.1f s" % (
            self.prop, self.states, self.traces, self.lines, ev["wall_s"]))
        return 0


def trim(e):
    return {k: (v if not isinstance(v, list) or len(v) <= 12 else v[:12] + ["..."]) for k, v in e.items()}


def load_findings(prop):
    """known-findings.txt: 'known: property=<id> match=<regular expression> :: <text>'"""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) match=(.*?) :: (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append({"match": m.group(2), "text": m.group(3)})
    return out


def main(fn):
    """Runs a check: 0 held, 1 violation, 2 the check itself could not be carried out."""
    try:
        rc = fn()
    except (ToolError, gabuild.BuildError) as e:
        print("CHECK FAILED: %s" % e)
        rc = 2
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
