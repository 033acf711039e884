"""Runs harnesses on the real code, lets TLC decide the recorded traces, writes the evidence."""
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = 8


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update({
        "HOME": "/root", "CARGO_HOME": "/root/.cargo", "CARGO_NET_OFFLINE": "true",
        "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu",
        "CARGO_TARGET_DIR": TARGET, "CARGO_TERM_COLOR": "never", "RUSTC_WRAPPER": "",
        "RUST_BACKTRACE": "0", "PYTHONDONTWRITEBYTECODE": "1", "LC_ALL": "C.UTF-8",
    })
    e.pop("RUSTFLAGS", None)
    e.pop("JAVA_TOOL_OPTIONS", None)
    return e


def build(packages):
    """Build harness packages against /repo's working tree."""
    cmd = ["cargo", "build", "--offline", "--locked"]
    for p in packages:
        cmd += ["-p", p]
    r = subprocess.run(cmd, cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        raise ToolError("the harness does not build")


def limits():
    os.setsid()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_proc(cmd, timeout, cwd=None, out=None, extra_env=None):
    """(returncode, output); returncode None on timeout"""
    e = env()
    if extra_env:
        e.update(extra_env)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True, errors="replace", preexec_fn=limits)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, _ = p.communicate()
        return None, o


TLC_ERR = re.compile(r"^Error: ?(.*)$", re.M)


def tlc(spec, cfg=None, trace=None, workers=1, mem="3g", timeout=600, args=(), extra_env=None, metadir=None):
    """Run TLC; returns dict with output, states, distinct, mismatches, done, error."""
    md = metadir or os.path.join(VERIF, "work", "tlc-%d-%s" % (os.getpid(), hashlib.md5(
        ("%s%s%s%s" % (spec, trace, threading.get_ident(), time.time())).encode()).hexdigest()[:8]))
    os.makedirs(md, exist_ok=True)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss256m",
           "-Djava.io.tmpdir=" + md,
           "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(md, "states"),
           "-noGenerateSpecTE", "-fp", "7",
           "-config", os.path.join(SPEC, (cfg or spec) + ".cfg")] + list(args) + [os.path.join(SPEC, spec + ".tla")]
    ee = dict(extra_env or {})
    if trace:
        ee["TRACE"] = trace
    rc, out = run_proc(cmd, timeout, cwd=md, extra_env=ee)
    res = {"rc": rc, "out": out, "mismatches": [], "done": None, "error": None, "prints": []}
    for line in out.splitlines():
        if line.startswith('"') and line.endswith('"'):
            s = line[1:-1].replace('\\"', '"').replace("\\\\", "\\")
            if s.startswith("MISMATCH "):
                try:
                    res["mismatches"].append(json.loads(s[9:]))
                except ValueError:
                    m = re.search(r'"line":\s*(\d+)', s)
                    res["mismatches"].append({"line": int(m.group(1)) if m else 0, "raw": s[:2000]})
            elif s.startswith("DONE "):
                res["done"] = int(s[5:])
            else:
                res["prints"].append(s)
    m = re.search(r"^(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out, re.M)
    if m:
        res["states"] = int(m.group(1).replace(",", ""))
        res["distinct"] = int(m.group(2).replace(",", ""))
    e = TLC_ERR.search(out)
    if e:
        res["error"] = out[e.start():e.start() + 3000]
    if rc is None:
        res["error"] = "TLC timed out after %ss" % timeout
        res["timeout"] = True
    shutil.rmtree(md, ignore_errors=True)
    return res


RESOURCE = re.compile(r"OutOfMemory|StackOverflow|Java heap|timed out|insufficient memory|No space left", re.I)


class Check:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.dir = os.path.join(VERIF, "work", "%s" % prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.violations = []
        self.known_seen = []
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.hashes = set()
        self.ops = {}
        self.samples = []
        self.notes = []
        self.assumptions = []
        self.lock = threading.Lock()
        self.lock2 = threading.Lock()
        self.foreign = 0
        self.known = []
        self.design = []
        self.stop = False
        kf = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(kf):
            for l in open(kf):
                l = l.strip()
                if l and not l.startswith("fixed:"):
                    k = json.loads(l)
                    if k.get("status") == "known" and k["property"] == prop:
                        self.known.append(k)

    def quick(self):
        return self.tier == "quick"

    def pick(self, quick, thorough):
        return quick if self.quick() else thorough

    # ---------------------------------------------------------------- design models
    def model(self, spec, cfg=None, timeout=600, mem="12g", workers=JOBS, args=()):
        """An exhaustive check of the specification itself; failing is a fault of the framework."""
        r = tlc(spec, cfg, workers=workers, mem=mem, timeout=timeout, args=args)
        if r["error"] or "states" not in r:
            sys.stdout.write(r["out"][-5000:])
            raise ToolError("design model %s/%s failed: %s" % (spec, cfg, r["error"]))
        with self.lock:
            self.states += r["distinct"]
            self.transitions += r["states"]
            self.design.append({"spec": spec, "cfg": cfg or spec, "distinct_states": r["distinct"],
                                "transitions": r["states"]})
        return r

    def generate(self, spec, cfg, out, timeout=300, args=(), mem="6g", workers=JOBS):
        """Behaviours printed by TLC as lines SCRIPT <json>; written to `out`."""
        r = tlc(spec, cfg, workers=workers, mem=mem, timeout=timeout, args=args)
        if r["error"]:
            sys.stdout.write(r["out"][-5000:])
            raise ToolError("generator %s/%s failed: %s" % (spec, cfg, r["error"]))
        scripts = sorted(set(p[7:] for p in r["prints"] if p.startswith("SCRIPT ")))
        with open(out, "w") as f:
            for s in scripts:
                f.write(s + "\n")
        with self.lock:
            self.states += r.get("distinct", 0)
            self.transitions += r.get("states", 0)
            self.design.append({"spec": spec, "cfg": cfg, "behaviours": len(scripts),
                                "distinct_states": r.get("distinct", 0), "transitions": r.get("states", 0)})
        return scripts

    # ---------------------------------------------------------------- traces
    def path(self, name):
        return os.path.join(self.dir, name)

    def drive(self, cmd, out, timeout):
        """Run a driver that writes trace `out`.  A crash of the process is an event of the trace."""
        rc, o = run_proc(cmd, timeout, extra_env={"VERIF_SCRATCH": self.dir})
        if rc == 2 or not os.path.exists(out):
            raise ToolError("driver failed (%s): %s\n%s" % (rc, " ".join(cmd), o[-3000:]))
        if rc != 0:
            data = open(out, "rb").read()
            cut = data.rfind(b"\n") + 1
            with open(out, "wb") as f:
                f.write(data[:cut])
                ev = {"op": "hang" if rc is None else "crash", "what": "driver ended with %s" % rc, "msg": o[-300:]}
                f.write((json.dumps(ev) + "\n").encode())

    def campaign(self, name, spec, cmds, cfg=None, timeout=400, drive_timeout=300, mem="3g", env_extra=None,
                 nontrivial=None):
        """cmds: list of commands (as argv with OUT standing for the trace file); each is one shard."""
        def shard(ix):
            if self.stop:
                return None     # enough is known
            out = self.path("%s-%d.ndjson" % (name, ix))
            cmd = [out if a == "OUT" else a.replace("OUT", out) if a.startswith("out=") else a for a in cmds[ix]]
            self.drive(cmd, out, drive_timeout)
            r = tlc(spec, cfg, trace=out, timeout=timeout, mem=mem, extra_env=env_extra)
            with self.lock2:
                self.judge(name, spec, out, cmd, r)
                if self.violations and time.time() - self.t0 > 200:
                    self.stop = True

        t = time.time()
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(shard, range(len(cmds))))
        self.notes.append("%s: %d shards in %.0fs" % (name, len(cmds), time.time() - t))

    def judge(self, name, spec, out, cmd, r):
        lines = [l for l in open(out, errors="replace") if l.strip()]
        starts = []
        cur = None
        for n, l in enumerate(lines):
            ev = json.loads(l)
            op = ev.get("op", "?")
            k = op + (":" + str(ev["cmd"]) if "cmd" in ev and isinstance(ev["cmd"], str) else "")
            self.ops[k] = self.ops.get(k, 0) + 1
            if op == "new":
                starts.append(n)
        self.events += len(lines)
        self.traces += len(starts)
        for a, b in zip(starts, starts[1:] + [len(lines)]):
            if b - a > 2:
                self.hashes.add(hashlib.md5("".join(lines[a:b]).encode()).hexdigest())
        if not self.samples and starts:
            self.samples.append({"campaign": name, "events": [json.loads(x) for x in lines[starts[0]:starts[0] + 4]]})
        self.transitions += r.get("states", 0)
        if r["mismatches"]:
            for m in r["mismatches"]:
                self.report(name, spec, out, cmd, lines, m["line"], m)
        if r["done"] != len(lines):
            if r["error"] and not RESOURCE.search(r["error"]) and not r.get("timeout"):
                # the specification could not even evaluate the observed event
                m = re.findall(r"^/\\ i = (\d+)", r["out"], re.M)
                at = int(m[-1]) if m else 1
                self.report(name, spec, out, cmd, lines, at, {"line": at, "evaluation": r["error"][:1500]})
            else:
                sys.stdout.write(r["out"][-3000:])
                raise ToolError("TLC did not finish trace %s (%s of %d): %s" % (out, r["done"], len(lines), r["error"]))

    def report(self, name, spec, out, cmd, lines, at, m):
        if "tags" in m and self.prop not in m["tags"]:
            self.foreign += 1       # decided by the checks of those properties
            return
        start = at - 1
        while start > 0 and json.loads(lines[start]).get("op") != "new":
            start -= 1
        ev = json.loads(lines[at - 1]) if at - 1 < len(lines) else {}
        for k in self.known:
            if self.matches(k["match"], name, ev, m):
                self.known_seen.append(k)
                return
        rp = self.path("violation-%d.json" % (len(self.violations) + 1))
        with open(rp, "w") as f:
            json.dump({"property": self.prop, "campaign": name, "spec": spec, "command": cmd,
                       "trace_file": out, "line": at, "event": ev, "specification_allows": m,
                       "history": [json.loads(x) for x in lines[start:at]]}, f, indent=1, ensure_ascii=False)
        self.violations.append(rp)
        if len(self.violations) <= 5:
            print("  %s line %d: %s\n    specification: %s" % (
                os.path.basename(out), at, json.dumps(ev, ensure_ascii=False)[:600], json.dumps(m, ensure_ascii=False)[:600]))

    @staticmethod
    def matches(pat, name, ev, m):
        for k, v in pat.items():
            if k == "campaign":
                if name != v:
                    return False
            elif k.endswith("~"):
                if not re.search(v, json.dumps(ev.get(k[:-1], ""), ensure_ascii=False)):
                    return False
            elif ev.get(k) != v:
                return False
        return True

    # ---------------------------------------------------------------- result
    def finish(self, rule, level="model_checking"):
        cov = {
            "states": self.states, "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "trace_events": self.events,
            "evaluations": self.traces, "distinct_nontrivial": len(self.hashes), "rule": rule,
            "design_models": self.design[:20],
            "events_by_kind": dict(sorted(self.ops.items(), key=lambda x: -x[1])[:60]),
            "samples": self.samples[:2],
            "campaigns": self.notes,
            "mismatches_of_other_properties": self.foreign,
        }
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        txt = json.dumps(ev, indent=1, ensure_ascii=False)
        if len(txt) > 60000:
            cov["samples"] = [str(cov["samples"])[:2000]]
            txt = json.dumps(ev, indent=1, ensure_ascii=False)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            f.write(txt)
        seen = set()
        for k in self.known:
            hit = k in self.known_seen
            if hit and k["what"] not in seen:
                seen.add(k["what"])
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        for n in self.notes:
            print("  " + n)
        print("%s %s: %d design states, %d traces (%d events) validated, %d violations, %.0fs" % (
            self.prop, self.tier, self.states, self.traces, self.events, len(self.violations), time.time() - self.t0))
        if self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, self.violations[0]))
            return 1
        # keep the disk small
        for f in glob.glob(os.path.join(self.dir, "*.ndjson")):
            os.remove(f)
        return 0


def hbin(name):
    return os.path.join(TARGET, "debug", name)
