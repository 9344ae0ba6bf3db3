"""Runs a check: build the harness against /repo, explore the models, execute plans, validate traces."""
import json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

from . import keys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.environ.get("VK_SPEC") or os.path.join(VERIF, "spec")   # (VK_SPEC: tools/selftest.py)
REPO = "/repo"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = 8


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


def cargo_env(**kw):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0",
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "")
    e.pop("RUSTFLAGS", None)
    e.update(kw)
    return e


class Check:
    def __init__(self, pid, technique_level="model_checking"):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.thorough = self.tier == "thorough"
        self.rng = random.Random("%s/%s/%d" % (pid, self.tier, self.seed))
        self.dir = os.path.join(VERIF, "build", pid)
        os.makedirs(self.dir, exist_ok=True)
        self.t0 = time.time()
        self.level = technique_level
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.events = 0
        self.kinds = {}
        self.known = load_known(pid)
        self.found = set()
        self.notes = []
        self.serial = 0
        self.models = []

    def log(self, *a):
        print("[%s %5.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # ---------------------------------------------------------------- build
    def build(self, types, features, tag=""):
        """Build the harness with these key types and operations; returns the binary."""
        kf = os.path.join(self.dir, "keys%s.rs" % tag)
        new = kf + ".new"
        keys.emit(types, new)
        if not os.path.exists(kf) or open(kf).read() != open(new).read():
            os.replace(new, kf)
        else:
            os.remove(new)
        target = os.path.join(VERIF, "build", "target" if os.environ.get("VERIF_SHARED_TARGET") else self.pid + "/target")
        hd = os.path.join(VERIF, "harness")
        cmd = ["cargo", "build", "--offline", "--locked", "--quiet", "--manifest-path", hd + "/Cargo.toml"]
        if features:
            cmd += ["--features", " ".join(features)]
        p = subprocess.run(cmd, env=cargo_env(VERIF_KEYS=kf, CARGO_TARGET_DIR=target), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            errs = [l for l in p.stdout.splitlines() if l.startswith("error")]
            raise ToolError("the harness does not build:\n" + "\n".join(errs[:20]) + "\n" + p.stdout[-3000:])
        out = os.path.join(self.dir, "harness%s" % tag)
        shutil.copy2(os.path.join(target, "debug", "fixed-map-harness"), out)
        self.bin = out
        self.types = types
        self.log("built harness: %d key types, features %s" % (len(types), " ".join(features)))
        return out

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=1, heap="3g", timeout=800, extra=()):
        """Run TLC; returns (exit code, output)."""
        self.serial += 1
        meta = os.path.join(self.dir, "tlc", "%s-%d" % (module, self.serial))
        shutil.rmtree(meta, ignore_errors=True)
        os.makedirs(meta)
        cf = os.path.join(meta, "run.cfg")
        open(cf, "w").write(cfg)
        cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-cp", CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta + "/m", "-noGenerateSpecTE", "-config", cf, *extra,
               os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, env=e, cwd=meta, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on %s" % module)
        return p.returncode, p.stdout

    def model(self, module, cfg, what, workers=JOBS, timeout=700, env=None, heap="8g", min_states=1):
        """Exhaustively check a model of the specification itself."""
        rc, out = self.tlc(module, cfg, workers=workers, timeout=timeout, env=env, heap=heap)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if rc != 0 or not m:
            raise ToolError("model %s is not satisfied or did not run (exit %d):\n%s" % (module, rc, out[-3000:]))
        gen, dist = int(m.group(1)), int(m.group(2))
        if dist < min_states:
            raise ToolError("model %s explored only %d states" % (module, dist))
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.models.append({"module": module, "what": what, "distinct_states": dist, "transitions": gen})
        self.log("model %s: %d states, %d transitions (%s)" % (module, dist, gen, what))
        return out

    # ---------------------------------------------------------------- traces
    def harness(self, plan, trace, tag=""):
        p = subprocess.run([self.bin, plan, trace], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=700)
        if p.returncode != 0:
            err = p.stderr.decode(errors="replace")[-2000:]
            if p.returncode == 101 or (p.returncode != 86 and p.returncode > 0 and p.returncode < 128):
                raise ToolError("harness failed (%d): %s" % (p.returncode, err))
            if p.returncode != 86:
                # the process died: keep the complete lines and say so
                data = open(trace, "rb").read()
                data = data[: data.rfind(b"\n") + 1]
                with open(trace, "wb") as f:
                    f.write(data)
                    f.write(json.dumps({"e": "crash", "code": p.returncode}).encode() + b"\n")
        if os.path.getsize(trace) == 0:
            raise ToolError("empty trace")

    def validate(self, trace, module):
        """None if the trace is a behaviour of the specification, else the number of the bad line (from 1)."""
        rc, out = self.tlc(module, "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION Reached\n",
                           env={"TRACE": trace}, workers=1, timeout=800)
        m = re.search(r'<<"REACHED", (\d+), (\d+)>>', out)
        if m and rc == 0:
            reached, n = int(m.group(1)), int(m.group(2))
            if reached == n + 1:
                return None, n, out
            return reached, n, out
        # TLC stopped evaluating: which line was it looking at?
        if "OutOfMemory" in out or "StackOverflow" in out or re.search(r"k=\d+ and n=\d+", out):
            raise ToolError("TLC ran out of resources:\n" + out[-1500:])
        if re.search(r"Parsing|Semantic errors|Could not (find|parse)|was not found|ConfigFileException", out) and "Error:" in out and "evaluat" not in out:
            raise ToolError("TLC failed:\n" + out[-3000:])
        ls = re.findall(r"^/\\ l = (\d+)", out, re.M)
        if ls:
            return int(ls[-1]), 0, out
        m = re.search(r"(\d+) states generated", out)
        raise ToolError("TLC failed on %s:\n%s" % (trace, out[-3000:]))

    def conform(self, sessions, module, label, chunks=JOBS):
        """Execute the sessions on the library and check every trace against `module`."""
        if not sessions:
            raise ToolError("no sessions for " + label)
        for i, s in enumerate(sessions):
            s["s"] = i
            s["T"] = keys.ast(self.types[s["ty"]])
            for op in s["ops"] if s["cont"] in ("map", "set") else []:
                if op[0] in ("iter", "inter"):
                    # searching and consuming, in any of the ways there are
                    op[3] = [(x + [0])[:3] + [self.rng.choice([0, self.rng.randrange(9)])] if x[0] in ("find", "rfind", "fold", "rfold") and len(x) < 4 else x
                             for x in op[3]]
            if s["cont"] in ("map", "set") and keys.block(self.types[s["ty"]]) > 6:
                # which keys of a large unordered block were skipped is unknown: skip none, or all
                for op in s["ops"]:
                    if op[0] in ("iter", "inter"):
                        op[3] = [[x[0], x[1], 0 if x[2] < 3 else 9999] if x[0] in ("nth", "nthb") else x for x in op[3]]
        # balance by weight
        order = sorted(range(len(sessions)), key=lambda i: -len(json.dumps(sessions[i]["ops"])))
        parts = [[] for _ in range(min(chunks, len(sessions)))]
        load = [0] * len(parts)
        for i in order:
            j = load.index(min(load))
            parts[j].append(sessions[i])
            load[j] += len(json.dumps(sessions[i]["ops"])) + 50

        def one(j):
            base = os.path.join(self.dir, "%s-%d" % (label, j))
            with open(base + ".plan", "w") as f:
                for s in parts[j]:
                    f.write(json.dumps(s, separators=(",", ":")) + "\n")
            self.harness(base + ".plan", base + ".trace")
            bad, n, out = self.validate(base + ".trace", module)
            return base, bad, out

        with ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(one, range(len(parts))))
        total = 0
        for base, bad, out in res:
            with open(base + ".trace") as f:
                for line in f:
                    total += 1
                    m = re.search(r'"e":"(\w+)"', line)
                    if m:
                        self.kinds[m.group(1)] = self.kinds.get(m.group(1), 0) + 1
        self.events += total
        self.cov["traces_validated_against_impl"] += len(sessions)
        for base, bad, out in res:
            for tag in set(re.findall(r'<<"KNOWN", "([\w-]+)">>', out)):
                self.finding(tag, {"spec": module, "finding": tag, "plan": open(base + ".plan").read()[:200000]}, label)
            if bad is not None:
                self.reject(base, bad, out, module, label)
        s = sessions[self.rng.randrange(len(sessions))]
        self.cov["samples"].append({"label": label, "type": s["ty"], "ops": s["ops"][:12]})
        self.log("%s: %d sessions, %d events accepted by %s" % (label, len(sessions), total, module))

    def finding(self, tag, rep, label=""):
        """A deviation the specification names: reported quietly only if it is listed."""
        if tag not in self.known:
            self.violation("deviation %s, which is not a listed finding" % tag, rep, label)
        self.found.add(tag)

    def reject(self, base, bad, out, module, label):
        lines = open(base + ".trace").read().splitlines()
        ev = json.loads(lines[bad - 1]) if bad <= len(lines) else {}
        i = bad - 1
        while i > 0 and '"e":"begin"' not in lines[i]:
            i -= 1
        begin = json.loads(lines[i])
        sess = None
        for l in open(base + ".plan"):
            s = json.loads(l)
            if s["s"] == begin.get("s"):
                sess = s
        rep = {"property": self.pid, "spec": module, "key_type": begin.get("ty"), "declaration": self.decl(begin.get("ty")),
               "rejected_event": ev, "events_before": [json.loads(x) for x in lines[max(i, bad - 15): bad - 1]],
               "session": sess, "seed": self.seed, "tier": self.tier}
        m = re.search(r"Error: (.*?)\n\n", out, re.S)
        if m:
            rep["tlc"] = m.group(1)[:600]
        self.violation("key type %s: %s is not allowed by %s" % (begin.get("ty"), json.dumps(ev)[:300], module), rep, label)

    def decl(self, ty):
        t = self.types.get(ty)
        return "".join(keys.decl(x) for x in keys.closure([t])) if t else None

    def violation(self, what, rep, label=""):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (self.pid, label or "v"))
        json.dump(rep, open(path, "w"), indent=1)
        raise Violation(what, path)

    # ---------------------------------------------------------------- result
    def evidence(self, violations):
        self.cov["events"] = self.events
        self.cov["event_kinds"] = dict(sorted(self.kinds.items()))
        self.cov["models"] = self.models
        if self.notes:
            self.cov["notes"] = self.notes
        self.cov["samples"] = self.cov["samples"][:6] or ["none"]
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "wall_s": round(time.time() - self.t0, 2), "violations": violations,
              "assumptions": [
                  "the specification states the property correctly (its own laws are checked by TLC)",
                  "the harness reports what the library answered (plain calls, no reinterpretation)",
                  "key types and histories outside the generated ones behave like those generated"]}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)

    def clean(self):
        for n in os.listdir(self.dir):
            if n.endswith((".trace", ".plan")):
                os.remove(os.path.join(self.dir, n))
        shutil.rmtree(os.path.join(self.dir, "tlc"), ignore_errors=True)


def load_known(pid):
    """known-findings.txt: lines 'known: property=<id> finding=<tag> <what fails>' and 'fixed: ...'."""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\w+) finding=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out


def run(pid, fn, level="model_checking"):
    c = Check(pid, level)
    try:
        fn(c)
        for tag in sorted(c.found):
            print("KNOWN-FINDING: property=%s %s" % (pid, c.known[tag]), flush=True)
        c.evidence(0)
        c.clean()
        c.log("property held on everything explored")
        return 0
    except Violation as v:
        c.evidence(1)
        print("VIOLATION property=%s replay=%s" % (pid, v.replay), flush=True)
        print(v.what, flush=True)
        return 1
    except ToolError as e:
        print("TOOL-ERROR %s: %s" % (pid, e), flush=True)
        return 2
