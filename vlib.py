"""Shared machinery of the checks: building the harness, running it contained, running TLC, reporting."""
import fcntl, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(VERIF, "build")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"


class ToolError(Exception):
    pass


def env_build():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             RUSTC_WRAPPER="")
    e.setdefault("HOME", "/root")
    return e


_locks = {}
_mu = threading.Lock()


# which harness program has a command
PROGRAM = {"driver-replay": "drv", "driver-real": "drv", "fv-eval": "fv", "fv-lim": "fv", "fv-bc": "fv", "fv-fine": "fv", "fv-cfl": "st", "fv-st": "st", "fv-pair": "st",
           "run-uni": "runs", "run-mir": "runs", "run-tot": "runs", "rk-tab": "rk", "rk-stages": "rk", "rk-control": "rk", "rk-real": "rk",
           "val-replay": "val", "val-real": "val", "wr-replay": "wr", "wr-rand": "wr", "wr-runs": "wr", "wr-ind": "wr", "cfg-replay": "cfg", "ic": "cfg", "ready": "cfg",
           "mesh": "geo", "units": "geo", "rep": "rep",
           "sym-scale": "sym", "sym-shift": "sym"}


def build_harness(validation=True, programs=None):
    """Builds harness programs (default: all) against /repo's working tree; returns their folder."""
    name = "target" if validation else "target-noval"
    with _mu:
        lk = _locks.setdefault(name, threading.Lock())
    with lk:
        os.makedirs(BUILD, exist_ok=True)
        with open(os.path.join(BUILD, name + ".lock"), "w") as lf:
            fcntl.flock(lf, fcntl.LOCK_EX)
            target = os.path.join(BUILD, name)
            cmd = ["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(VERIF, "harness", "Cargo.toml"),
                   "--target-dir", target]
            for p in programs or []:
                cmd += ["--bin", p]
            if not validation:
                cmd.append("--no-default-features")
            p = subprocess.run(cmd, env=env_build(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=840,
                               cwd=os.path.join(VERIF, "harness"))
            if p.returncode != 0:
                raise ToolError("building the harness failed:\n" + p.stdout[-4000:])
            return os.path.join(target, "debug")


class Check:
    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="corries-vp-", dir="/tmp")
        os.chmod(self.scratch, 0o755)
        self.spec = os.path.join(self.scratch, "spec")
        shutil.copytree(os.path.join(VERIF, "spec"), self.spec)
        self.bins = {}
        self.mu = threading.Lock()
        self.rejects = []        # (label, text, case lines)
        self.states = self.transitions = 0
        self.model_states = 0
        self.traces = self.events = 0
        self.kinds = {}
        self.classes = {}        # how the specification classified the cases ("CLASS name" lines)
        self.samples = []
        self.notes = []
        self.models = []
        self.n = 0

    # --- harness -------------------------------------------------------------
    def need(self, *programs, validation=True):
        """Builds programs and copies them to where the unprivileged user can run them."""
        with self.mu:
            miss = [p for p in programs if (p, validation) not in self.bins]
        if not miss:
            return
        b = build_harness(validation, miss)
        with self.mu:
            for p in miss:
                if (p, validation) not in self.bins:
                    dst = os.path.join(self.scratch, "%s-%s" % (p, "val" if validation else "noval"))
                    shutil.copy(os.path.join(b, p), dst)
                    os.chmod(dst, 0o755)
                    self.bins[(p, validation)] = dst

    def bin(self, cmd, validation=True):
        self.need(PROGRAM[cmd], validation=validation)
        return self.bins[(PROGRAM[cmd], validation)]

    def workdir(self):
        with self.mu:
            self.n += 1
            d = os.path.join(self.scratch, "w%d" % self.n)
        os.mkdir(d)
        try:
            os.chown(d, 65534, 65534)
        except OSError:
            os.chmod(d, 0o777)
        return d

    def harness(self, cmd, *args, validation=True, threads=2, seed=None, timeout=420, stdout=False, d=None):
        """Runs a harness command as an unprivileged user inside its own scratch folder; returns the trace's path."""
        b = self.bin(cmd, validation)
        d = d or self.workdir()
        out = os.path.join(d, "trace.ndjson")
        env = {"PATH": "/usr/bin:/bin", "HOME": d, "TMPDIR": d, "VERIF_SEED": str(SEED if seed is None else seed), "VERIF_TIER": TIER,
               "RAYON_NUM_THREADS": str(threads), "RUST_BACKTRACE": "0"}
        if os.environ.get("HDEBUG"):
            env["HDEBUG"] = "1"
        argv = [b, cmd, out, d] + [str(a) for a in args]
        kw = dict(env=env, cwd=d, stdin=subprocess.DEVNULL, stdout=open(os.path.join(d, "stdout"), "wb"),
                  stderr=open(os.path.join(d, "stderr"), "wb"), start_new_session=True)
        try:
            p = subprocess.Popen(argv, user=65534, group=65534, extra_groups=[], **kw)
        except (PermissionError, OSError):
            p = subprocess.Popen(argv, **kw)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            self.reject(self.pid, "the real code did not finish: %s %s" % (cmd, args), [])
            return None
        if rc == 2:
            raise ToolError("harness: " + open(os.path.join(d, "stderr"), errors="replace").read()[-2000:])
        if rc != 0:
            self.reject(self.pid, "the real code ended the process (%d): %s %s: %s" % (
                rc, cmd, args, open(os.path.join(d, "stderr"), errors="replace").read()[-500:]), [])
            return None
        return out

    # --- TLC -----------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, args=(), timeout=800, workers=4, heap="6g"):
        with self.mu:
            self.n += 1
            meta = os.path.join(self.scratch, "tlc%d" % self.n)
        os.mkdir(meta)
        e = dict(os.environ)
        e.update(env or {})
        e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss64m -XX:+UseParallelGC -Djava.io.tmpdir=%s" % (heap, meta)
        cmd = ["tlc", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", (cfg or module) + ".cfg"] + list(args) + [module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=self.spec, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on " + module)
        shutil.rmtree(meta, ignore_errors=True)
        return p.returncode, p.stdout

    @staticmethod
    def counts(out):
        m = re.findall(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", out)
        if not m:
            return 0, 0
        g, d = m[-1]
        return int(g.replace(",", "")), int(d.replace(",", ""))

    def model(self, module, cfg=None, min_states=1, env=None, timeout=800, workers=4):
        """Exhaustive model checking of a specification module (independent of the code unless env says so)."""
        rc, out = self.tlc(module, cfg, env=env, timeout=timeout, workers=workers)
        g, d = self.counts(out)
        if rc != 0 or "No error has been found" not in out:
            raise ToolError("model %s/%s: %s" % (module, cfg, out[-3000:]))
        if d < min_states:
            raise ToolError("model %s/%s is vacuous: %d states" % (module, cfg, d))
        with self.mu:
            self.states += d
            self.model_states += d
            self.transitions += g
            self.models.append({"model": cfg or module, "distinct_states": d, "states_generated": g})

    def refuted(self, module, cfg, timeout=800, workers=4, env=None):
        """A deliberately broken variant of a specification; TLC must find the violation (or the invariants are vacuous)."""
        rc, out = self.tlc(module, cfg, timeout=timeout, workers=workers, env=env)
        m = re.search(r"Invariant (\w+) is violated", out)
        if not m:
            raise ToolError("broken model %s/%s is not refuted: %s" % (module, cfg, out[-2000:]))
        with self.mu:
            self.models.append({"model": cfg, "broken_variant_refuted_by": m.group(1)})

    def gen(self, module, cfg, num, depth=200, seed=None, timeout=300):
        """Behaviours of a model, generated by TLC in simulation mode, one JSON value per line."""
        rc, out = self.tlc(module, cfg, args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(SEED if seed is None else seed)],
                           timeout=timeout, workers=1)
        lines = [json.loads(x)[4:] for x in out.splitlines() if x.startswith('"GEN ')]
        if not lines:
            raise ToolError("no behaviours generated from %s: %s" % (cfg, out[-2000:]))
        lines = sorted(set(lines))
        d = self.workdir()
        path = os.path.join(d, "scripts")
        with open(path, "w") as f:
            f.write("\n".join(lines) + "\n")
        os.chmod(path, 0o644)
        return path, len(lines)

    def genset(self, module, cfg, timeout=300, env=None, seed=None, keep=None, workers=1):
        """All terminal behaviours printed by an exhaustive run (at most keep of them, chosen by the seed)."""
        s = SEED if seed is None else seed
        rc, out = self.tlc(module, cfg, timeout=timeout, workers=workers, env=env, args=["-seed", str(s)])
        if rc != 0:
            raise ToolError("generation with %s: %s" % (cfg, out[-2000:]))
        g, dd = self.counts(out)
        with self.mu:
            self.states += dd
            self.model_states += dd
            self.transitions += g
            self.models.append({"model": cfg, "distinct_states": dd, "states_generated": g})
        lines = sorted(set(json.loads(x)[4:] for x in out.splitlines() if x.startswith('"GEN ')))
        if not lines:
            raise ToolError("no behaviours generated from %s: %s" % (cfg, out[-2000:]))
        if keep is not None and len(lines) > keep:
            lines = sorted(random.Random(s).sample(lines, keep))
        d = self.workdir()
        path = os.path.join(d, "scripts")
        with open(path, "w") as f:
            f.write("\n".join(lines) + "\n")
        os.chmod(path, 0o644)
        return path, len(lines)

    def trace(self, module, path, cfg=None, timeout=800, workers=4, env=None, labels=None, start="cfg"):
        """Checks a recorded trace against a trace specification; rejections of this property are collected."""
        if path is None:
            return
        with open(path) as f:
            lines = f.read().splitlines()
        starts = [i for i, x in enumerate(lines) if start is None or '"ev":"%s"' % start in x]
        if not starts:
            raise ToolError("empty trace for " + module)
        e = {"TRACE": path}
        e.update(env or {})
        rc, out = self.tlc(module, cfg, env=e, timeout=timeout, workers=workers)
        done = out.count('"CASE ')
        if (rc != 0 or done != len(starts)) and "java.lang.OutOfMemory" not in out and ("finished in" in out.lower() or "Error:" in out):
            # what was recorded is so far from the specification that it cannot even be evaluated
            self.reject(self.pid, "%s could not follow the trace (%d of %d cases): %s" % (
                module, done, len(starts), " ".join(out[out.find("Error:"):].split())[:300]), lines[:50])
            return out
        if rc != 0 or done != len(starts):
            raise ToolError("%s could not follow the trace (%d of %d cases, rc %d): %s" % (module, done, len(starts), rc, out[-3000:]))
        g, d = self.counts(out)
        classes = re.findall(r'"CLASS ([\w.-]+)"', out)
        rej = {}
        for m in re.finditer(r'"REJECT (\w+) (\d+)"', out):
            rej.setdefault((m.group(1), int(m.group(2))), None)
        for (label, line) in sorted(rej):
            if labels is None and label != self.pid:
                continue
            if labels is not None and label not in labels:
                continue
            s = max(i for i in starts if i <= line - 1)
            nxt = [i for i in starts if i > s]
            case = lines[s:(nxt[0] if nxt else len(lines))]
            self.reject(label, "%s rejects line %d: %s" % (module, line, lines[line - 1][:600]), case)
        with self.mu:
            self.states += d
            self.transitions += g
            self.traces += len(starts)
            self.events += len(lines)
            for x in classes:
                self.classes[x] = self.classes.get(x, 0) + 1
            for x in lines:
                m = re.search(r'"ev":"(\w+)"', x)
                if m:
                    k = module + ":" + m.group(1)
                    self.kinds[k] = self.kinds.get(k, 0) + 1
            if len(self.samples) < 4:
                s = starts[len(starts) // 2]
                self.samples.append({"trace_spec": module, "case": [x[:400] for x in lines[s:s + 4]]})
        return out

    # --- reporting -----------------------------------------------------------
    def reject(self, label, text, case):
        with self.mu:
            self.rejects.append((label, text, case))

    def parallel(self, *fns):
        with ThreadPoolExecutor(max_workers=8) as ex:
            for f in [ex.submit(f) for f in fns]:
                f.result()

    def finish(self, rule, assumptions=(), extra=None):
        known = []
        kf = os.path.join(VERIF, "known-findings.txt")
        if os.path.exists(kf):
            for line in open(kf):
                m = re.match(r"known: property=(\w+) match=/(.*?)/ (.*)", line.strip())
                if m and m.group(1) == self.pid:
                    known.append((re.compile(m.group(2)), m.group(3)))
        printed, fresh = set(), []
        for (label, text, case) in self.rejects:
            hit = [k for k in known if k[0].search(text + "\n" + "\n".join(case))]
            if hit:
                if hit[0][1] not in printed:
                    printed.add(hit[0][1])
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, hit[0][1]))
            else:
                fresh.append((label, text, case))
        replay = None
        if fresh:
            d = os.path.join(BUILD, "violations")
            os.makedirs(d, exist_ok=True)
            replay = os.path.join(d, "%s.txt" % self.pid)
            with open(replay, "w") as f:
                for (label, text, case) in fresh[:20]:
                    f.write("# %s\n" % text)
                    f.write("\n".join(case[:4000]) + "\n")
        cov = {
            "states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
            "evaluations": self.traces, "trace_events": self.events, "events_by_kind": self.kinds,
            "cases_by_class": self.classes,
            "models": self.models, "rule": rule, "samples": self.samples[:4] or [{"note": "no trace"}],
        }
        cov["distinct_nontrivial"] = (extra or {}).pop("distinct_nontrivial", self.traces) if extra else self.traces
        cov.update(extra or {})
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for (label, text, _) in fresh[:5]:
            print("  " + text[:300])
        print("%s: %d cases, %d events, %d states, %.1f s, %d violation(s)" % (
            self.pid, self.traces, self.events, self.states, time.time() - self.t0, len(fresh)))
        if fresh:
            print("VIOLATION property=%s replay=%s" % (self.pid, replay))
            return 1
        return 0

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
