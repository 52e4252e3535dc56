#!/usr/bin/env python3
"""check.py ID: decides property ID for the code in /repo's working tree.

Every check has the same shape (see DESIGN.md):
  model     TLC explores a design model of the specification exhaustively and
            checks the property's invariants on it;
  generate  TLC walks the specification at random and writes behaviours, which
            the driver replays on the real code;
  validate  the driver (built from /repo's working tree) records what the real
            code does, and TLC checks that the specification allows it.
Exit 0: held. Exit 1 and a VIOLATION line: the real code broke the property.
Anything else: the check itself failed.
"""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
if "--thorough" in sys.argv:
    os.environ["VERIF_TIER"] = "thorough"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
THOROUGH = TIER == "thorough"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(V, "spec")
OUT = os.path.join(V, "out")


class CheckError(Exception):
    pass


class Violation(Exception):
    pass


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.steps = []
        self.violations = []
        self.known_hits = []
        self.lock = threading.Lock()
        os.makedirs(OUT, exist_ok=True)
        self.tmp = tempfile.mkdtemp(prefix="%s-" % pid, dir=OUT)
        self.replays = os.path.join(OUT, "replay")
        os.makedirs(self.replays, exist_ok=True)
        self.bin = os.path.join(self.tmp, "vh")

    # ---------------------------------------------------------------- tools
    def build(self, out=None, flags=(), env=None):
        e = dict(os.environ)
        e.update(env or {})
        r = subprocess.run([os.path.join(V, "tools", "build.sh"), out or self.bin, *flags],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e)
        if r.returncode != 0:
            raise CheckError("build failed:\n" + r.stdout.decode(errors="replace"))

    def tlc(self, module, cfg, env=None, workers=8, args=(), timeout=int(os.environ.get("VERIF_TLC_TIMEOUT", "800" if not THOROUGH else "7200")), mem="6g"):
        """Runs TLC; returns (exit code, output)."""
        md = tempfile.mkdtemp(prefix="tlc-", dir=self.tmp)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xmx" + mem, "-Xss256m", "-Djava.io.tmpdir=" + md, "-cp", JARS, "tlc2.TLC",
               "-noGenerateSpecTE", "-workers", str(workers), "-metadir", md,
               "-config", cfg, *args, module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out: " + module + " " + cfg)
        shutil.rmtree(md, ignore_errors=True)
        return r.returncode, r.stdout.decode(errors="replace")

    def count(self, out):
        m = re.findall(r"^([\d,]+) states generated, ([\d,]+) distinct states found", out, re.M)
        g = d = 0
        if m:
            g, d = (int(x.replace(",", "")) for x in m[-1])
        else:
            m = re.findall(r"The number of states generated: ([\d,]+)", out)
            if m:
                g = d = int(m[-1].replace(",", ""))
        with self.lock:
            self.states += d
            self.transitions += g
        return g, d

    # ---------------------------------------------------------------- steps
    def model(self, module, cfg=None, refuted=None, **kw):
        """Exhaustive check of a design model; refuted: the invariant that this (bad) design breaks."""
        t = time.time()
        rc, out = self.tlc(module, cfg or module + ".cfg", **kw)
        if refuted and rc == 12 and "Invariant %s is violated" % refuted in out:
            with self.lock:
                self.steps.append({"step": "model", "module": module, "config": cfg, "refuted": refuted,
                                   "wall_s": round(time.time() - t, 1)})
            return
        if rc != 0 or refuted:
            raise CheckError("model %s/%s: TLC exit %d\n%s" % (module, cfg, rc, out[-3000:]))
        g, d = self.count(out)
        with self.lock:
            self.steps.append({"step": "model", "module": module, "config": cfg or module + ".cfg",
                               "states": d, "transitions": g, "wall_s": round(time.time() - t, 1)})

    def refute(self, module, cfg=None, **designs):
        """TLC must refute every alternative design: the model can tell.  designs: Design -> property that it breaks."""
        t = time.time()
        text = open(os.path.join(SPEC, cfg or module + ".cfg")).read()
        assert text.count('Design = "code"') == 1
        def one(design, prop):
            path = os.path.join(self.tmp, "%s-%s.cfg" % (module, design))
            with open(path, "w") as f:
                f.write(text.replace('Design = "code"', 'Design = "%s"' % design))
            rc, out = self.tlc(module, path, workers=1, mem="2g")
            if not re.search(r"(Invariant|Action property) %s is violated" % prop, out):
                raise CheckError("model %s: the design %s is not refuted by %s: TLC exit %d\n%s" % (module, design, prop, rc, out[-3000:]))
        for design, prop in designs.items():
            one(design, prop)
        with self.lock:
            self.steps.append({"step": "refute", "module": module, "designs": sorted(designs), "wall_s": round(time.time() - t, 1)})

    def generate(self, module, cfg, num, depth, name="behaviours", env=None, sim_seed=None):
        """Random behaviours of a specification (all states of it if num is None), as inputs for the
        driver, one JSON value per line.  The module writes them to BEH_OUT (see BehBase.tla)."""
        t = time.time()
        path = os.path.join(self.tmp, name + ".ndjson")
        e = {"BEH_OUT": path}
        e.update(env or {})
        rc, out = self.tlc(module, cfg, env=e, workers=1,
                           args=() if num is None else
                           ("-simulate", "num=%d" % num, "-depth", str(depth),
                            "-seed", str((sim_seed or SEED) * 7919 + 13)))
        if rc != 0:
            raise CheckError("generate %s/%s: TLC exit %d\n%s" % (module, cfg, rc, out[-3000:]))
        self.count(out)
        n = sum(1 for _ in open(path)) if os.path.exists(path) else 0
        if n == 0:
            raise CheckError("generate %s: no behaviours\n%s" % (module, out[-2000:]))
        with self.lock:
            self.steps.append({"step": "generate", "module": module, "behaviours": n,
                               "wall_s": round(time.time() - t, 1)})
        return path

    def drive(self, mode, n=None, inputs=None, name=None, seed=None, extra=(), binary=None, limit="20s", wall=600, binenv=None):
        """Runs the driver; a fatal end of the process is attributed to the case it was running."""
        name = name or mode
        trace = os.path.join(self.tmp, name + ".trace")
        prog = os.path.join(self.tmp, name + ".progress")
        cmd = [binary or self.bin, "-mode", mode, "-seed", str(seed if seed is not None else SEED), "-out", trace,
               "-progress", prog, "-tier", TIER, "-limit", limit, *extra]
        if inputs:
            cmd += ["-in", inputs]
        else:
            cmd += ["-n", str(n)]
        # A runaway allocation must end the driver, not the sandbox.
        def lim():
            import resource
            if binary is None:
                resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        env = dict(os.environ, GOMEMLIMIT="6GiB", **(binenv or {}))
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=wall, preexec_fn=lim, env=env)
            rc, msg = r.returncode, r.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired:
            raise CheckError("driver timed out: " + " ".join(cmd))
        if rc == 3:
            raise CheckError("driver: " + msg[-2000:])
        if rc != 0:
            k = int(open(prog).read().strip() or -1)
            if k < 0:
                raise CheckError("driver died (%d) outside a case: %s" % (rc, msg[:3000]))
            return trace, {"k": k, "fail": "crash", "msg": msg[:3000]}
        return trace, None

    def case_input(self, mode, k, inputs, seed, extra):
        """The input of case k, without running it."""
        if inputs:
            with open(inputs) as f:
                lines = [l for l in f if l.strip()]
            return json.loads(lines[k])
        t = os.path.join(self.tmp, "case-%s-%d" % (mode, k))
        subprocess.run([self.bin, "-mode", mode, "-seed", str(seed if seed is not None else SEED), "-out", t,
                        "-tier", TIER, "-n", str(k + 1), "-only", str(k), "-dump", *extra], check=True)
        with open(t) as f:
            return json.loads(f.readline())

    def validate(self, mode, module, n=None, inputs=None, name=None, seed=None, extra=(), cfg="Trace.cfg",
                 env=None, workers=8, limit="20s", min_events=1, mem="6g", binary=None, tries=1, binenv=None):
        """Drives the real code and lets TLC check every recorded event.  tries > 1: what goes wrong depends
        on the schedule, so that it need not happen again; the record of it is the evidence."""
        t = time.time()
        name = name or (mode + ("-beh" if inputs else ""))
        kw = {"extra": extra, "binary": binary, "binenv": binenv}
        trace, crash = self.drive(mode, n=n, inputs=inputs, name=name, seed=seed, limit=limit, **kw)
        if crash:
            inp = self.case_input(mode, crash["k"], inputs, seed, extra)
            one = os.path.join(self.tmp, name + ".one")
            with open(one, "w") as f:
                f.write(json.dumps(inp) + "\n")
            for _ in range(tries):
                _, again = self.drive(mode, inputs=one, name=name + "-again", limit="60s", **kw)
                if again:
                    break
            if not again and tries > 1 and "DATA RACE" in crash["msg"]:
                again = crash
            if not again:
                # What earlier cases left behind may matter: the same run again.
                _, again = self.drive(mode, n=n, inputs=inputs, name=name + "-again", seed=seed, limit=limit, **kw)
                if again and again["k"] != crash["k"]:
                    again = None
            if not again:
                raise CheckError("driver died once, not reproduced: " + crash["msg"])
            self.report(mode, module, inp, {"fail": "crash", "msg": again["msg"]}, "the process was killed by a fatal error")
            return
        events = sum(1 for _ in open(trace))
        if events < min_events:
            raise CheckError("too few events: %d" % events)
        bad = self.judge(trace, module, cfg, env, workers, mem)
        if bad is not None:
            idx, why = bad
            with open(trace) as f:
                for j, line in enumerate(f):
                    if j == idx - 1:
                        ev = json.loads(line)
            # Run the case again, alone, in a fresh process.
            one = os.path.join(self.tmp, name + ".one")
            with open(one, "w") as f:
                f.write(json.dumps(ev["in"]) + "\n")
            tr2, crash2 = self.drive(mode, inputs=one, name=name + "-again", limit=alone(ev["out"]), **kw)
            if crash2:
                self.report(mode, module, ev["in"], crash2, "the process was killed by a fatal error")
                return
            bad2 = self.judge(tr2, module, cfg, env, 1, mem)
            if bad2 is None and not (isinstance(ev["out"], dict) and ev["out"].get("fail") == "hang"):
                # It depends on the schedule, or on what earlier cases in the process left behind; the record
                # of it is the evidence.
                self.report(mode, module, ev["in"], ev["out"], why, n=n, index=idx - 1,
                            seed=seed if seed is not None else SEED, walks=bool(inputs))
                return
            if bad2 is None:
                raise CheckError("event rejected once but not when run alone: %s\n%s" % (why, json.dumps(ev)[:2000]))
            ev2 = json.loads(open(tr2).readline())
            self.report(mode, module, ev["in"], ev2["out"], bad2[1])
            return
        with open(trace) as f:
            first = f.readline()
        with self.lock:
            self.traces += events
            if len(first) < 3000:
                self.samples.append(json.loads(first))
            else:
                self.samples.append({"mode": mode, "event": first[:1500] + "..."})
            self.steps.append({"step": "validate", "driver_mode": mode, "module": module, "events": events,
                               "wall_s": round(time.time() - t, 1)})

    def judge(self, trace, module, cfg, env, workers, mem="6g"):
        e = {"TRACE": trace}
        e.update(env or {})
        rc, out = self.tlc(module, cfg, env=e, workers=workers, mem=mem)
        self.count(out)
        if rc == 0:
            return None
        if "Invariant Accepted is violated" in out:
            i = re.findall(r"^/\\ at = (-?\d+)", out, re.M)
            b = re.findall(r'^/\\ bad = (.*?)(?=^\S*\n|^/\\|\Z|^\s*$)', out, re.M | re.S)
            return int(i[-1]), (b[-1].strip() if b else "?")
        if rc == 12 and re.search(r"Invariant \w+ is violated", out):
            i = re.findall(r"^/\\ at = (-?\d+)", out, re.M)
            return int(i[-1]), re.search(r"Invariant \w+ is violated", out).group(0)
        raise CheckError("validation with %s: TLC exit %d\n%s" % (module, rc, out[-4000:]))

    def report(self, mode, module, inp, out, why, **history):
        """history: how to run the cases before it as well, if it does not happen to the case alone."""
        with self.lock:
            k = len(self.violations)
            path = os.path.join(self.replays, "%s-%d-%d.json" % (self.pid, SEED, k))
            with open(path, "w") as f:
                json.dump({"property": self.pid, "mode": mode, "judged_by": module, "verdict": why,
                           "in": inp, "out": out, "after": history,
                           "rerun": "python3 check.py %s --replay THIS" % self.pid}, f, indent=1)
            self.violations.append((path, why))

    # ---------------------------------------------------------------- run
    def run(self, plan):
        t0 = time.time()
        self.build()
        plan(self)
        self.wall = time.time() - t0

    def parallel(self, *thunks):
        with concurrent.futures.ThreadPoolExecutor(max_workers=5) as ex:
            fs = [ex.submit(t) for t in thunks]
            err = None
            for f in fs:
                try:
                    f.result()
                except Exception as e:
                    err = err or e
            if err and not self.violations:
                raise err

    def evidence(self):
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces,
                           "samples": self.samples[:4], "steps": self.steps},
              "assumptions": ASSUMPTIONS,
              "wall_s": round(self.wall, 2), "violations": len(self.violations)}
        with open(os.path.join(V, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


ASSUMPTIONS = ["TLC evaluates the specification correctly", "the driver records the real code's results faithfully",
               "inputs are sampled, except where a step says exhaustive"]


def alone(out):
    """How long the case may take when it runs alone: one that seemed never to end among many others, on a
    busy machine, must still be slow by orders of magnitude (a case takes milliseconds); any other gets longer
    than it had."""
    return "10s" if isinstance(out, dict) and out.get("fail") == "hang" else "60s"


def replay(c, d):
    """Runs one recorded case again, on the code as it is now."""
    c.build()
    one = os.path.join(c.tmp, "one")
    with open(one, "w") as f:
        f.write(json.dumps(d["in"]) + "\n")
    trace, crash = c.drive(d["mode"], inputs=one, limit=alone(d["out"]))
    bad = (0, crash["msg"]) if crash else c.judge(trace, d["judged_by"], "Trace.cfg", None, 1)
    if bad:
        print("verdict:", bad[1][:1500])
    else:
        print("accepted")
    return 1 if bad else 0


def main():
    import plans
    pid = sys.argv[1]
    if pid not in plans.PLANS:
        print("no such property", pid)
        return 2
    c = Check(pid)
    try:
        if "--replay" in sys.argv:
            return replay(c, json.load(open(sys.argv[sys.argv.index("--replay") + 1])))
        c.run(plans.PLANS[pid])
        c.evidence()
        if c.violations:
            path, why = c.violations[0]
            print("verdict:", why[:1500])
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        for line in plans.known(pid):
            print(line)
        print("ok property=%s states=%d traces=%d wall=%.1fs" % (pid, c.states, c.traces, c.wall))
        return 0
    except CheckError as e:
        print("CHECK ERROR:", e)
        return 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(c.tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.path.insert(0, V)
    sys.exit(main())
