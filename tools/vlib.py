"""Runs the parts of a check: TLC on design models, drivers built from /repo, TLC on recorded traces."""
import concurrent.futures as cf
import hashlib, json, os, re, resource, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA = "/opt/veriftools/tla"
CLASSES = VERIF + "/build/classes"
CP = CLASSES + ":" + TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    """the check itself failed: no verdict"""


def unlimited_stack(size=None):
    for n in ((size,) if size else ()) + (resource.RLIM_INFINITY, resource.getrlimit(resource.RLIMIT_STACK)[1]):
        try:
            resource.setrlimit(resource.RLIMIT_STACK, (n, resource.getrlimit(resource.RLIMIT_STACK)[1]))
            return
        except (ValueError, OSError):
            pass


def run(cmd, timeout=None, env=None, cwd=None, stdout=None, stack=False):
    """-> (rc, output); rc = 'timeout' when it did not end"""
    e = dict(os.environ)
    e.update(env or {})
    out = open(stdout, "wb") if stdout else subprocess.PIPE
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=out, stderr=subprocess.STDOUT if not stdout else subprocess.PIPE,
                         stdin=subprocess.DEVNULL, start_new_session=True, preexec_fn=(lambda: unlimited_stack(stack if stack is not True else None)) if stack else None)
    try:
        o, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, err = p.communicate()
        rc = "timeout"
    if stdout:
        out.close()
        o = err
    return rc, (o or b"").decode("utf-8", "replace")


def ensure_java():
    src = sorted(os.path.join(VERIF, "java", f) for f in os.listdir(VERIF + "/java") if f.endswith(".java"))
    h = hashlib.sha256(b"".join(open(s, "rb").read() for s in src)).hexdigest()
    stamp = CLASSES + "/stamp"
    try:
        if open(stamp).read() == h:
            return
    except OSError:
        pass
    tmp = CLASSES + ".%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    rc, o = run(["javac", "-nowarn", "-cp", TLA + "/tla2tools.jar", "-d", tmp] + src)
    if rc:
        raise CheckError("javac failed:\n" + o)
    open(tmp + "/stamp", "w").write(h)
    shutil.rmtree(CLASSES, ignore_errors=True)
    os.makedirs(os.path.dirname(CLASSES), exist_ok=True)
    os.rename(tmp, CLASSES)


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.out = os.path.join(VERIF, "out", pid if REPO == "/repo" else pid + "@" + hashlib.md5(REPO.encode()).hexdigest()[:6])
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        self.states = self.transitions = self.traces = self.events = self.programs = 0
        self.models, self.samples, self.notes, self.counts = [], [], [], {}
        self.violations = []
        self.assumptions = []
        self.pool = cf.ThreadPoolExecutor(NCPU)
        self.exhaustive_models = []

    # ---------------------------------------------------------------- TLC
    def _tlc(self, tla, cfg, env, tag, workers, opts=(), heap="2g", timeout=800, jopts=()):
        meta = os.path.join(self.out, "meta-" + tag)
        gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
        tmp = os.path.join(self.out, "tmp-" + tag)
        os.makedirs(tmp, exist_ok=True)
        cmd = ["java", gc, "-Djava.io.tmpdir=" + tmp, "-Xmx" + heap, "-Xss512m", *jopts, "-cp", CP, "tlc2.TLC", "-workers", str(workers),
               "-metadir", meta, "-noGenerateSpecTE", *opts, "-config", cfg, tla]
        rc, o = run(cmd, timeout=timeout, env=env, cwd=VERIF + "/spec")
        shutil.rmtree(meta, ignore_errors=True)
        shutil.rmtree(tmp, ignore_errors=True)
        o = "\n".join(x for x in o.split("\n") if not x.startswith(("Loading ", "Parsing file", "Semantic processing", "Computed ")))
        open(os.path.join(self.out, tag + ".tlc.log"), "w").write(o)
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", o)
        gen, dist = (int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))) if m else (0, 0)
        return rc, o, gen, dist

    def _cfg(self, base, consts, tag):
        """base cfg file text with constants replaced"""
        s = open(os.path.join(VERIF, "spec", base)).read()
        for k, v in (consts or {}).items():
            s, n = re.subn(r"(?m)^(\s*(?:CONSTANTS?\s+)?)%s\s*=.*$" % re.escape(k), lambda m: "%s%s = %s" % (m.group(1), k, v), s)
            if n != 1:
                raise CheckError("constant %s not in %s" % (k, base))
        p = os.path.join(self.out, tag + ".cfg")
        open(p, "w").write(s)
        return p

    def model(self, name, consts=None, workers=4, heap="4g", timeout=800, expect_error=False, cfg=None, opts=()):
        """exhaustive check of a design model; independent of /repo, so a failure is an error of the check"""
        tag = "%s-%s" % (name, hashlib.md5(repr((consts, cfg)).encode()).hexdigest()[:6])
        c = self._cfg(cfg or name + ".cfg", consts, tag)
        rc, o, gen, dist = self._tlc(name + ".tla", c, {}, tag, workers, opts, heap, timeout)
        if expect_error:
            if rc not in (12, 13):
                raise CheckError("model %s %s: the mutated design is not rejected (rc %s)\n%s" % (name, consts, rc, o[-3000:]))
        elif rc != 0:
            raise CheckError("model %s %s: rc %s\n%s" % (name, consts, rc, o[-3000:]))
        self.states += dist
        self.transitions += gen
        self.models.append({"module": name, "constants": consts or {}, "states": dist, "transitions": gen,
                            "result": "rejected as it must be" if expect_error else "holds"})

    def generate(self, name, outfile, consts=None, num=None, depth=None, seed=None, timeout=300, cfg=None, env=None, workers=1):
        """behaviours of a specification (TLC simulation or enumeration) written to a file by the model itself"""
        tag = "%s-gen-%s" % (name, os.path.basename(outfile))
        c = self._cfg(cfg or name + ".cfg", consts, tag)
        p = os.path.join(self.out, outfile)
        if os.path.exists(p):
            os.remove(p)
        opts = []
        if num:
            opts = ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed if seed is not None else self.seed)]
        e = {"OUT": p}
        e.update(env or {})
        rc, o, gen, dist = self._tlc(name + ".tla", c, e, tag, workers, opts, timeout=timeout)
        if rc != 0 or not os.path.exists(p):
            raise CheckError("generator %s: rc %s\n%s" % (name, rc, o[-3000:]))
        lines = [x.strip().strip('"') for x in open(p)]
        lines = list(dict.fromkeys(x for x in lines if x))
        open(p, "w").write("\n".join(lines) + "\n")
        self.states += dist
        self.transitions += gen
        return p

    # ------------------------------------------------------------- drivers
    SAN = ("-fsanitize=address,bounds,shift,integer-divide-by-zero,float-cast-overflow", "-fsanitize-recover=all", "-g1")

    def build(self, src, name=None, flags=(), opt="-O2", defs=(), cxx="g++", extra=()):
        name = name or os.path.splitext(os.path.basename(src))[0]
        exe = os.path.join(self.out, name)
        cmd = [cxx, opt, "-w", "-fopenmp", "-ftrivial-auto-var-init=pattern", "-I", REPO + "/include", "-I", VERIF + "/harness",
               *flags, *["-D" + d for d in defs], os.path.join(VERIF, "harness", src), *extra, "-o", exe]
        rc, o = run(cmd, timeout=600)
        if rc:
            raise CheckError("build of %s failed (%s):\n%s" % (src, rc, o[-4000:]))
        return exe

    def build_shim(self, src, name):
        """driver instrumented like a ThreadSanitizer build, linked with harness/shim.cpp instead of libgomp and libtsan"""
        o1, o2, exe = (os.path.join(self.out, name + x) for x in (".o", "-shim.o", ""))
        h = VERIF + "/harness/"
        cmds = [["g++", "-O1", "-w", "-fopenmp", "-fsanitize=thread", "-fno-builtin-memcpy", "-I", REPO + "/include", "-I", h, "-c", h + src, "-o", o1],
                ["g++", "-O2", "-w", "-I", h, "-c", h + "shim.cpp", "-o", o2],
                ["g++", o1, o2, "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=free", "-lpthread", "-o", exe]]
        for c in cmds:
            rc, o = run(c, timeout=600)
            if rc:
                raise CheckError("build of %s failed (%s):\n%s" % (src, rc, o[-4000:]))
        return exe

    def build_programs(self, names):
        """programs of /repo/src/experiment, as they are, writing line by line"""
        def one(n):
            exe = os.path.join(self.out, "prog-" + os.path.basename(n))
            rc, o = run(["g++", "-O2", "-w", "-fopenmp", "-I", REPO + "/include", "-include", VERIF + "/harness/unbuf.h",
                         REPO + "/src/experiment/%s.cpp" % n, "-o", exe], timeout=600)
            if rc:
                raise CheckError("build of %s failed (%s):\n%s" % (n, rc, o[-4000:]))
            return exe
        return [f.result() for f in [self.pool.submit(one, n) for n in names]]

    def builds(self, specs):
        fs = [self.pool.submit(self.build, *a, **k) for a, k in specs]
        return [f.result() for f in fs]

    def drive(self, exe, args, trace, timeout=240, env=None):
        """runs a driver that writes its trace; -> None or a description of its abnormal end"""
        e = {"OMP_STACKSIZE": "64m", "MALLOC_PERTURB_": "165", "OMP_NUM_THREADS": "4", "OMP_WAIT_POLICY": "passive"}
        e.update(env or {})
        san = "ASAN_OPTIONS" in e                            # the address sanitizer maps the whole stack
        rc, o = run([exe, trace] + [str(a) for a in args], timeout=timeout, env=e, stack=8 << 30 if san else True, stdout=trace + ".stdout")
        if rc == 0:
            return None
        if rc == 64:
            raise CheckError("driver %s %s: usage: %s" % (exe, args, o[-500:]))
        return "driver %s %s ended with %s: %s" % (os.path.basename(exe), " ".join(map(str, args)), rc, o[-500:])

    # ----------------------------------------------------- trace validation
    def validate(self, module, trace, env=None, heap="3g", timeout=700, consts=None, cfg=None):
        """-> None when the specification accepts the trace, else a description of the rejected event"""
        tag = "tr-" + os.path.basename(trace)
        c = self._cfg(cfg or module + ".cfg", consts, tag)
        e = {"TRACE": trace}
        e.update(env or {})
        rc, o, gen, dist = self._tlc(module + ".tla", c, e, tag, 1, ("-checkpoint", "0"), heap, timeout)
        n = sum(1 for _ in open(trace, "rb"))
        if rc == 0:
            if n == 0 or dist < n:
                raise CheckError("empty or half-read trace %s (%d lines, %d states)" % (trace, n, dist))
            return None, gen, dist, n
        m = re.search(r'"REJECTED-AT", (\d+),', o)
        inv = re.search(r"Error: (Invariant \S+ is violated|Action property .* is violated|The postcondition.*|Evaluating.*|Assumption.*)", o)
        if m:
            return "event %s of %s" % (m.group(1), os.path.basename(trace)), gen, dist, n
        if rc in (12, 13, 14):
            return "%s in %s (state %d)" % (inv.group(1) if inv else "property", os.path.basename(trace), dist), gen, dist, n
        if rc in (75, 76) and dist > 0:
            return "event %d of %s: not a value the specification gives meaning to" % (dist, os.path.basename(trace)), gen, dist, n
        raise CheckError("TLC on %s %s: rc %s\n%s" % (module, trace, rc, o[-3000:]))

    def conform(self, jobs):
        """jobs: dicts(exe,args,module,name,[env,cfg,consts,timeout,denv]).  Drives the real code and validates what it recorded;
        an abnormal end counts only when a second run does not end normally either."""
        def once(j, suffix):
            trace = os.path.join(self.out, j["name"] + suffix + ".ndjson")
            bad = self.drive(j["exe"], j["args"], trace, j.get("timeout", 240), j.get("denv"))
            if bad:
                return bad, trace, 0, 0, 0, True
            if j.get("post"):
                j["post"](trace)
            bad, gen, dist, n = self.validate(j["module"], trace, j.get("env"), j.get("heap", "3g"), 700, j.get("consts"), j.get("cfg"))
            return bad, trace, gen, dist, n, False

        def job(j):
            # a recorded execution that the specification rejects is a violation; a driver that does not end normally must do so twice
            r = once(j, "")
            if r[0] and r[5]:
                r = once(j, ".again")
            return r[:5]

        futs = [(j, self.pool.submit(job, j)) for j in jobs]
        for j, f in futs:
            bad, trace, gen, dist, n = f.result()
            self.states += dist
            self.transitions += gen
            self.events += n
            if bad:
                self.violations.append((bad, self.replay_file(j, trace, bad)))
            else:
                self.traces += 1
                self.sample(trace)
                if not os.environ.get("VERIF_KEEP"):
                    os.remove(trace)

    def sample(self, trace):
        nb = 0
        with open(trace, "rb") as f:
            lines = []
            for i, x in enumerate(f):
                if b'"e":"begin"' in x:
                    nb += 1
                m = re.match(rb'\{"e":"([^"]+)"', x)
                if m:
                    k = m.group(1).decode()
                    self.counts[k] = self.counts.get(k, 0) + 1
                if len(lines) < 3 and len(x) < 1500 and b'"e":"begin"' not in x:
                    lines.append(x.decode().strip())
        self.programs += nb
        if len(self.samples) < 4 and lines:
            self.samples.append({"trace": os.path.basename(trace), "events": lines[:2]})

    def replay_file(self, j, trace, bad):
        p = os.path.join(self.out, "violation-%s.txt" % j["name"])
        ev = ""
        m = re.search(r"event (\d+) of", bad)
        if m and os.path.exists(trace):
            with open(trace, errors="replace") as f:
                for i, x in enumerate(f, 1):
                    if i == int(m.group(1)):
                        ev = x[:20000]
        with open(p, "w") as f:
            f.write("property %s: %s\nspecification: spec/%s.tla\ndriver: %s %s (seed %d, tier %s)\ntrace: %s\nevent: %s\n"
                    % (self.pid, bad, j["module"], os.path.basename(j["exe"]), " ".join(map(str, j["args"])), self.seed, self.tier, trace, ev))
        return p

    def evidence(self, wall):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "events_validated": self.events, "programs": self.programs, "event_counts": self.counts,
               "design_models": self.models, "samples": self.samples or [m for m in self.models[:2]],
               "rule": "; ".join(self.notes)}
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(self.violations)}
        d = VERIF + "/evidence" if REPO == "/repo" else self.out
        os.makedirs(d, exist_ok=True)
        with open(d + "/%s.json" % self.pid, "w") as f:
            json.dump(ev, f, indent=1)
