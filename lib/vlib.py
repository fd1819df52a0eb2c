"""Common machinery: builds the drivers from /repo's working tree, runs them, runs TLC, writes evidence."""
import concurrent.futures, glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
TLAJARS = ["/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"]
CPUS = min(8, os.cpu_count() or 1)


class CheckError(Exception):
    """The check itself could not be carried out."""


class Stopped(CheckError):
    """Given up: a violation has been found and the rest takes too long."""


PRLIMIT = shutil.which("prlimit")
_running, _running_guard, _stop = set(), threading.Lock(), threading.Event()


def sh(cmd, timeout=600, input=None, **kw):
    with _running_guard:
        if _stop.is_set():
            raise Stopped("stopped")
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             stdin=subprocess.PIPE if input is not None else None, **kw)
        _running.add(p)
    try:
        out, err = p.communicate(input, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        p.kill()
        out, err = p.communicate()
        raise subprocess.TimeoutExpired(cmd, timeout, output=out, stderr=err)
    finally:
        with _running_guard:
            _running.discard(p)
    if _stop.is_set():
        raise Stopped("stopped")
    return subprocess.CompletedProcess(cmd, p.returncode, out, err)


def stop_all():
    """Ends the commands that are running; later ones are not started."""
    with _running_guard:
        _stop.set()
        for p in _running:
            p.kill()


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]


_locks, _locks_guard = {}, threading.Lock()
def lock(name):
    with _locks_guard:
        return _locks.setdefault(name, threading.Lock())


def listed(prop, text):
    """Whether known-findings.txt lists a finding (not a repaired one) of the property that contains the text."""
    with open(os.path.join(VERIF, "known-findings.txt")) as f:
        return any(ln.startswith("finding: property=%s " % prop) and text in ln for ln in f)


# ----------------------------------------------------------------- java / TLC
def java_classes():
    src = glob.glob(os.path.join(VERIF, "java/vnum/*.java"))
    out = os.path.join(BUILD, "java-" + digest(src))
    with lock("java"):
        if not os.path.exists(out + "/.ok"):
            os.makedirs(out, exist_ok=True)
            r = sh(["javac", "-nowarn", "-cp", ":".join(TLAJARS), "-d", out] + src)
            if r.returncode:
                raise CheckError("javac: " + r.stderr.decode()[-2000:])
            open(out + "/.ok", "w").close()
    return out


class Tlc:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"([\d,]+) states generated,? ?(?:\([^)]*\))?,? ?([\d,]+) distinct states found", out)
        self.generated, self.distinct = ([int(x.replace(",", "")) for x in m[-1]] if m else (0, 0))
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0
        self.ok = rc == 0 and "Model checking completed. No error has been found." in out

    def prints(self):
        """JSON values printed with PrintT(ToJson(..))."""
        for ln in self.out.splitlines():
            if ln.startswith('"') and ln.endswith('"') and len(ln) > 2 and ln[1] in "{[":
                yield json.loads(json.loads(ln))


def tlc(module, cfg=None, env=None, workers=1, timeout=600, heap="2g", extra=()):
    cls = java_classes()
    work = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    t0 = time.time()
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-XX:TieredStopAtLevel=%d" % (4 if timeout > 60 else 1),
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:vnum.NumOverrides",
           "-DTLA-Library=" + SPEC, "-cp", ":".join([cls] + TLAJARS), "tlc2.TLC",
           "-noGenerateSpecTE", "-workers", str(workers), "-metadir", work, "-config", os.path.join(SPEC, cfg or module + ".cfg"),
           *extra, os.path.join(SPEC, module + ".tla")]
    try:
        r = sh(cmd, timeout=timeout, env=e, cwd=work)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(work, ignore_errors=True)
        if os.environ.get("VERIF_TIMES"):
            sys.stderr.write("%6.1f s %s %s\n" % (time.time() - t0, module, (env or {}).get("TRACE", env)))
    return Tlc(r.returncode, r.stdout.decode(errors="replace") + r.stderr.decode(errors="replace"))


_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        base = os.path.join(BUILD, "tmp")
        os.makedirs(base, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix="run-", dir=base)
        import atexit
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


# ----------------------------------------------------------------- drivers
R = lambda *p: [os.path.join(REPO, x) for x in p]
FIELDS = ["src/fields/field_secp256r1.cpp", "src/fields/field_bn254.cpp"]
ECC = ["src/ecc/ecc_secp256r1.cpp", "src/ecc/ecc_bn254.cpp"]
UTIL = ["src/utilities/utilities.cpp"]
SOURCES = {  # driver -> library sources it links
    "field": FIELDS,
    "ecc": FIELDS + ECC + UTIL,
    "sss": FIELDS + ["src/shamirss/shamirss.cpp"] + ECC + UTIL,
    "dme": FIELDS + ECC + UTIL + ["src/dme/dme.cpp", "src/dme/dmhe.cpp", "src/ot/ot.cpp", "src/ot/dot.cpp"],
    "puda": FIELDS + ECC + UTIL + ["src/puda/puda.cpp"],
    "opprf": FIELDS + ECC + UTIL + ["src/dme/dme.cpp", "src/dme/dmhe.cpp", "src/ot/ot.cpp", "src/opprf/opprf.cpp",
                                    "src/utilities/aes.cpp"],
    "crc": UTIL,
    "sym": UTIL + ["src/utilities/aes.cpp"],
    "values": FIELDS + ECC + UTIL + ["src/dme/dme.cpp", "src/dme/dmhe.cpp", "src/elgamal/elgamal.cpp", "src/shamirss/shamirss.cpp"],
    "elgamal": FIELDS + ECC + UTIL + ["src/elgamal/elgamal.cpp"],
}
LIBS = {"opprf": ["-lcrypto"], "sym": ["-lcrypto"]}
# -include: headers of the library rely on these without including them (the project's own build passes cstdint)
FLAGS = ["-std=gnu++17", "-O2", "-DNDEBUG", "-w", "-include", "cstdint", "-include", "stdexcept", "-include", "vector"]


def repo_files():
    return [p for d in ("includes", "src") for p in glob.glob(os.path.join(REPO, d, "**/*"), recursive=True)
            if os.path.isfile(p)]


def _compile(src, flags, key):
    obj = os.path.join(BUILD, "obj-" + key, re.sub(r"\W", "_", os.path.relpath(src, "/")) + ".o")
    with lock(obj):
        if not os.path.exists(obj):
            os.makedirs(os.path.dirname(obj), exist_ok=True)
            tmp = obj + ".%d.tmp" % os.getpid()
            r = sh(["g++"] + flags + ["-I", os.path.join(REPO, "includes"), "-I", os.path.join(VERIF, "drivers"),
                                      "-c", src, "-o", tmp])
            if r.returncode:
                raise CheckError("cannot compile %s:\n%s" % (src, r.stderr.decode(errors="replace")[-3000:]))
            os.replace(tmp, obj)
    return obj


def _archive(srcs, tiny, flags, key):
    """The library sources that are not in srcs, those that compile; the linker takes what it needs."""
    rest = sorted(set(os.path.relpath(p, REPO) for p in glob.glob(os.path.join(REPO, "src/**/*.cpp"), recursive=True)) - set(srcs) -
                  ({"src/fields/field_secp256r1.cpp", "src/ecc/ecc_secp256r1.cpp"} if tiny else set()))
    objs = []
    for s in R(*rest):
        try:
            objs.append(_compile(s, flags, key))
        except CheckError:
            pass
    out = os.path.join(scratch(), "rest-%s.a" % hashlib.sha256(" ".join(objs).encode()).hexdigest()[:8])
    sh(["ar", "rcs", out] + objs)
    return out


def driver(name, tiny=False, asan=False):
    """Builds drivers/<name>.cpp with the library sources of the working tree; returns the executable."""
    flags = FLAGS + (["-fsanitize=address", "-g1"] if asan else []) + (["-DTINY"] if tiny else [])
    key = digest(repo_files() + glob.glob(os.path.join(VERIF, "drivers/*")), " ".join(flags))
    srcs = list(SOURCES[name])
    extra = []
    if tiny:
        srcs = [s for s in srcs if s not in ("src/fields/field_secp256r1.cpp", "src/ecc/ecc_secp256r1.cpp")]
        extra = [os.path.join(VERIF, "drivers/tiny_secp256r1.cpp")]
    exe = os.path.join(BUILD, "obj-" + key, name)
    with lock(exe):
        if not os.path.exists(exe):
            todo = R(*srcs) + extra + [os.path.join(VERIF, "drivers", name + ".cpp")]
            with concurrent.futures.ThreadPoolExecutor(CPUS) as ex:
                objs = list(ex.map(lambda s: _compile(s, flags, key), todo))
            libs = ["-lgmpxx", "-lgmp", "-ldl"] + LIBS.get(name, [])
            r = sh(["g++"] + flags + objs + ["-o", exe + ".%d.tmp" % os.getpid()] + libs)
            if r.returncode:             # a new dependency between the library's parts: offer all of them
                r = sh(["g++"] + flags + objs + ["-o", exe + ".%d.tmp" % os.getpid(), _archive(srcs, tiny, flags, key)] + libs + ["-lcrypto"])
            if r.returncode:
                raise CheckError("cannot link %s:\n%s" % (name, r.stderr.decode(errors="replace")[-3000:]))
            os.replace(exe + ".%d.tmp" % os.getpid(), exe)
    return exe


def drive(exe, script, env=None, timeout=120):
    """Runs a script; returns (events, crash) with events the JSON lines written, crash a description or None."""
    e = dict(os.environ)
    e.update({"MALLOC_PERTURB_": "165", "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1"})
    e.update(env or {})
    try:
        # processor time decides whether a call returns: a busy machine is no reason for an alarm
        t0 = time.time()
        r = sh((["prlimit", "--cpu=%d:%d" % (timeout, timeout + 5)] if PRLIMIT else []) + [exe], timeout=max(timeout, min(3 * timeout, 420)), env=e, input=script.encode())
        out, rc, err = r.stdout, r.returncode, r.stderr
        if os.environ.get("VERIF_TIMES"):
            sys.stderr.write("drive %s %.1f of %d s\n" % (os.path.basename(exe), time.time() - t0, timeout))
        if rc in (-24, 152):             # SIGXCPU
            rc = None
    except subprocess.TimeoutExpired as x:
        out, rc, err = x.stdout or b"", None, b""
    lines = [x for x in out.decode(errors="replace").split("\n") if x]
    if rc == 3:
        raise CheckError("driver rejected the script: " + err.decode(errors="replace")[-500:])
    if rc == 0:
        return lines, None
    if lines and not lines[-1].endswith("}"):
        lines.pop()
    why = "does not return within %d s" % timeout if rc is None else "ends the process (status %s)" % rc
    return lines, why + (": " + err.decode(errors="replace").strip()[-600:] if err.strip() else "")


# ----------------------------------------------------------------- a check
class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.parts, self.assumptions, self.known = [], [], [], []
        self.violations = []
        self.guard = threading.Lock()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def rand(self, label):
        return random.Random("%s/%s/%d" % (self.prop, label, self.seed))

    def note(self, part):
        with self.guard:
            self.parts.append(part)

    def violation(self, label, what, data):
        with self.guard:
            d = os.path.join(BUILD, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s.json" % (self.prop, re.sub(r"\W", "_", label)))
            data = dict(data, property=self.prop, label=label, what=what, seed=self.seed)
            with open(path, "w") as f:
                json.dump(data, f, indent=1)
            self.violations.append((path, what))
            if len(self.violations) == 1 and not self.thorough:   # what still runs gets another while
                t = threading.Timer(60, stop_all)
                t.daemon = True
                t.start()

    # --- model checking of the specification itself
    def model(self, module, cfg=None, workers=1, timeout=600, env=None, heap="2g", count=True):
        r = tlc(module, cfg, workers=workers, timeout=timeout, env=env, heap=heap)
        if not r.ok:
            raise CheckError("the specification %s violates its own properties:\n%s" % (cfg or module, r.out[-3000:]))
        if count:
            with self.guard:
                self.states += r.distinct
                self.transitions += r.generated
        self.note({"model": cfg or module, "distinct_states": r.distinct, "transitions": r.generated})
        return r

    # --- recorded behaviour of the code against the specification
    def trace(self, label, exe, script, module, env=None, tenv=None, cfg="Trace.cfg", timeout=120, tlc_timeout=400, post=None):
        """Runs the script on the real code and lets TLC accept or reject the recorded events."""
        lines = None
        timeout = max(timeout, 900) if self.thorough else min(timeout, 280)
        for attempt in (1, 2):
            lines, crash = drive(exe, script, env, timeout)
            if post:
                lines = post(lines)
            if crash:
                lines.append(json.dumps({"op": "crash", "why": crash[-300:]}))
            if not lines:
                raise CheckError("no events from " + label)
            path = os.path.join(scratch(), "%s-%s.ndjson" % (re.sub(r"\W", "_", label), attempt))
            with open(path, "w") as f:
                f.write("\n".join(lines) + "\n")
            r = tlc(module, cfg, env=dict(tenv or {}, TRACE=path), timeout=tlc_timeout)
            os.unlink(path)
            if os.environ.get("VERIF_TIMES") and r.distinct > 2 * len(lines) + 5:
                sys.stderr.write("branching: %s %d events, %d states\n" % (label, len(lines), r.distinct))
            if r.ok:
                with self.guard:
                    self.traces += 1
                    self.events += len(lines)
                    self.states += r.distinct
                    self.transitions += r.generated
                    if len(self.samples) < 4:
                        self.samples.append({"trace": label, "events": len(lines), "an_event": json.loads(lines[len(lines) // 2])})
                return r
            if "Semantic errors" in r.out or "Parsing or semantic analysis failed" in r.out or "OutOfMemory" in r.out or "StackOverflow" in r.out:
                raise CheckError("TLC failed on %s:\n%s" % (module, r.out[-2500:]))
            bad = self._depth(r, len(lines))
            if crash and crash.startswith("does not return"):
                break
        ev = lines[bad - 1] if 0 < bad <= len(lines) else "(end)"
        if crash and bad >= len(lines):
            what = "%s: command after event %d %s" % (label, len(lines) - 1, crash[:300])
        else:
            what = "%s: event %d of %d is not a behaviour of %s: %s" % (label, bad, len(lines), module, ev[:600])
        self.violation(label, what, {"driver": os.path.basename(exe), "env": env or {}, "tenv": tenv or {}, "module": module,
                                     "script": script.split("\n"), "rejected_event": ev, "event_number": bad,
                                     "events_before": lines[max(0, bad - 6):bad - 1], "tlc": r.out[-1500:]})
        return None

    def processes(self, label, exe, short, script, module, n=None, tenv=None, timeout=120):
        """Many processes with the system's entropy (clock and process number standing still), then one more: nothing is drawn twice."""
        n = n or self.scale(800, 2000)
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            runs = list(ex.map(lambda k: drive(exe, short if k else script, {"VRD_FREEZE": "1"}, timeout), range(n)))
        for lines, crash in runs:
            if crash:
                raise CheckError("driver: " + crash)
        before = [x for lines, _ in runs for x in lines]
        return self.trace(label, exe, script, module, tenv=tenv, env={"VRD_FREEZE": "1"}, timeout=timeout, tlc_timeout=800, post=lambda lines: before + lines)

    @staticmethod
    def _depth(r, n):
        """1-based number of the first event that is not explained."""
        if r.depth:
            return min(r.depth, n)
        m = re.findall(r"\bl = (\d+)", r.out)        # evaluation error: TLC prints the states up to it
        return int(m[-1]) if m else 1

    def parallel(self, jobs, width=CPUS):
        """Runs thunks; a CheckError in any of them is raised after all have ended."""
        with concurrent.futures.ThreadPoolExecutor(width) as ex:
            fs = [ex.submit(j) for j in jobs]
            err = None
            res = []
            for f in fs:
                try:
                    res.append(f.result())
                except Exception as x:  # noqa: keep the first error
                    err = err or x
            if err:
                if self.violations:
                    return res
                raise err
            return res

    def finish(self, extra=None):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "events_validated": self.events, "samples": self.samples or [{"note": "none"}], "parts": self.parts}
        cov.update(extra or {})
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for path, what in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  " + what)
        if not self.violations:
            print("OK property=%s states=%d transitions=%d traces=%d events=%d wall=%.1fs" % (
                self.prop, self.states, self.transitions, self.traces, self.events, time.time() - self.t0))
        return 1 if self.violations else 0
