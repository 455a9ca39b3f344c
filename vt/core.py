"""Runs TLC and the harness for the checks.  See DESIGN.md."""
import concurrent.futures as cf
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    """The machinery failed; says nothing about the code (exit status 2)."""


def env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.pop("RUSTC_WRAPPER", None)
    e.pop("CARGO_TARGET_DIR", None)
    e.pop("RUSTFLAGS", None)
    e.pop("JAVA_TOOL_OPTIONS", None)
    return e


def build_harness(features):
    """Builds the harness against /repo's working tree; returns the binary."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        # cargo judges freshness by mtime; make it look at /repo's sources each time
        fp = os.path.join(BUILD, "target/debug/.fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith("viadkim-"):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        cmd = ["cargo", "build", "--offline", "--locked"]
        name = "vh-default"
        if features:
            cmd += ["--features", features]
            name = "vh-" + features
        r = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=env(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=700)
        if r.returncode != 0:
            raise ToolError("harness does not build:\n" + r.stdout[-4000:])
        dst = os.path.join(BUILD, name)
        tmp = dst + ".tmp"
        shutil.copy2(os.path.join(BUILD, "target/debug/vh"), tmp)
        os.replace(tmp, dst)
        return dst


_prep_lock = threading.Lock()

def prepared_spec():
    """A copy of spec/ in which B("abc") is written out as <<97, 98, 99>> (TLC would compute it at every use)."""
    def lit(m):
        t = json.loads('"' + m.group(1) + '"')
        return "<<" + ", ".join(str(b) for b in t.encode("ascii")) + ">>"
    with _prep_lock:
        texts = {}
        for n in sorted(os.listdir(SPEC)):
            if n.endswith(".tla"):
                t = open(os.path.join(SPEC, n)).read()
                texts[n] = re.sub(r'\bB\("((?:[^"\\]|\\.)*)"\)', lit, t)
        h = hashlib.sha1(json.dumps(texts).encode()).hexdigest()[:16]
        d = os.path.join(BUILD, "spec-" + h)
        if not os.path.isdir(d):
            os.makedirs(BUILD, exist_ok=True)
            tmp = "%s.%d.tmp" % (d, os.getpid())
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            for n, t in texts.items():
                with open(os.path.join(tmp, n), "w") as f:
                    f.write(t)
            try:
                os.rename(tmp, d)
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)
        return d


class Tlc:
    """Outcome of a TLC run."""
    def __init__(self):
        self.states = self.transitions = 0
        self.out = []      # decoded "@@" records
        self.text = ""


def run_tlc(module, cfg, workdir, env_extra=None, workers=4, timeout=800, simulate=None, expect_ok=True, heap="3g", sink=None):
    """Runs TLC on spec/<module>.tla with config text cfg.  '@@' lines are decoded from JSON."""
    os.makedirs(workdir, exist_ok=True)
    tag = "%s-%s" % (module, hashlib.sha1((cfg + repr(sorted((env_extra or {}).items())) + repr(simulate)).encode()).hexdigest()[:8])
    cfgp = os.path.join(workdir, tag + ".cfg")
    with open(cfgp, "w") as f:
        f.write(cfg)
    meta = os.path.join(workdir, tag + ".meta")
    shutil.rmtree(meta, ignore_errors=True)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss32m", "-Xmx" + heap, "-Djava.io.tmpdir=" + workdir, "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-config", cfgp, "-noGenerateSpecTE"]
    if simulate:
        cmd += simulate
    spec = prepared_spec()
    cmd.append(os.path.join(spec, module + ".tla"))
    e = env()
    e.update(env_extra or {})
    t = Tlc()
    text = []
    p = subprocess.Popen(cmd, cwd=spec, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    killer = threading.Timer(timeout, p.kill)
    killer.start()
    fsink = open(sink, "w") if sink else None
    try:
        for line in p.stdout:
            if line.startswith('"@@'):
                s = json.loads(line)[2:]
                if fsink:
                    fsink.write(s + "\n")
                else:
                    t.out.append(json.loads(s))
            else:
                text.append(line)
        p.wait()
    finally:
        killer.cancel()
        if fsink:
            fsink.close()
        shutil.rmtree(meta, ignore_errors=True)
    t.text = "".join(text)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", t.text.replace(",", "").replace("generated ", "generated, "))
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", t.text)
    if m:
        t.transitions = int(m[-1][0].replace(",", ""))
        t.states = int(m[-1][1].replace(",", ""))
    else:
        m = re.findall(r"([\d,]+) states checked", t.text) or re.findall(r"states generated: ([\d,]+)", t.text)
        if m:
            t.transitions = t.states = int(m[-1].replace(",", ""))
    if expect_ok and (p.returncode != 0 or "Error:" in t.text):
        keep = [l for l in text if not l.startswith(("Parsing", "Semantic", "Linting"))]
        raise ToolError("TLC failed on %s (exit %s):\n%s" % (module, p.returncode, "".join(keep)[-6000:]))
    return t


def read_ndjson(path):
    with open(path) as f:
        return [json.loads(l) for l in f if l.strip()]


def write_ndjson(path, recs):
    with open(path, "w") as f:
        for r in recs:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")


class Result:
    """What a suite covered and found."""
    def __init__(self, name):
        self.name = name
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.counts = {}
        self.violations = []     # (prop, message, replay data)

    def tlc(self, t):
        self.states += t.states
        self.transitions += t.transitions

    def count(self, k, n):
        self.counts[k] = self.counts.get(k, 0) + n

    def join(self, r):
        self.states += r.states
        self.transitions += r.transitions
        self.traces += r.traces
        self.samples += r.samples
        self.violations += r.violations
        for k, v in r.counts.items():
            self.count(k, v)

    def bad(self, prop, msg, rec):
        if sum(1 for v in self.violations if v[0] == prop) < 20:
            self.violations.append((prop, msg, rec))


class Ctx:
    def __init__(self, tier, seed, workdir):
        self.tier, self.seed, self.work = tier, seed, workdir
        self.quick = tier == "quick"
        os.makedirs(workdir, exist_ok=True)
        self._bin = {}
        self._lock = threading.Lock()
        self.pool = cf.ThreadPoolExecutor(max_workers=16)

    def start_build(self, features=""):
        with self._lock:
            if features not in self._bin:
                self._bin[features] = self.pool.submit(build_harness, features)
            return self._bin[features]

    def bin(self, features=""):
        return self.start_build(features).result()

    def path(self, name):
        return os.path.join(self.work, name)

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def run_harness(self, args, features="", timeout=800):
        b = self.bin(features)
        e = env()
        e["VERIF_DIR"] = VERIF
        r = subprocess.run([b] + args, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=timeout)
        return r

    def record(self, suite, n, out, features="", seed=None):
        out = self.path(out)
        r = self.run_harness(["record", suite, str(self.seed if seed is None else seed), str(n), out], features)
        if r.returncode != 0:
            raise ToolError("recording %s failed (%s):\n%s" % (suite, r.returncode, r.stdout[-3000:]))
        return out

    def replay(self, res, path, features="", label="scenarios", crash_props=("P28",)):
        """Replays records on the real code; adds violations and counts to res."""
        out = path + ".result" + features
        if os.path.exists(out):
            os.remove(out)
        r = self.run_harness(["replay", path, out], features)
        if r.returncode != 0 or not os.path.exists(out):
            # The process died (abort, stack overflow, out of memory): find the record.
            n = self.find_crash(path, features)
            if n is None:
                raise ToolError("harness died (%s) on %s:\n%s" % (r.returncode, path, r.stdout[-3000:]))
            rec = read_ndjson(path)[n]
            for p in crash_props:
                res.bad(p, "process died with status %s" % r.returncode, rec)
            return
        d = json.load(open(out))
        if d["harness_errors"]:
            raise ToolError("harness errors on %s: %s" % (path, "\n".join(d["harness_errors"][:5])))
        res.traces += d["checked"]
        res.count(label + (" (%s)" % features if features else ""), d["checked"])
        for k, v in d["counts"].items():
            res.count(k, v)
        for v in d["violations"]:
            res.bad(v["prop"], v["msg"] + (" [%s]" % features if features else ""), v["rec"])

    def find_crash(self, path, features):
        recs = read_ndjson(path)
        def dies(part):
            p = self.path("crash.ndjson")
            write_ndjson(p, part)
            o = self.path("crash.out")
            return self.run_harness(["replay", p, o], features).returncode != 0
        if not recs or not dies(recs):
            return None
        lo, hi = 0, len(recs)
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if dies(recs[lo:mid]):
                hi = mid
            elif dies(recs[mid:hi]):
                lo = mid
            else:
                return None
        return lo


def known_findings():
    """Lines 'finding: property=<id> key=<key> <text>' of KNOWN_FINDINGS.txt."""
    res = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m:
                res.append(m.groups())
    return res
