"""Infrastructure: build the real code from /repo, run it, report."""
import os, sys, json, time, glob, struct, subprocess, tempfile, shutil, signal, atexit
import hashlib, itertools, re
import multiprocessing as mp
import refmm
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MM_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NPROC = min(8, os.cpu_count() or 8)

# ---------------------------------------------------------------- scratch
def _shm_ok():
    try:
        st = os.statvfs("/dev/shm")
        return os.access("/dev/shm", os.W_OK) and st.f_bavail * st.f_frsize > (1 << 29)
    except OSError:
        return False

_scratch = None
def scratch():
    """A scratch directory of this check, removed at exit."""
    global _scratch
    if _scratch is None:
        base = "/dev/shm" if _shm_ok() else tempfile.gettempdir()
        _scratch = tempfile.mkdtemp(prefix="mmv-", dir=base)
        pid = os.getpid()
        def rm():
            if os.getpid() == pid:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(rm)
    return _scratch

# ---------------------------------------------------------------- build
class BuildError(Exception):
    pass

def build(kind="plain", extra_c=(), repo=None):
    """Compile /repo/src/m*.c (main renamed) with the fork server. -> binary"""
    repo = repo or REPO
    out = os.path.join(scratch(), "bin-" + kind)
    if os.path.exists(os.path.join(out, "server")):
        return os.path.join(out, "server")
    os.makedirs(out, exist_ok=True)
    flags = ["-w", "-g0", "-O1"]
    cc = "gcc"
    if kind == "asan":
        flags = ["-w", "-g1", "-O1", "-fsanitize=address,undefined",
                 "-fno-sanitize=leak", "-fno-omit-frame-pointer",
                 "-fno-sanitize-recover=undefined", "-DNO_FAULT"]
    if kind in ("fill0", "fill1"):      # uninitialised objects get two different values
        flags += ["-ftrivial-auto-var-init=" + ("zero" if kind == "fill0" else "pattern")]
    srcs = sorted(glob.glob(os.path.join(repo, "src", "*.c")))
    jobs = []
    for s in srcs:
        o = os.path.join(out, os.path.basename(s) + ".o")
        jobs.append(([cc] + flags + ["-Dmain=mm_main", "-I", os.path.join(repo, "src"),
                                     "-c", s, "-o", o], o))
    for s in (os.path.join(VERIF, "driver", "server.c"),) + tuple(extra_c):
        o = os.path.join(out, os.path.basename(s) + ".drv.o")
        jobs.append(([cc] + flags + ["-I", os.path.join(repo, "src"), "-c", s, "-o", o], o))
    def one(j):
        return subprocess.run(j[0], capture_output=True, text=True)
    with ThreadPoolExecutor(NPROC) as ex:
        rs = list(ex.map(one, jobs))
    for r in rs:
        if r.returncode:
            raise BuildError(r.stderr)
    exe = os.path.join(out, "server")
    r = subprocess.run([cc] + flags + [o for _, o in jobs] + ["-o", exe + ".t", "-lm", "-ldl"],
                       capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr)
    os.rename(exe + ".t", exe)
    return exe

def compile_harness(csrc, name, libs=True, kind="plain", defs=(), ldflags=()):
    """Link a C harness with the repo's objects (main renamed). -> exe path"""
    exe0 = build(kind)
    d = os.path.dirname(exe0)
    objs = sorted(glob.glob(os.path.join(d, "*.c.o")))
    flags = ["-w", "-O1", "-g0"]
    if kind == "asan":
        flags = ["-w", "-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=leak",
                 "-fno-sanitize-recover=undefined"]
    exe = os.path.join(d, name)
    r = subprocess.run(["gcc"] + flags + list(defs) + ["-I", os.path.join(REPO, "src"), csrc]
                       + (objs if libs else []) + ["-o", exe, "-lm"] + list(ldflags),
                       capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr)
    return exe

def run_harness(c, exe, parts, deep, timeout=800):
    """Run a harness in `parts` processes; it prints "V key what" and "N evaluations"."""
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=66:allocator_may_return_null=1",
               UBSAN_OPTIONS="halt_on_error=1:exitcode=66:print_stacktrace=1")
    def one(i):
        t = open(os.path.join(scratch(), "h%d.out" % i), "w+b")
        e = open(os.path.join(scratch(), "h%d.err" % i), "w+b")
        try:
            r = subprocess.run([exe, str(i), str(parts), str(int(deep))], stdin=subprocess.DEVNULL,
                               stdout=t, stderr=e, env=env, timeout=timeout, cwd=scratch())
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
        t.seek(0); e.seek(0)
        return i, rc, t.read().decode("latin-1"), e.read().decode("latin-1")
    with ThreadPoolExecutor(NPROC) as ex:
        for i, rc, out, err in ex.map(one, range(parts)):
            done = False
            for l in out.split("\n"):
                if l.startswith("V "):
                    _, k, w = l.split(" ", 2)
                    c.violation(k, w, {"part": i, "parts": parts, "deep": int(deep), "line": l})
                elif l.startswith("N "):
                    c.add("evaluations", int(l.split()[1])); done = True
                elif l.startswith("D "):
                    c.add("distinct_nontrivial", int(l.split()[1]))
                elif l.startswith("S "):
                    c.sample(l[2:])
            if rc not in (0, 1) or not done:
                last = [l for l in out.split("\n") if l.startswith("C ")][-1:]
                m = re.search(r"(runtime error|ERROR: AddressSanitizer).*", err)
                c.violation("harness-died", "the library code ended the process (%s) %s %s" % (rc, m.group(0)[:300] if m else err[-300:], last),
                            {"part": i, "parts": parts, "deep": int(deep), "stderr": err[-4000:]})

# ---------------------------------------------------------------- run
class Result:
    __slots__ = ("status", "out", "log")
    def __init__(self, status, out, log):
        self.status, self.out, self.log = status, out, log
    @property
    def crashed(self):
        return self.status >= 1000 or self.status == 99

def _b(x):
    return x if isinstance(x, bytes) else x.encode("latin-1")

_nhang = mp.Value("i", 0)      # certain hangs seen by all workers
_hung = []
class Server:
    def __init__(self, exe, wd=None):
        self.exe = exe
        self.wd = wd or tempfile.mkdtemp(prefix="w", dir=scratch())
        os.makedirs(self.wd, exist_ok=True)
        env = dict(os.environ, LC_ALL="C", HOME=self.wd,
                   ASAN_OPTIONS="detect_leaks=0:exitcode=66:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=1500:symbolize=1",
                   UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=66")
        if "bin-fill" in exe:
            env["MMV_PERTURB"] = "255" if "bin-fill0" in exe else "85"
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=env, bufsize=0)
    def close(self):
        try:
            self.p.stdin.close(); self.p.kill(); self.p.wait()
        except Exception:
            pass
    def clean(self):
        for e in os.scandir(self.wd):
            if e.is_dir(follow_symlinks=False):
                os.chmod(e.path, 0o755)
                shutil.rmtree(e.path, ignore_errors=True)
            else:
                os.unlink(e.path)
    def _read(self, n):
        bs = []
        while n:
            b = self.p.stdout.read(n)
            if not b:
                raise RuntimeError("server died")
            bs.append(b); n -= len(b)
        return b"".join(bs)
    def raw(self, stdin, args=(), timeout=10.0, fault=(0, 0)):
        stdin = _b(stdin); cwd = _b(self.wd)
        m = struct.pack("<III", int(timeout * 1000), fault[0], fault[1])
        m += struct.pack("<I", len(cwd)) + cwd + struct.pack("<I", len(args))
        for a in args:
            a = _b(a); m += struct.pack("<I", len(a)) + a
        m += struct.pack("<I", len(stdin)) + stdin
        self.p.stdin.write(m)
        st, n = struct.unpack("<iI", self._read(8))
        out = self._read(n).decode("latin-1") if n else ""
        k, = struct.unpack("<I", self._read(4))
        log = self._read(k).decode("latin-1") if k else ""
        return Result(st, out, log)
    def run(self, stdin, files=None, args=(), timeout=10.0, fault=(0, 0), clean=True):
        """Scratch dir is emptied, `files` written, then the program is run."""
        if clean:
            self.clean()
        for n, c in (files or {}).items():
            p = os.path.join(self.wd, n)
            if "/" in n:
                os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(_b(c))
        if _hung:                 # the check fails anyway: don't wait as long
            timeout = min(timeout, 1.0 if len(_hung) < 10 else 0.1)
        r = self.raw(stdin, args, timeout, fault)
        if r.status == 2000 and not _hung:      # a timed-out case is re-run alone, longer
            if clean:
                self.clean()
            for n, c in (files or {}).items():
                with open(os.path.join(self.wd, n), "wb") as f:
                    f.write(_b(c))
            r = self.raw(stdin, args, max(45.0, timeout * 2), fault)
        if r.status == 2000:
            _hung.append(1)
            _nhang.value += 1
        return r
    def read(self, name):
        try:
            with open(os.path.join(self.wd, name), "rb") as f:
                return f.read().decode("latin-1")
        except OSError:
            return None
    def ls(self):
        r = {}
        for root, ds, fs in os.walk(self.wd):
            for f in fs:
                p = os.path.join(root, f)
                with open(p, "rb") as h:
                    r[os.path.relpath(p, self.wd)] = h.read().decode("latin-1")
        return r

_srv = {}
def server(kind="plain"):
    """This process's own server."""
    k = (os.getpid(), kind)
    if k not in _srv:
        _srv[k] = Server(build(kind))
    return _srv[k]

PRE = "set scroll continuous\n"
def sess(cmds, files=None, kind="plain", args=(), timeout=10.0, fault=(0, 0), clean=True):
    """Run a list of commands in a fresh process; returns Result."""
    s = PRE + "".join(c + "\n" for c in cmds)
    return server(kind).run(s, files, args, timeout, fault, clean)

def split_out(out, prompts=("MM> ", "MM-PA> ", "TOOLS> ")):
    """Output per command: the text after each prompt. Index 0 = banner,
    1 = reply to 'set scroll continuous', 2.. = replies to commands."""
    if "to bypass)? MM-PA> " in out or "<A>? MM-PA> " in out:
        out = out.replace("to bypass)? MM-PA> ", "to bypass)? \nMM-PA> ").replace("<A>? MM-PA> ", "<A>? \nMM-PA> ")
    parts, cur = [], []
    ls = out.split("\n")
    last = len(ls) - 1
    for i, l in enumerate(ls):
        while l.startswith(prompts):
            parts.append("".join(cur))
            cur = []
            l = l[l.index("> ") + 2:]
        cur.append(l if i == last else l + "\n")
    parts.append("".join(cur))
    return parts

# ---------------------------------------------------------------- report
class Check:
    """Collects coverage and violations of one property."""
    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.cov = {}
        self.samples = []
        self.hits = 0
        kf = os.path.join(VERIF, "known_findings.json")
        self.known_keys = set(e.get("key") for e in json.load(open(kf))["findings"] if e["property"] == pid and e["status"] == "known")
        self.viol = []       # list of dict(key, what, replay)
        self.assumptions = []
        self._d = set()
        self.thorough = TIER == "thorough"
    def add(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n
    def distinct(self, hs):
        """hashes of distinct non-trivial cases (union over the workers)"""
        self._d |= hs
        self.cov["distinct_nontrivial"] = len(self._d)
    def sample(self, s):
        if len(self.samples) < 8:
            self.samples.append(s)
    def enough(self):
        """stop an exploration that has found many violations"""
        return self.hits > 12 and not os.environ.get("MM_ALL")
    def violation(self, key, what, replay):
        if key not in self.known_keys:
            self.hits += 1
        if not any(v["key"] == key for v in self.viol):
            self.viol.append({"key": key, "what": what, "replay": replay})
    def finish(self):
        known = []
        kf = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kf):
            known = [e for e in json.load(open(kf))["findings"]
                     if e["property"] == self.pid and e["status"] == "known"]
        kk = {e["key"]: e for e in known}
        seen = set()
        bad = []
        for v in self.viol:
            if v["key"] in kk:
                seen.add(v["key"])
            else:
                bad.append(v)
        for e in known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, e["what"]))
        cov = dict(self.cov)
        cov["samples"] = self.samples
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(bad)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if bad:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            for i, v in enumerate(bad[:5] if not os.environ.get("MM_ALL") else bad):
                p = os.path.join(d, "%s-%d.json" % (self.pid, i))
                with open(p, "w") as f:
                    json.dump(v, f, indent=1)
                print("  %s: %s" % (v["key"], v["what"][:1000]))
                print("VIOLATION property=%s replay=%s" % (self.pid, p))
            print("%d violations" % len(bad))
            sys.stdout.flush()
            return 1
        print("%s held: %s (%.1fs)" % (self.pid, {k: v for k, v in self.cov.items()
              if isinstance(v, int)}, time.time() - self.t0))
        sys.stdout.flush()
        return 0

# ---------------------------------------------------------------- parallel
class Unreadable(Exception):
    """the program's reply does not have the form it has on every case of the
    unchanged tree (a reply is missing, a listing cannot be parsed)"""
READ_ERRORS = (ValueError, IndexError, KeyError, TypeError, AttributeError, refmm.RefError)

def _wrap(a):
    fn, x = a
    try:
        return fn(x)
    except Exception as e:
        import traceback
        return {"__exc__": traceback.format_exc(), "kind": isinstance(e, READ_ERRORS)}

def pmap(fn, items, chunksize=1, stop=None):
    """Parallel unordered map over worker processes; each worker has its own
    fork server. Worker exceptions are raised here."""
    exe = build("plain")
    with mp.Pool(NPROC) as pool:
        for r in pool.imap_unordered(_wrap, ((fn, x) for x in items), chunksize):
            if isinstance(r, dict) and "__exc__" in r:
                pool.terminate()
                if r["kind"]:
                    raise Unreadable(r["__exc__"])
                raise RuntimeError(r["__exc__"])
            yield r
            if stop and stop() or _nhang.value >= 40:
                pool.terminate()
                break

def chunks(it, n):
    it = iter(it)
    while True:
        c = list(itertools.islice(it, n))
        if not c:
            return
        yield c

def digest(s):
    return hashlib.sha1(_b(s)).hexdigest()[:12]
