"""Build, run, minimise and report simulated executions (see DESIGN.md)."""
import hashlib, json, os, subprocess, sys, tempfile, threading, time, glob, shutil, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VSIM_REPO", "/repo")
BUILD = os.environ.get("VSIM_BUILD", os.path.join(VERIF, "build"))
SIM = os.path.join(VERIF, "sim")
JOBS = int(os.environ.get("VSIM_JOBS", str(os.cpu_count() or 4)))
INC = [os.path.join(REPO, d) for d in ("Merlin++",)]

ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
COMMON = ["-std=c++14", "-g1", "-w", "-DNDEBUG", "-fno-pie", "-ffp-contract=off"]


class BuildError(Exception):
    pass


def inc_flags():
    out = []
    root = os.path.join(REPO, "Merlin++")
    dirs = {root, os.path.join(root, "HEL")}
    for base, ds, fs in os.walk(root):
        if any(f.endswith(".h") for f in fs):
            dirs.add(base)
    for d in sorted(dirs):
        out += ["-I", d]
    return out


VARIANTS = {
    # everything in one process, heap/clock/entropy/disk behind seams
    "std": dict(cxx="clang++", flags=["-O1"] + ASAN, lib="all", scen="scen/*.cpp",
                link=["-no-pie"] + ASAN),
    # as std, compiled with the profiling instrumentation on
    "prof": dict(cxx="clang++", flags=["-O1", "-DMERLIN_PROFILE"] + ASAN, lib="all", scen="scen_prof/*.cpp",
                 link=["-no-pie"] + ASAN),
    # as std, compiled with MPI on against the simulated network
    "mpi": dict(cxx="clang++", flags=["-O1", "-DENABLE_MPI", "-I", os.path.join(SIM, "mpi")] + ASAN, lib="all",
                scen="scen_mpi/*.cpp", extra="mpi/*.cpp", link=["-no-pie", "-lpthread"] + ASAN),
    # OpenMP code generation, the simulator is the OpenMP runtime and the memory observer
    "omp": dict(cxx="g++", flags=["-O1", "-fopenmp", "-DENABLE_OPENMP", "-I", os.path.join(SIM, "omp")], lib="all",
                scen="scen_omp/*.cpp", extra="omp/*.cpp", link=["-no-pie", "-lpthread"],
                tsan=True),
}


def sources(variant):
    v = VARIANTS[variant]
    lib = sorted(glob.glob(os.path.join(REPO, "Merlin++", "**", "*.cpp"), recursive=True))
    # main programs inside the tree are not part of the library
    own = sorted(glob.glob(os.path.join(SIM, "core", "*.cpp"))) + sorted(glob.glob(os.path.join(SIM, v["scen"])))
    if "extra" in v:
        own += sorted(glob.glob(os.path.join(SIM, v["extra"])))
    return lib, own


_hashes = {}


def fhash(p):
    h = _hashes.get(p)
    if h is None:
        try:
            with open(p, "rb") as f:
                h = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            h = "missing"
        _hashes[p] = h
    return h


def compile_one(cxx, flags, src, obj):
    dep = obj + ".deps"
    key = hashlib.sha1(json.dumps([cxx, flags]).encode()).hexdigest()
    if os.path.exists(obj) and os.path.exists(dep):
        try:
            with open(dep) as f:
                d = json.load(f)
            if d["key"] == key and all(fhash(p) == h for p, h in d["deps"].items()):
                return False
        except (ValueError, KeyError):
            pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    if os.path.exists(dep):
        os.unlink(dep)
    mm = obj + ".d"
    r = subprocess.run([cxx] + flags + ["-MMD", "-MF", mm, "-c", src, "-o", obj], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[-4000:]))
    with open(mm) as f:
        txt = f.read().replace("\\\n", " ")
    deps = [p for p in txt.split(":", 1)[1].split()]
    tmp = dep + ".tmp"
    with open(tmp, "w") as f:
        json.dump({"key": key, "deps": {p: fhash(p) for p in deps if p.startswith(("/repo", "/verif", REPO, VERIF, "."))}}, f)
    os.replace(tmp, dep)
    os.unlink(mm)
    return True


def build(variant, log=lambda *a: None):
    v = VARIANTS[variant]
    lib, own = sources(variant)
    out = os.path.join(BUILD, variant)
    os.makedirs(out, exist_ok=True)
    base = COMMON + v["flags"] + ["-I", os.path.join(SIM, "core"), "-I", os.path.join(SIM, "lib")] + inc_flags()
    jobs = []
    for s in lib:
        fl = list(base)
        if v.get("tsan"):
            fl += ["-fsanitize=thread"]
        jobs.append((s, fl, os.path.join(out, "lib", os.path.relpath(s, REPO).replace("/", "_") + ".o")))
    for s in own:
        jobs.append((s, base, os.path.join(out, "own", os.path.relpath(s, SIM).replace("/", "_") + ".o")))
    # longest first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    t = time.time()
    with ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(compile_one, v["cxx"], fl, s, o) for s, fl, o in jobs]
        errs, n = [], 0
        for f in futs:
            try:
                n += bool(f.result())
            except BuildError as e:
                errs.append(str(e))
    if errs:
        raise BuildError("\n".join(errs[:3]))
    exe = os.path.join(out, "sim")
    stamp = exe + ".stamp"
    objs = [o for _, _, o in sorted(jobs)]
    lkey = hashlib.sha1(json.dumps([objs, v["link"], [json.load(open(o + ".deps")) for o in objs]],
                                   sort_keys=True).encode()).hexdigest()
    if n or not os.path.exists(exe) or not os.path.exists(stamp) or open(stamp).read() != lkey:
        if os.path.exists(stamp):
            os.unlink(stamp)
        rsp = os.path.join(out, "objs.rsp")
        with open(rsp, "w") as f:
            f.write("\n".join(objs))
        r = subprocess.run([v["cxx"], "-o", exe + ".new", "@" + rsp] + v["link"], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode != 0:
            raise BuildError("linking %s failed:\n%s" % (variant, r.stdout[-4000:]))
        os.replace(exe + ".new", exe)
        with open(stamp, "w") as f:
            f.write(lkey)
    log("built %s: %d of %d objects compiled, %.1f s" % (variant, n, len(jobs), time.time() - t))
    return exe


class Env:
    """A private scratch directory for one invocation."""

    def __init__(self):
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"
        self.dir = tempfile.mkdtemp(prefix="vsim-", dir=base)
        self.env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "VSIM_TMP": self.dir, "LC_ALL": "C"}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


class Result:
    __slots__ = ("idx", "status", "log", "sig", "nch", "steps", "nt", "cls", "msg")

    def __init__(self, line):
        head, _, self.msg = line.partition(" | ")
        p = head.split(None, 8)
        self.idx = int(p[1])
        self.status = int(p[2])
        self.log, self.sig = p[3], p[4]
        self.nch = int(p[5])
        self.steps = float(p[6])
        self.nt = int(p[7])
        self.cls = p[8].strip() if len(p) > 8 else "-"


def run_range(exe, scen, seed, n, secs, env, thorough=False, start=0, cpu=20, workers=JOBS, maxviol=2):
    outdir = os.path.join(env.dir, "fails")
    os.makedirs(outdir, exist_ok=True)
    procs = []
    for w in range(min(workers, max(1, n))):
        cmd = [exe, "run", "--scen", scen, "--seed", str(seed), "--from", str(start + w), "--to", str(start + n),
               "--stride", str(workers), "--maxviol", str(maxviol), "--secs", str(secs), "--outdir", outdir,
               "--cpu", str(cpu)]
        if thorough:
            cmd.append("--thorough")
        f = tempfile.TemporaryFile(mode="w+", dir=env.dir)
        procs.append((subprocess.Popen(cmd, stdout=f, stderr=subprocess.PIPE, text=True, env=env.env), f))
    res, cnt, errors = [], {}, []
    for p, f in procs:
        _, err = p.communicate()
        f.seek(0)
        for line in f:
            line = line.rstrip("\n")
            if line.startswith("R "):
                res.append(Result(line))
            elif line.startswith("S "):
                _, kind, name, a, b = line.split()
                c = cnt.setdefault((kind, name), [0, 0])
                c[0] += int(a)
                c[1] += int(b)
            elif line.startswith("X "):
                errors.append(line)
        f.close()
        if p.returncode != 0:
            errors.append("worker exit %s: %s" % (p.returncode, (err or "")[-500:]))
    res.sort(key=lambda r: r.idx)
    return res, cnt, errors, outdir


def choices_of(exe, scen, seed, idx, env, thorough=False, cpu=20):
    """The choices run number idx makes."""
    outdir = os.path.join(env.dir, "dump")
    os.makedirs(outdir, exist_ok=True)
    cmd = [exe, "run", "--scen", scen, "--seed", str(seed), "--from", str(idx), "--to", str(idx + 1), "--dump",
           "--outdir", outdir, "--cpu", str(cpu)]
    if thorough:
        cmd.append("--thorough")
    subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env.env)
    fn = os.path.join(outdir, "fail_%d.choices" % idx)
    ch = read_choices(fn) if os.path.exists(fn) else None
    shutil.rmtree(outdir, ignore_errors=True)
    return ch


def read_choices(path):
    ch = []
    for tok in open(path).read().split():
        ch.append(int(tok.split("/")[0]))
    return ch


def replay(exe, scen, choices, env, verbose=False, cpu=20, thorough=False):
    fn = os.path.join(env.dir, "rep.choices")
    with open(fn, "w") as f:
        f.write(" ".join(map(str, choices)))
    cmd = [exe, "replay", "--scen", scen, "--choices", fn, "--cpu", str(cpu)]
    if verbose:
        cmd.append("--verbose")
    if thorough:
        cmd.append("--thorough")
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env.env)
    trace, r, extra = [], None, []
    for line in p.stdout.splitlines():
        if line.startswith("E "):
            trace.append(line[2:])
        elif line.startswith("R "):
            r = Result(line)
        elif line.startswith("S "):
            extra.append(line[2:])
    if r is None:
        raise RuntimeError("replay produced no verdict: %s %s" % (p.stdout[-300:], p.stderr[-300:]))
    return r, trace, extra


class Shrinker:
    """Minimises a choice sequence while the same violation class is reported."""

    def __init__(self, exe, scen, cls, env, thorough=False, secs=40, cpu=5):
        self.p = subprocess.Popen([exe, "replay", "--scen", scen, "--batch", "--cpu", str(cpu)] +
                                  (["--thorough"] if thorough else []),
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                                  env=env.env, errors="replace")
        self.fn = os.path.join(env.dir, "shrink.choices")
        self.cls = cls
        self.until = time.time() + secs
        self.tried = 0

    def test(self, ch):
        """the (trimmed) sequence if it still fails, else None"""
        if time.time() > self.until:
            return None
        self.tried += 1
        with open(self.fn, "w") as f:
            f.write(" ".join(map(str, ch)))
        self.p.stdin.write(self.fn + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line.startswith("R "):
            return None
        r = Result(line.rstrip("\n"))
        c = self.p.stdout.readline()
        used = [int(x) for x in c.split()[1:]]
        if r.status == 2 and r.cls == self.cls:
            while used and used[-1] == 0:
                used.pop()
            return used
        return None

    def run(self, ch):
        best = self.test(ch)
        if best is None:
            return ch
        improved = True
        while improved and time.time() < self.until:
            improved = False
            # delete chunks
            size = max(1, len(best) // 2)
            while size >= 1:
                i = 0
                while i < len(best):
                    t = self.test(best[:i] + best[i + size:])
                    if t is not None and (len(t), t) < (len(best), best):
                        best = t
                        improved = True
                    else:
                        i += size
                    if time.time() > self.until:
                        return best
                size //= 2
            # zero chunks, then reduce single values
            size = max(1, len(best) // 4)
            while size >= 1:
                for i in range(0, len(best), size):
                    if any(best[i:i + size]):
                        t = self.test(best[:i] + [0] * len(best[i:i + size]) + best[i + size:])
                        if t is not None and (len(t), t) < (len(best), best):
                            best = t
                            improved = True
                    if time.time() > self.until:
                        return best
                size //= 2
            i = 0
            while i < len(best):
                for v in (1, best[i] // 2, best[i] - 1):
                    if i < len(best) and 0 <= v < best[i]:
                        t = self.test(best[:i] + [v] + best[i + 1:])
                        if t is not None and (len(t), t) < (len(best), best):
                            best = t
                            improved = True
                            break
                i += 1
        return best

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()
