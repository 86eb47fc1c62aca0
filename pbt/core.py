"""Small property-based testing framework used by every check of this directory.

A check is a subclass of Prop: it generates JSON-able cases from a seeded random.Random, runs each one
against code compiled from /repo's working tree, and compares with an oracle.  The runner counts cases,
shrinks the first failure to a small one, replays it, and writes the replay file and the evidence file.
"""
import hashlib
import json
import multiprocessing
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FTWIN_REPO", "/repo")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


class Fail(Exception):
    """The property does not hold for this case."""


class Invalid(Exception):
    """The case is outside the domain of the property (mostly made by shrinking); it counts as trivial."""


class Result:
    __slots__ = ("nontrivial", "tags", "weight")

    def __init__(self, nontrivial=True, tags=(), weight=1):
        self.nontrivial = nontrivial
        self.tags = tuple(tags)
        self.weight = weight


# --------------------------------------------------------------------------- build

COMMON = ["-g", "-DHAVE_CONFIG_H", "-DHAVE_APR", "-w", "-std=gnu11"]
VARIANTS = {
    "plain": ["-O1"],
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=undefined",
             "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "jit": ["-O1"],
}
# Compiled with a callback before every access to memory; see harness/jitter.c
JIT_WRAP = ["apr_palloc", "apr_pcalloc", "apr_pstrdup", "apr_pstrndup", "apr_pmemdup", "apr_file_open", "apr_mmap_create", "apr_hash_make",
            "apr_hash_get", "apr_hash_set"]
JIT = ["-fsanitize-coverage=func,trace-pc,trace-loads,trace-stores"]
LIBS = ["-lapr-1", "-laprutil-1", "-lpcre", "-ljansson", "-lgd", "-lpuzzle", "-larchive", "-lz", "-lbz2", "-lm",
        "-lpthread", "-ldl"]


def _apr_flags():
    out = subprocess.run(["apr-1-config", "--includes", "--cppflags"], capture_output=True, text=True).stdout.split()
    out += subprocess.run(["apu-1-config", "--includes"], capture_output=True, text=True).stdout.split()
    return out


def repo_sources():
    src = os.path.join(REPO, "src")
    out = []
    for root, dirs, files in os.walk(src):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".c", ".h")):
                out.append(os.path.join(root, f))
    return out


def _digest(paths, extra):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]


class Builder:
    """Compiles /repo's sources and the harnesses into /verif/build, keyed by their contents."""

    def __init__(self):
        self.root = os.path.join(VERIF, "build")
        os.makedirs(self.root, exist_ok=True)
        self.incs = ["-I" + os.path.join(VERIF, "harness", "include"), "-I" + os.path.join(REPO, "src"),
                     "-I" + os.path.join(REPO, "src/vendor/xxhash")] + _apr_flags()
        self.sources = repo_sources()
        self.headers_digest = _digest([p for p in self.sources if p.endswith(".h")] +
                                      [os.path.join(VERIF, "harness/include/config.h")], self.incs)

    def csources(self):
        """The C files that make up ftwin and the library parts (one object per file)."""
        return [p for p in self.sources if p.endswith(".c") and
                (os.path.dirname(p) == os.path.join(REPO, "src") or p.endswith("/xxhash/xxhash.c"))]

    def _cc(self, args):
        r = subprocess.run(args, capture_output=True, text=True)
        if r.returncode != 0:
            sys.stderr.write(" ".join(args) + "\n" + r.stderr[-4000:] + "\n")
            raise SystemExit(2)

    def obj(self, path, variant, defs=()):
        flags = COMMON + VARIANTS[variant] + list(defs)
        cc = "gcc"
        if variant == "jit" and path.startswith(os.path.join(REPO, "src")) and "vendor" not in path:
            cc, flags = "clang", flags + JIT
        key = _digest([path], (self.headers_digest, flags))
        out = os.path.join(self.root, "%s-%s-%s.o" % (os.path.basename(path)[:-2], variant, key))
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            self._cc([cc] + flags + self.incs + ["-c", path, "-o", tmp])
            os.rename(tmp, out)
        return out

    def link(self, name, harness, variant="plain", main=False, ldflags=(), defs=()):
        """Links harness/*.c files with the repository's objects (with ftwin's main() only if main)."""
        base = [] if main else ["-DFTWIN_TEST_BUILD"]
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(JOBS) as ex:
            repo = [ex.submit(self.obj, p, variant, base) for p in self.csources()]
            har = [ex.submit(self.obj, os.path.join(VERIF, "harness", h), variant, tuple(defs)) for h in harness]
            objs = [f.result() for f in har + repo]
        if variant == "jit":
            ldflags = list(ldflags) + ["-Wl,--wrap=" + f for f in JIT_WRAP]
        key = hashlib.sha256(repr((sorted(objs), ldflags)).encode()).hexdigest()[:20]
        out = os.path.join(self.root, "%s-%s-%s" % (name, variant, key))
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            self._cc(["gcc"] + VARIANTS[variant] + objs + list(ldflags) + ["-o", tmp] + LIBS)
            os.rename(tmp, out)
        return out

    def ftwin(self, variant="plain"):
        if variant == "jit":
            return self.link("ftwin", ["jitter.c"], variant, main=True)
        if variant == "asan":
            return self.link("ftwin", ["wrap_pool.c"], variant, main=True, ldflags=WRAP_POOL)
        return self.link("ftwin", [], variant, main=True)

    def shared(self, name, source, defs=()):
        """An LD_PRELOAD library made of one harness file."""
        path = os.path.join(VERIF, "harness", source)
        key = _digest([path], defs)
        out = os.path.join(self.root, "%s-%s.so" % (name, key))
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            self._cc(["gcc", "-O1", "-g", "-w", "-shared", "-fPIC"] + list(defs) + [path, "-o", tmp, "-ldl", "-lpthread"])
            os.rename(tmp, out)
        return out


# In sanitized builds, pool allocations become individual heap blocks, so that overruns are seen.
WRAP_POOL = ["-Wl,--wrap=apr_palloc", "-Wl,--wrap=apr_pstrdup", "-Wl,--wrap=apr_pmemdup", "-Wl,--wrap=apr_pstrndup",
             "-Wl,--wrap=apr_pstrmemdup"]

SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "TSAN_OPTIONS": "exitcode=98:halt_on_error=0:report_signal_unsafe=0",
}


def base_env(extra=None):
    env = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "LC_ALL": "C.UTF-8", "HOME": "/nonexistent",
           "TZ": "UTC"}
    env.update(SAN_ENV)
    if extra:
        env.update(extra)
    return env


class Run:
    __slots__ = ("rc", "out", "err", "timeout")

    def __init__(self, rc, out, err, timeout):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout

    def sanitizer(self):
        for mark in (b"ERROR: AddressSanitizer", b"runtime error:", b"WARNING: ThreadSanitizer", b"ERROR: ThreadSanitizer"):
            if mark in self.err:
                i = self.err.index(mark)
                return self.err[i:i + 600].decode("utf-8", "replace")
        return None

    def crashed(self):
        """A reason if the program died or hung, else None."""
        if self.timeout:
            return "still running after the time limit"
        s = self.sanitizer()
        if s:
            return s
        if self.rc is not None and self.rc < 0:
            return "killed by signal %d" % -self.rc
        return None


class Jit(str):
    """A program of a "jit" build, to be run under the schedule [seed, mean] or [seed, span, mask]."""

    def __new__(cls, path, sched):
        if not (isinstance(sched, list) and len(sched) in (2, 3) and all(isinstance(x, int) and 0 < x < 1 << 31 for x in sched)):
            raise Invalid()
        self = super().__new__(cls, path)
        self.env = {"JITTER": ",".join(map(str, sched))}
        return self


def jitter(rng):
    return [rng.randrange(1, 1 << 30), rng.choice([2, 5, 20, 100, 1000, 10000])]


def focus(rng, mask):
    return [rng.randrange(1, 1 << 30), rng.choice([3, 10, 30, 60, 150, 400]), mask]


def run(args, stdin=b"", timeout=60, cwd=None, env=None, preexec=None, executable=None):
    env = env or base_env()
    if isinstance(executable or args[0], Jit):
        env.update((executable or args[0]).env)
    p = subprocess.Popen(args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd,
                         env=env, start_new_session=True, preexec_fn=preexec,
                         executable=executable)
    try:
        out, err = p.communicate(stdin, timeout=timeout)
        return Run(p.returncode, out, err, False)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return Run(p.returncode, out, err, True)
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass


# --------------------------------------------------------------------------- properties

UNREADABLE = (FileNotFoundError, NotADirectoryError, IsADirectoryError, LookupError, ValueError, TypeError)


class Prop:
    id = None
    level = "exploration"
    rule = ""
    assumptions = ()
    n_quick = 400
    n_thorough = 4000
    soft_quick = 100.0        # seconds after which no new case is started
    soft_thorough = 1500.0
    flaky = False             # schedule-dependent: one more occurrence in many replays is enough
    shrink_s = 45.0
    jobs = JOBS

    def setup(self, builder):
        pass

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def check(self, case, work):
        """Raises Fail if the property is broken; returns a Result.  `work` is an empty scratch directory."""
        raise NotImplementedError

    def sample(self, case):
        return case

    def findings(self):
        """Known findings of the unchanged tree, re-checked on every run: list of (text, still_there)."""
        return []

    # -- running one case
    def judge(self, case, work):
        """check(), with output or files that the oracle cannot even read (gone, malformed) reported as a failure."""
        try:
            return self.check(case, work)
        except UNREADABLE as e:
            where = traceback.extract_tb(e.__traceback__)[-1]
            raise Fail("what the program left cannot be read back: %s: %s (%s, line %d)"
                       % (type(e).__name__, str(e)[:200], os.path.basename(where.filename), where.lineno))

    def attempt(self, case, shrinking=False):
        """None if the case passes or is invalid, else the message."""
        work = tempfile.mkdtemp(prefix="ftw-", dir=SCRATCH)
        try:
            (self.check if shrinking else self.judge)(case, work)
            return None
        except Invalid:
            return None
        except Fail as e:
            return str(e) or "failed"
        finally:
            rmtree(work)


def rmtree(path):
    def onerr(func, p, exc):
        try:
            if p != path:
                os.chmod(os.path.dirname(p), 0o700)
            if not os.path.islink(p):
                os.chmod(p, 0o700)
            func(p)
        except OSError:
            pass
    shutil.rmtree(path, onerror=onerr)


SCRATCH = None


def make_scratch():
    global SCRATCH
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > (2 << 30) else None
    SCRATCH = tempfile.mkdtemp(prefix="ftwin-verif-", dir=base)
    os.chmod(SCRATCH, 0o755)
    return SCRATCH


def case_rng(seed, pid, i):
    return random.Random("%d/%s/%d" % (seed, pid, i))


def _worker(prop, seed, tier, idxs, deadline, conn, stop):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    stats = {"n": 0, "nontrivial": set(), "tags": {}, "samples": [], "weight": 0}
    failure = None
    try:
        for i in idxs:
            if time.monotonic() > deadline or stop.is_set():
                break
            rng = case_rng(seed, prop.id, i)
            case = prop.gen(rng, i, tier)
            work = tempfile.mkdtemp(prefix="ftw-", dir=SCRATCH)
            began = time.monotonic()
            try:
                res = prop.judge(case, work) or Result()
            except Invalid:
                res = Result(False, ["skipped"])
            except Fail as e:
                failure = (i, case, str(e))
                if not prop.flaky or time.monotonic() - began > 15:
                    stop.set()
                stats["n"] += 1
                break
            finally:
                rmtree(work)
            stats["n"] += 1
            stats["weight"] += res.weight
            if res.nontrivial:
                stats["nontrivial"].add(hashlib.md5(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12])
                if len(stats["samples"]) < 2:
                    stats["samples"].append(prop.sample(case))
            for t in res.tags:
                stats["tags"][t] = stats["tags"].get(t, 0) + 1
        conn.send(("ok", stats, failure))
    except BaseException:
        conn.send(("error", traceback.format_exc(), failure))
    conn.close()


def run_cases(prop, seed, tier):
    n = prop.n_quick if tier == "quick" else prop.n_thorough
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    n = max(1, int(n * scale))
    soft = prop.soft_quick if tier == "quick" else prop.soft_thorough
    deadline = time.monotonic() + soft
    ctx = multiprocessing.get_context("fork")
    jobs = min(prop.jobs, n)
    stop = ctx.Event()
    procs = []
    for w in range(jobs):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(prop, seed, tier, range(w, n, jobs), deadline, b, stop))
        p.start()
        b.close()
        procs.append((p, a))
    total = {"n": 0, "nontrivial": set(), "tags": {}, "samples": [], "weight": 0}
    failures = []
    errors = []
    for p, a in procs:
        try:
            kind, stats, failure = a.recv()
        except EOFError:
            errors.append("a worker died")
            p.join()
            continue
        p.join()
        if failure:
            failures.append(failure)
        if kind == "error":
            errors.append(stats)
            continue
        total["n"] += stats["n"]
        total["weight"] += stats["weight"]
        total["nontrivial"] |= stats["nontrivial"]
        total["samples"] += stats["samples"]
        for t, c in stats["tags"].items():
            total["tags"][t] = total["tags"].get(t, 0) + c
    failures.sort(key=lambda f: f[0])
    return total, failures, errors


# --------------------------------------------------------------------------- shrinking

def _candidates(v):
    """Structurally smaller versions of a JSON value, biggest steps first."""
    if isinstance(v, list):
        n = len(v)
        size = n
        while size >= 1:
            for start in range(0, n, size):
                yield v[:start] + v[start + size:]
            size //= 2
        for i in range(n):
            for c in _candidates(v[i]):
                yield v[:i] + [c] + v[i + 1:]
    elif isinstance(v, dict):
        for k in list(v):
            for c in _candidates(v[k]):
                d = dict(v)
                d[k] = c
                yield d
    elif isinstance(v, bool):
        if v:
            yield False
    elif isinstance(v, int):
        if v > 0:
            for c in (0, 1, v // 2, v - 1):
                if c < v:
                    yield c
        elif v < 0:
            yield 0
    elif isinstance(v, str) and v:
        n = len(v)
        size = n
        while size >= 1:
            for start in range(0, n, size):
                yield v[:start] + v[start + size:]
            size //= 2


def shrink(prop, case, msg, budget):
    deadline = time.monotonic() + budget
    steps = 0
    improved = True
    while improved and time.monotonic() < deadline:
        improved = False
        for cand in _candidates(case):
            if time.monotonic() > deadline:
                break
            try:
                m = prop.attempt(cand, True)
            except Exception:
                continue      # a candidate the check cannot even run
            steps += 1
            if m is not None and prop.flaky:
                m = prop.attempt(cand, True) or prop.attempt(cand, True)
            if m is not None:
                case, msg = cand, m
                improved = True
                break
    return case, msg, steps


def confirm(prop, case):
    """Whether the failure is seen again, and its message.

    A deterministic failure is seen every time; one that depends on the schedule has to come back at least once (flaky
    properties) or twice (others) in a few dozen replays."""
    seen, msg = 0, None
    t_end = time.monotonic() + 120
    for k in range(40):
        t0 = time.monotonic()
        m = prop.attempt(case)
        if m is not None and time.monotonic() - t0 > 15:      # a hang: once more is enough
            return "slow", m
        if m is not None:
            seen, msg = seen + 1, m
            if prop.flaky or seen >= 2:
                return True, msg
        if time.monotonic() > t_end:
            break
    return False, msg


def save_replay(prop, case, msg, seed):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    blob = json.dumps({"property": prop.id, "message": msg, "case": case}, indent=1, sort_keys=True)
    path = os.path.join(d, "%s-%s.json" % (prop.id, hashlib.md5(blob.encode()).hexdigest()[:10]))
    with open(path, "w") as fh:
        fh.write(blob + "\n")
    return path


def write_evidence(prop, tier, seed, total, wall, violations, extra=None):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    cov = {"evaluations": total["n"], "distinct_nontrivial": len(total["nontrivial"]), "rule": prop.rule,
           "samples": total["samples"][:4], "classes": dict(sorted(total["tags"].items()))}
    if total["weight"] != total["n"]:
        cov["steps_checked"] = total["weight"]
    if extra:
        cov.update(extra)
    ev = {"property": prop.id, "tier": tier, "seed": seed, "level": prop.level, "coverage": cov,
          "assumptions": list(prop.assumptions), "wall_s": round(wall, 2), "violations": violations}
    tmp = os.path.join(d, ".%s.tmp" % prop.id)
    with open(tmp, "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    os.rename(tmp, os.path.join(d, prop.id + ".json"))


def main(prop, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    for i, a in enumerate(argv):
        if a in ("quick", "thorough"):
            tier = a
        if a == "--replay":
            replay = argv[i + 1]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.monotonic()
    make_scratch()
    try:
        prop.setup(Builder())
        if replay:
            with open(replay) as fh:
                case = json.load(fh)["case"]
            msg = None
            for _ in range(40 if prop.flaky else 1):
                msg = msg or prop.attempt(case)
            print("replay %s: %s" % (replay, msg or "passes"))
            return 1 if msg else 0
        total, failures, errors = run_cases(prop, seed, tier)
        for e in errors:
            sys.stderr.write(e + "\n")
        unconfirmed = 0
        reported = None
        for i, case, msg in failures:
            if unconfirmed and time.monotonic() - t0 > 500:
                unconfirmed += 1
                continue
            ok, m = confirm(prop, case)
            if ok == "slow":            # too long to be repeated for smaller cases
                reported = (case, m)
                break
            if ok:
                small, m, steps = shrink(prop, case, m, float(os.environ.get("VERIF_SHRINK", prop.shrink_s)))
                ok2, m2 = confirm(prop, small)
                if not ok2:
                    small, m2 = case, m
                reported = (small, m2 or m)
                break
            unconfirmed += 1
        if reported is None and prop.flaky and unconfirmed >= 2:
            reported = (failures[0][1], failures[0][2] + " (seen in %d cases)" % unconfirmed)
        status = 0
        for text, there in prop.findings():
            print("KNOWN-FINDING: property=%s %s" % (prop.id, text) if there else
                  "note: listed finding no longer occurs: %s" % text)
        if reported:
            path = save_replay(prop, reported[0], reported[1], seed)
            print("failure: " + reported[1][:3000])
            print("VIOLATION property=%s replay=%s" % (prop.id, path))
            status = 1
        write_evidence(prop, tier, seed, total, time.monotonic() - t0, 1 if reported else 0,
                       {"unconfirmed_failures": unconfirmed} if unconfirmed else None)
        if status == 0 and errors:
            return 3
        print("%s %s: %d cases, %d distinct non-trivial, %.1f s, classes %s" % (
            prop.id, tier, total["n"], len(total["nontrivial"]), time.monotonic() - t0, dict(sorted(total["tags"].items()))))
        return status
    finally:
        rmtree(SCRATCH)
