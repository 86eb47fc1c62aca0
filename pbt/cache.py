"""Properties of the hash cache."""
import os
import random

from .core import WRAP_POOL, Fail, Invalid, Jit, Prop, Result, jitter, run
from .db import CREATE, drive, hx, key_family, shorten


def entry(rng):
    return [rng.choice([0, 1, -1, rng.getrandbits(62), 1700000000000000]), rng.getrandbits(50), rng.choice([0, 1, 4096, rng.getrandbits(62)]),
            rng.getrandbits(64), rng.choice([0, rng.getrandbits(64)])]


def path_family(rng):
    kind = rng.choice(["files", "files", "deep", "prefix", "long", "utf8", "few"])
    space = rng.choice([5, 60, 600])
    if kind == "files":
        return lambda: "/data/dir%d/file%d" % (rng.randrange(9), rng.randrange(space))
    if kind == "deep":
        return lambda: "/" + "/".join(rng.choice("abc") for _ in range(rng.randint(1, 9)))
    if kind == "prefix":
        return lambda: "/a" * rng.randint(1, min(space, 200))
    if kind == "long":
        return lambda: "/" + "x" * rng.choice([1, 100, 254, 255, 500, 511, 900, 990]) + str(rng.randrange(space))
    if kind == "utf8":
        return lambda: "/" + "".join(rng.choice(["é", "日", "a", " ", "%", "\n", "\u00ff"]) for _ in range(rng.randint(0, 8)))
    return lambda: rng.choice(["/a", "/b", "/c", "/", ""])


def near(rng, p):
    """A path that is not the given one but could be mistaken for it."""
    return rng.choice([p + "/", p.rstrip("/") or "x", p + " ", p[:-1], p[1:], p.swapcase(), p.replace("/", "//", 1), p + "/.", "." + p, p + "\u00e9", p + p[-1:], p + "x" * rng.choice([1, 50, 200]),
                       p[:len(p) // 2], p[::-1], p[:-1] + "\x01"])


class CacheProp(Prop):
    def setup(self, b):
        self.bin = b.link("cachedrv", ["cachedrv.c", "iolog.c"], "plain")
        self.asan = b.link("cachedrv", ["cachedrv.c", "iolog.c", "wrap_pool.c"], "asan", ldflags=WRAP_POOL)
        self.jit = b.link("cachedrv", ["cachedrv.c", "iolog.c", "jitter.c"], "jit")

    def sample(self, case):
        if "ops" not in case:
            return case
        return {"ops": [[shorten(x, 40) for x in op] for op in case["ops"][:14]] + ["... %d operations" % len(case["ops"])]}


def hexp(p):
    return p.encode("utf-8").hex() or "-"


def run_history(prop, case, path, stats, binary):
    """Interprets the operations against the model, one driver process per 'restart'."""
    committed, work, marks, mode, wrote = {}, None, set(), None, False
    lines, wants = [], []

    def do(line, want):
        lines.append(line)
        wants.append(want)

    def fmt(e):
        if len(e) != 5:
            raise Invalid()
        return "OK " + " ".join(str(x) for x in e)

    def flush():
        nonlocal lines, wants
        out = drive(binary, lines)
        for i, w in enumerate(wants):
            if i >= len(out):
                raise Fail("no answer to %r" % lines[i])
            if callable(w):
                r = w(out[i])
                if r is not None:
                    raise Fail("%s: got %r, expected %s" % (lines[i][:200], out[i][:200], r))
            elif w is not None and out[i] != w:
                raise Fail("step %d: %s: got %r, expected %r" % (i, lines[i][:200], out[i][:200], w[:200]))
        lines, wants = [], []

    def full_check():
        do("bread", "OK")
        for p in sorted(stats["paths"]):
            do("look " + hexp(p), fmt(committed[p]) if p in committed else "NOTFOUND")
        do("eread", "OK")

    do("open " + path, "OK")
    for op in case["ops"]:
        k = op[0]
        if k in ("bread", "bwrite"):
            if mode:
                continue
            mode = k[1]
            wrote = False
            work = dict(committed)
            do(k, "OK")
        elif k == "end":
            if not mode:
                continue
            if mode == "r":
                do("eread", "OK")
            elif op[1] and len(op) > 2 and op[2] and wrote:         # with the file failing
                if op[2] not in ("a", "w", "s"):
                    raise Invalid()
                do("fault %s %s 1 5" % (path, op[2]), "OK")
                do("commit", lambda g: None if g.startswith("ERR") else "an error: the file cannot be written")
                do("nofault", None)
                do("look 2f61", lambda g: None if g.startswith("ERR") else "an error outside a transaction")
                mode = None
                stats["failed"] += 1
                full_check()
            elif op[1]:
                do("commit", "OK")
                committed = work
                stats["commits"] += 1
            else:
                do("abort", "OK")
            mode = None
        elif k == "look":
            stats["paths"].add(op[1])
            if mode:
                do("look " + hexp(op[1]), fmt(work[op[1]]) if op[1] in work else "NOTFOUND")
            else:
                do("look " + hexp(op[1]), lambda g: None if g.startswith("ERR") else "an error outside a transaction")
        elif k == "up":
            stats["paths"].add(op[1])
            if len(op[2]) != 5 or len(op[1].encode()) > 1000:
                raise Invalid()
            line = "up %s %s" % (hexp(op[1]), " ".join(str(x) for x in op[2]))
            if mode == "w":
                if op[1] in work:
                    stats["updates"] += 1
                do(line, "OK")
                wrote = True
                work[op[1]] = op[2]
            else:
                do(line, lambda g: None if g.startswith("ERR") else "an error outside a write transaction")
        elif k == "mark":
            do("mark " + hexp(op[1]), "OK")
            marks.add(op[1])
        elif k == "markmt":
            if not 1 <= op[1] <= 16:
                raise Invalid()
            rest = list(op[2])
            while rest:                    # as many per line as the driver reads at once
                n = size = 0
                while n < len(rest) and size + 6 * len(rest[n]) < 500000:
                    size += 6 * len(rest[n]) + 2
                    n += 1
                do("markmt %d %s" % (op[1], " ".join(hexp(p) for p in rest[:n])), "OK")
                rest = rest[n:]
            marks.update(op[2])
        elif k == "sweep":
            if mode:
                continue
            if len(op) > 1 and op[1]:     # with the file failing: all or nothing
                do("fault %s %s %d 5" % (path, op[1][0], op[1][1]), "OK")
                before, after = dict(committed), {p: e for p, e in committed.items() if p in marks}
                changed = before != after
                if not changed or op[1][1] > 1:
                    # may or may not reach the failing call
                    do("nofault", None)
                    do("sweep", "OK")
                    committed, marks = after, set()
                else:
                    do("sweep", lambda g: None if g.startswith("ERR") else "an error: the file cannot be written")
                    do("nofault", None)
                    stats["failed"] += 1
            else:
                do("sweep", "OK")
                gone = len(committed)
                committed = {p: e for p, e in committed.items() if p in marks}
                stats["swept"] += gone - len(committed)
                stats["kept"] += len(committed)
                marks = set()
            full_check()
        elif k in ("reopen", "restart"):
            if mode:
                continue
            do("close", "OK")
            marks = set()
            if k == "restart":
                flush()
                stats["restarts"] += 1
            do("open " + path, "OK")
        elif k == "die":                   # the process ends without closing anything
            flush()
            mode = None
            marks = set()
            stats["restarts"] += 1
            do("open " + path, "OK")
    if mode:
        do("eread" if mode == "r" else "abort", "OK")
    do("close", "OK")
    flush()
    do("open " + path, "OK")
    full_check()
    do("close", "OK")
    flush()


def big_ops(case):
    """Tens of thousands of entries, written in one or several transactions; with marks and a sweep if asked for."""
    n, plen, txns, share, seed = case["big"]
    if not (1 <= n <= 60000 and 1 <= plen <= 1000 and txns >= 1 and n * plen <= 20 << 20):
        raise Invalid()
    rng = random.Random(seed)
    paths = ["/" + "d" * (plen // 2) + "/%d" % j + "x" * (plen // 2) for j in range(n)]
    rng.shuffle(paths)
    ops, per = [], n // txns + 1
    for a in range(0, n, per):
        ops += [["bwrite"]] + [["up", p, [1, 2, j, j * 3, 4]] for j, p in enumerate(paths[a:a + per])] + [["end", True]]
    ops.append(["restart"])
    if share is not None:
        chosen = [p for p in paths if rng.random() < share]
        ops += [["markmt", 4, chosen[j:j + 2000]] for j in range(0, len(chosen), 2000)] + [["sweep"]]
    else:
        ops += [["bwrite"]] + [["up", p, [5, 6, 7, 8, 9]] for p in paths[::3]] + [["end", True]]
    return ops


def new_stats():
    return {"paths": set(), "commits": 0, "updates": 0, "swept": 0, "kept": 0, "restarts": 0, "failed": 0}


class C24(CacheProp):
    id = "C24"
    rule = ("random histories of upserts (repeated ones included), lookups, commits (some with the file failing), aborts, reopenings, process restarts and process "
            "deaths inside transactions, compared with a dictionary; non-trivial: at least two commits and an entry overwritten")
    n_quick, n_thorough = 1600, 20000

    def gen(self, rng, i, tier):
        if i % 400 == 399:
            return {"asan": False, "big": [50000, 200, rng.choice([1, 5]), None, rng.randrange(1 << 30)], "ops": []}
        np = path_family(rng)
        used = []
        ops = []
        for _ in range(rng.choice([3, 10, 30])):
            if rng.random() < 0.1:
                ops.append([rng.choice(["look", "look", "up"]), np()] if rng.random() < 0.5 else ["look", np()])
                if ops[-1][0] == "up":
                    ops[-1].append(entry(rng))
            ro = rng.random() < 0.2
            ops.append(["bread" if ro else "bwrite"])
            for _ in range(rng.choice([1, 5, 60, 200])):
                p = rng.choice(used) if used and rng.random() < 0.4 else np()
                if used and rng.random() < 0.12:
                    p = near(rng, rng.choice(used[-50:])).encode()[:1000].decode("utf-8", "ignore")
                if rng.random() < 0.3 or (ro and rng.random() < 0.9):
                    ops.append(["look", p])
                else:
                    ops.append(["up", p, entry(rng)])
                    used.append(p)
            if rng.random() < 0.08:
                ops.append(["die"])
                continue
            ops.append(["end", rng.random() < 0.8])
            if rng.random() < 0.06:
                ops[-1] = ["end", True, rng.choice("aws")]
            if rng.random() < 0.1:
                ops.append([rng.choice(["reopen", "restart", "die"])])
        return {"asan": i % 4 == 0, "ops": ops}

    def check(self, case, work):
        st = new_stats()
        if "big" in case:
            case = dict(case, ops=big_ops(case))
        run_history(self, case, os.path.join(work, "cache"), st, self.asan if case.get("asan") else self.bin)
        return Result(st["commits"] >= 2 and st["updates"] > 0, (["restart"] if st["restarts"] else []) + (["failed-commit"] if st["failed"] else []), len(case["ops"]))


class C25(CacheProp):
    id = "C25"
    rule = ("caches filled in several transactions, marked meanwhile and afterwards (by one or several threads, in any order, repeatedly, with paths that are "
            "not there) and swept, repeatedly and across restarts, also with the file failing during the sweep; what is left has to be "
            "exactly the marked entries, unchanged; non-trivial: a sweep both removed and kept entries")
    n_quick, n_thorough = 2400, 20000

    def gen(self, rng, i, tier):
        if i % 300 == 299:
            return {"asan": False, "big": [rng.choice([10000, 30000]), rng.choice([20, 200]), rng.choice([1, 5]), rng.choice([0.01, 0.5, 0.99]), rng.randrange(1 << 30)], "ops": []}
        np = path_family(rng)
        used = []
        ops = []
        for _ in range(rng.choice([1, 2, 5])):
            early = rng.choice([0, 0, 0, 0.3, 0.9])       # marked while the entry is being looked up or stored, as a scan does
            for _ in range(rng.choice([1, 1, 3])):
                ops.append(["bwrite"])
                for _ in range(rng.choice([1, 10, 80, 300])):
                    p = np()
                    if early and rng.random() < 0.2:
                        ops.append(["mark", np() if rng.random() < 0.3 or not used else rng.choice(used)])
                    if early and rng.random() < 0.2 and used:
                        ops.append(["look", rng.choice(used)])
                    ops.append(["up", p, entry(rng)])
                    if rng.random() < early:
                        ops.append(["mark", p])
                    used.append(p)
                ops.append(["end", rng.random() < 0.9])
                if early and rng.random() < 0.3:
                    ops.append(["bread"])
                    for p in rng.sample(used, min(len(used), 10)):
                        ops += [["look", p], ["mark", p]]
                    ops.append(["end", True])
            if rng.random() < 0.1:
                ops.append([rng.choice(["reopen", "restart"])])
            share = rng.choice([0, 0.1, 0.5, 0.9, 1.0])
            known = sorted(set(used))
            chosen = [p for p in known if rng.random() < share]
            if rng.random() < 0.3:       # a whole range stays or goes
                a = rng.randrange(len(known))
                b = rng.randint(a, len(known))
                chosen = known[a:b] if rng.random() < 0.5 else known[:a] + known[b:]
            chosen += [np() for _ in range(rng.choice([0, 3]))] + [p + "x" for p in chosen[:2]]
            chosen += [p for p in (near(rng, rng.choice(known)) for _ in range(rng.choice([0, 0, 5]))) if p not in known]
            rng.shuffle(chosen)
            if rng.random() < 0.5:
                ops.append(["markmt", rng.randint(1, 8), chosen[:3000]])
            else:
                ops += [["mark", p] for p in chosen]
            if rng.random() < 0.1:
                ops.append([rng.choice(["reopen", "restart"])])       # marks do not survive this
                ops += [["mark", p] for p in chosen[::2]]
            ops.append(["sweep", [rng.choice("aws"), 1]] if rng.random() < 0.15 else ["sweep"])
            if ops[-1] != ["sweep"] and rng.random() < 0.7:
                ops.append(["sweep"])
        return {"asan": i % 4 == 0, "ops": ops, "jit": jitter(rng) if i % 4 == 1 else 0}

    def check(self, case, work):
        st = new_stats()
        if "big" in case:
            case = dict(case, ops=big_ops(case))
        run_history(self, case, os.path.join(work, "cache"), st, self.asan if case.get("asan") else Jit(self.jit, case["jit"]) if case.get("jit") else self.bin)
        return Result(st["swept"] > 0 and st["kept"] > 0, (["failed-sweep"] if st["failed"] else []) + (["swept"] if st["swept"] else []), len(case["ops"]))


class C26(CacheProp):
    id = "C26"
    flaky = True
    rule = ("random sequences of opening, closing, writing, reading, aborting, marking, sweeping, and other processes probing, holding (this cache or others beside it), openings that fail because the file is no database, closing or being killed (also inside a "
            "write transaction); at any time at most one process has the cache open, and it can be opened whenever none has; one case in "
            "eight lets up to eight processes race for the cache, with delays around locking and closing, each adding one to a counter; "
            "non-trivial: an opening was refused and a later one succeeded, or at least two processes raced")
    n_quick, n_thorough = 3000, 24000

    def gen(self, rng, i, tier):
        if i % 8 == 7:
            return {"race": [rng.choice([2, 3, 5, 8]), rng.choice([10, 40, 120]), rng.randrange(1 << 30)], "jit": jitter(rng) if i % 16 == 7 else 0}
        ops = []
        for _ in range(rng.choice([4, 10, 25])):
            p = "/p%d" % rng.randrange(4)
            ops.append(rng.choice([["open"], ["open"], ["close"], ["probe"], ["probe"], ["probe"], ["hold", rng.choice("iw")], ["release", rng.choice(["kill", "close"])],
                                   ["write", p, entry(rng)], ["write", p, entry(rng)], ["abort", p, entry(rng)], ["look", p], ["mark", p], ["mark", p], ["sweep"],
                                   ["other", rng.randrange(5)], ["hold", rng.choice("iw"), rng.randrange(5)],
                                   ["spoil", rng.choice([-1, 1, 100, 8192, 20000])]]))
        return {"ops": ops, "name": rng.choice(["cache", "cache", "c", "k" * 100, "n" * 240, ".hidden", "x.db"])}

    def sibling(self, path, name, n):
        """Another cache with a name like this one's."""
        return os.path.join(path, [name + "2", name[:-1] + "Z", "Z" + name, "sub/" + name, "other.db"][n])

    def check(self, case, work):
        name = case.get("name", "cache")
        if not name or set(name) & set("/ \n") or "Z" in name or name in (".", "..") or len(name) > 240 or name.endswith(".lock"):
            raise Invalid()
        path = os.path.join(work, name)
        if "race" in case:
            procs, rounds, seed = case["race"]
            if not (1 <= procs <= 32 and rounds >= 1 and seed >= 0):
                raise Invalid()
            r = run(["cachedrv-race", path, str(procs), str(rounds), str(seed)], timeout=120,
                    executable=Jit(self.jit, case["jit"]) if case.get("jit") else self.bin)
            out = r.out.decode("utf-8", "replace").split("\n")
            if r.crashed() or out[0] != "ok":
                raise Fail("%d processes, %d rounds: %s" % (procs, rounds, r.crashed() or out[0]))
            if int(out[1]) == 0:
                raise Fail("no process could open a cache nobody had open")
            return Result(procs > 1, ["race"], int(out[1]))
        lines, wants = [], []
        mine = held = False
        holding_process = False
        data = {}
        marked = set()
        os.mkdir(os.path.join(work, "sub"))
        refused = reopened = spoilt = 0
        for op in case["ops"]:
            k = op[0]
            if k == "other":
                if not 0 <= op[1] < 5:
                    raise Invalid()
                if holding_process == op[1] + 2:
                    continue
                lines.append("probe " + self.sibling(work, name, op[1]))
                wants.append("OK")
            elif k in ("abort", "look", "mark", "sweep"):
                if not mine:
                    continue
                new = ["bwrite", "up %s %s" % (hexp(op[1]), " ".join(str(x) for x in op[2])), "abort"] if k == "abort" else \
                    ["bread", "look " + hexp(op[1]), "eread"] if k == "look" else ["mark " + hexp(op[1])] if k == "mark" else ["sweep"]
                lines += new
                wants += ["OK"] * len(new)
                if k == "look":
                    wants[-2] = "OK " + " ".join(str(x) for x in data[op[1]]) if op[1] in data else "NOTFOUND"
                elif k == "mark":
                    marked.add(op[1])
                elif k == "sweep":
                    data = {p: e for p, e in data.items() if p in marked}
                    marked = set()
            elif k == "spoil":          # an opening that fails has nothing open
                if mine or held:
                    continue
                if op[1] < -1 or op[1] > 1 << 20 or op[1] == 0:
                    raise Invalid()
                lines += ["spoil %s %d" % (path, op[1]), "open " + path, "probe " + path, "unspoil " + path, "probe " + path]
                wants += ["OK", "ERR", "REFUSED", "OK", "OK"]
                refused += 1
                reopened += 1
                spoilt += 1
            elif k == "open":
                if mine:
                    continue
                lines.append("open " + path)
                if held:
                    wants.append("ERR")
                    refused += 1
                else:
                    wants.append("OK")
                    mine = True
                    marked = set()
                    reopened += refused > 0
            elif k == "close":
                if not mine:
                    continue
                lines.append("close")
                wants.append("OK")
                mine = False
            elif k == "probe":
                lines.append("probe " + path)
                wants.append("REFUSED" if mine or held else "OK")
                refused += mine or held
                reopened += not (mine or held) and refused > 0
            elif k == "hold":
                if holding_process:
                    continue
                if len(op) > 2 and not 0 <= op[2] < 5:
                    raise Invalid()
                lines.append("hold %s %s" % (path if len(op) < 3 else self.sibling(work, name, op[2]), op[1]))
                holding_process = 1 if len(op) < 3 else op[2] + 2
                if len(op) > 2:
                    wants.append("OK")
                elif mine:
                    wants.append("REFUSED")
                    refused += 1
                else:
                    wants.append("OK")
                    held = True
            elif k == "release":
                if not holding_process:
                    continue
                lines.append("release " + op[1])
                wants.append("OK")
                held = holding_process = False
            elif k == "write":
                if not mine:
                    continue
                lines += ["bwrite", "up %s %s" % (hexp(op[1]), " ".join(str(x) for x in op[2])), "commit"]
                wants += ["OK", "OK", "OK"]
                data[op[1]] = op[2]
        if holding_process:
            lines.append("release kill")
            wants.append("OK")
        if mine:
            lines.append("close")
            wants.append("OK")
        lines += ["open " + path, "bread"]
        wants += ["OK", "OK"]
        for p in ("/p0", "/p1", "/p2", "/p3", "/holder"):
            lines.append("look " + hexp(p))
            wants.append("OK " + " ".join(str(x) for x in data[p]) if p in data else "NOTFOUND")
        lines += ["eread", "close"]
        wants += ["OK", "OK"]
        out = drive(self.bin, lines)
        for i, w in enumerate(wants):
            got = out[i] if i < len(out) else "(nothing)"
            if not (got == w or (w == "ERR" and got.startswith("ERR"))):
                raise Fail("step %d: %s: got %r, expected %r" % (i, lines[i], got, w))
        return Result(refused > 0 and reopened > 0, (["refused"] if refused else []) + (["spoilt"] if spoilt else []))


PROPS = [C24, C25, C26]
