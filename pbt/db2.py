"""Database properties beyond the single-session map: cursors, snapshots, crashes, faults, space, opening."""
import os
import random
import struct

from .core import Fail, Invalid, Jit, Prop, Result, focus, jitter, run
from .db import (CREATE, ENTRY_OK, INTRA, MAPSIZE, PAGE, READERS, DbProp, Model, compile_ops, drive, history, key_family,
                 lock_flags, old_age, sample_ops, show, value_family, verify, vshow)


class C18(DbProp):
    id = "C18"
    rule = ("random histories followed by random walks of several cursors (first, last, next, prev, current, exact and range "
            "seeks at present, absent and extreme keys) in read and write transactions, every answer compared with a sorted "
            "list; non-trivial: at least 20 cursor moves over at least 10 entries")
    n_quick, n_thorough = 2400, 40000

    def gen(self, rng, i, tier):
        kind, ops = history(rng, rng.choice([20, 80, 300, 900]), dump_p=0.0, reopen_p=0.02, abort_p=0.05)
        keys = sorted({op[2] for op in ops if op[0] == "put"}) or ["00"]
        out = []
        _, fresh = key_family(rng)

        def seek_key():
            k = rng.choice(keys)
            r = rng.random()
            if r < 0.35:
                return k
            if r < 0.5:
                return k + rng.choice(["00", "ff", "61"])
            if r < 0.65:
                return k[:-2]
            if r < 0.8 and len(k) >= 2:
                return k[:-2] + "%02x" % rng.randrange(256)
            if r < 0.9:
                return rng.choice(["", "00", "ff" * 40])
            return fresh()[:2000]

        def walk(t, base):
            n = rng.choice([1, 1, 2, 3])
            for c in range(base, base + n):
                out.append(["copen", c, t])
            for _ in range(rng.choice([5, 30, 90])):
                c = base + rng.randrange(n)
                how = rng.choices(["first", "last", "next", "prev", "set", "range", "cur"], [2, 2, 10, 10, 4, 6, 5])[0]
                rep = rng.choice([1, 1, 1, 3, 12]) if how in ("next", "prev") else 1
                for _ in range(rep):
                    miss = rng.choice(["", "", "", "", "-v", "-k", "-kv"])
                    if how in ("set", "range"):
                        miss = miss.replace("k", "").rstrip("-")
                    out.append(["cget", c, how + miss, seek_key() if how in ("set", "range") else ""])
            for c in range(base, base + n):
                out.append(["cclose_", c])
        for op in ops:
            if op[0] in ("commit", "abort") and rng.random() < 0.3:
                walk("w", 0)
            out.append(op)
            if op[0] == "commit" and rng.random() < 0.25:
                out.append(["rbegin", 3])
                walk(3, 10)
                out += [["rend", 3, "a"]]
        out.append(["rbegin", 4])
        walk(4, 20)
        out += [["dump", 4], ["rdump", 4], ["rend", 4, "c"]]
        return {"kind": kind, "asan": i % 4 == 0, "plock": i % 7 == 3, "ops": [o for o in out if o[0] != "cclose_"]}

    def check(self, case, work):
        lines, steps = compile_ops(case["ops"], os.path.join(work, "db"), flags=lock_flags(case))
        out = drive(self.binary(case), lines)
        st = {}
        verify(lines, steps, out, Model(), st)
        return Result(st.get("moves", 0) >= 20 and st.get("entries", 0) >= 10, [case.get("kind", "?")], st.get("moves", 0) + 1)


class C19(DbProp):
    id = "C19"
    rule = ("histories with up to six (in some cases 126) overlapping read transactions that are dumped, queried and walked while write "
            "transactions commit, abort, delete and reuse pages, compared with the dictionary as it was when each reader began; one "
            "case in ten runs reader and writer threads and checks that every snapshot is one whole commit; "
            "non-trivial: a reader was looked at after at least two later commits, or threads ran")
    n_quick, n_thorough = 1600, 25000
    assumptions = ("at most 126 simultaneous readers; one process",)

    def setup(self, b):
        super().setup(b)
        self.mt = b.link("dbmt", ["dbmt.c"], "plain")
        self.jit = b.link("dbmt", ["dbmt.c", "jitter.c"], "jit")

    def gen(self, rng, i, tier):
        if i % 10 == 4:                 # long pauses in the middle of beginning or ending a transaction
            return {"mt": {"readers": rng.randint(1, 4), "writers": rng.randint(1, 2), "txns": rng.choice([100, 300, 600]),
                           "keys": rng.choice([1, 2, 7, 30]), "vlen": rng.choice([8, 60, 900]), "seed": rng.randrange(1 << 30),
                           "abort": rng.choice([0, 0, 20]), "del": rng.choice([0, 30]), "plock": rng.choice([0, 0, 1]),
                           "jit": focus(rng, rng.choice([1, 1, 2, 3, 8, 13, 15]))}}
        if i % 10 == 9:
            return {"mt": {"readers": rng.randint(1, 6), "writers": rng.randint(1, 3), "txns": rng.choice([40, 120, 300]),
                           "keys": rng.choice([1, 7, 60, 300]), "vlen": rng.choice([8, 60, 900]), "seed": rng.randrange(1 << 30),
                           "abort": rng.choice([0, 10, 40]), "del": rng.choice([0, 30]), "plock": rng.choice([0, 0, 1]),
                           "jit": jitter(rng) if i % 20 == 9 else 0}}
        if i % 20 == 3:
            return {"kind": "crowd", "asan": i % 3 == 0, "plock": i % 7 == 3, "ops": self.crowd(rng)}
        kind, ops = history(rng, rng.choice([60, 200, 600, 1500]), readers=rng.choice([1, 2, 4, 6]), reopen_p=0.0,
                            abort_p=rng.choice([0, 0.2]), misuse_p=0.01)
        # cursors kept open across commits of the writer
        out = []
        open_c = {}
        for op in ops:
            out.append(op)
            if op[0] == "rbegin" and rng.random() < 0.5:
                out.append(["copen", op[1], op[1]])
                out.append(["cget", op[1], rng.choice(["first", "last"]), ""])
                open_c[op[1]] = 1
            elif op[0] == "rend":
                open_c.pop(op[1], None)
            elif op[0] in ("put", "del", "commit") and open_c and rng.random() < 0.15:
                out.append(["cget", rng.choice(sorted(open_c)), rng.choice(["next", "prev", "next"]), ""])
        c = {"kind": kind, "asan": i % 6 == 0, "plock": i % 7 == 3, "ops": out}
        if i % 8 == 4:
            c["age"] = old_age(rng)
        return c

    def crowd(self, rng):
        """Up to as many readers as there can be, each on a snapshot of its own, some ended and begun again between commits."""
        top = rng.choice([30, 66, 100, READERS, READERS])
        nkeys = rng.choice([1, 20, 60])
        ops, active = [], []

        def txn():
            ops.append(["wbegin"])
            for k in range(nkeys):
                if rng.random() < rng.choice([0.3, 1]):
                    ops.append(["put", "w", "6b%04x" % k, rng.choice([4, 60]), rng.randrange(20)])
                elif rng.random() < 0.3:
                    ops.append(["del", "w", "6b%04x" % k])
            ops.append(["commit"] if rng.random() < 0.9 else ["abort"])
        txn()
        for t in range(top):
            ops.append(["rbegin", t])
            active.append(t)
            if rng.random() < 0.4:
                txn()
        ops += [["rtry"]] * 2
        order = rng.choice(["old", "new", "any", "keep-last", "keep-first"])
        for _ in range(rng.choice([10, 60, top])):
            if len(active) > 1:
                at = {"old": 0, "new": len(active) - 1, "any": rng.randrange(len(active)), "keep-last": rng.randrange(len(active) - 1),
                      "keep-first": 1 + rng.randrange(len(active) - 1)}[order]
                t = active.pop(at)
                ops += [["dump", t], ["rend", t, rng.choice("ac")]]
                if rng.random() < 0.3:
                    ops.append(["rbegin", t])
                    active.append(t)
            txn()
            if active and rng.random() < 0.5:
                ops.append(["dump", rng.choice(active)])
        for _ in range(4):
            txn()
        return ops

    def sample(self, case):
        return case if "mt" in case else super().sample(case)

    def check(self, case, work):
        if "mt" in case:
            c = case["mt"]
            if min(c["readers"], c["writers"], c["txns"], c["keys"]) < 1 or c["vlen"] < 8:
                raise Invalid()
            run_mt(self, c, work)
            return Result(True, ["threads"])
        path = os.path.join(work, "db")
        mapsize = self.age(path, case) if "age" in case else MAPSIZE
        lines, steps = compile_ops(case["ops"], path, mapsize=mapsize, flags=lock_flags(case))
        out = drive(self.binary(case), lines)
        st = {}
        verify(lines, steps, out, Model(), st)
        # how many readers were looked at after two commits
        begun, late, commits = {}, 0, 0
        for s in steps:
            if s[0] == "commit":
                commits += 1
            elif s[0] == "rbegin":
                begun[s[1]] = commits
            elif s[0] in ("dump", "rdump", "get") and s[1] in begun and commits - begun[s[1]] >= 2:
                late += 1
        return Result(late > 0, [case.get("kind", "?")] + (["late-reader"] if late else []), len(steps))


def run_mt(prop, c, work, timeout=90):
    binary = Jit(prop.jit, c["jit"]) if c.get("jit") else prop.mt
    r = run([binary, os.path.join(work, "db")] + [str(c[k]) for k in ("readers", "writers", "txns", "keys", "vlen", "seed", "abort", "del")] + [
        str(int(bool(c.get("plock")))), str(int(c.get("empty", 0)))],
            timeout=timeout)
    why = r.crashed()
    if why:
        raise Fail("threads: %s" % why)
    if r.rc != 0:
        raise Fail("threads: " + r.out.decode("utf-8", "replace")[-600:])
    return r.out.decode()


class C29(DbProp):
    id = "C29"
    flaky = True
    rule = ("write transactions from up to six threads, each reading a counter, doing work and writing counter+1 together "
            "with a batch of keys, with aborts and deletions mixed in; the counter has to equal the number of commits, every "
            "committed batch has to be whole, and no two write transactions may be inside at once; non-trivial: at "
            "least two writer threads committed")
    n_quick, n_thorough = 400, 5000
    jobs = 4
    assumptions = ("one process",)

    def setup(self, b):
        self.mt = b.link("dbmt", ["dbmt.c"], "plain")
        self.jit = b.link("dbmt", ["dbmt.c", "jitter.c"], "jit")

    def gen(self, rng, i, tier):
        return {"readers": rng.choice([0, 1, 2, 4]), "writers": rng.randint(2, 6), "txns": rng.choice([30, 80, 200]),
                "keys": rng.choice([1, 7, 60, 200]), "vlen": rng.choice([8, 60, 900]), "seed": rng.randrange(1 << 30),
                "abort": rng.choice([0, 10, 40]), "del": rng.choice([0, 30]), "plock": rng.choice([0, 0, 1]), "empty": rng.choice([0, 0, 10, 50]),
                "jit": jitter(rng) if i % 2 else focus(rng, rng.choice([4, 8, 12, 15])) if i % 4 == 2 else 0}

    def sample(self, case):
        return case

    def check(self, case, work):
        if min(case["writers"], case["txns"], case["keys"]) < 1 or case["vlen"] < 8:
            raise Invalid()
        run_mt(self, case, work)
        return Result(case["writers"] >= 2, ["writers-%d" % case["writers"]])


# --------------------------------------------------------------------------- crashes

def parse_log(path):
    """Events: (type, size, {offset: page})."""
    with open(path, "rb") as fh:
        data = fh.read()
    events, i, n = [], 0, len(data)
    while i < n:
        if data[i] == 69:          # 'E'
            size = struct.unpack_from("<Q", data, i + 2)[0]
            events.append((chr(data[i + 1]), size, {}))
            i += 10
        elif data[i] == 80:        # 'P'
            off = struct.unpack_from("<Q", data, i + 1)[0]
            events[-1][2][off] = data[i + 9:i + 9 + PAGE]
            i += 9 + PAGE
        else:
            raise RuntimeError("bad log")
    return events


class Disk:
    """What is durable, and the versions every page went through since the last completed sync."""

    def __init__(self):
        self.durable, self.size = {}, 0
        self.pending = {}          # offset -> list of later versions
        self.sizes = []
        self.now = {}
        self.now_size = 0

    def feed(self, ev):
        kind, size, pages = ev
        for off, p in pages.items():
            self.now[off] = p
            self.pending.setdefault(off, []).append(p)
        for off in [o for o in self.now if o >= size]:
            del self.now[off]
        if size != self.now_size:
            self.sizes.append(size)
        self.now_size = size
        if kind == "s":
            self.durable, self.size = dict(self.now), size
            self.pending, self.sizes = {}, []

    def image(self, rng, mode):
        """mode: 'all' (process killed), 'none', 'pages' (any subset of pages), 'sectors' (also torn pages), 'one', 'but-one'."""
        if mode == "all":
            return dict(self.now), self.now_size
        pages, size = dict(self.durable), self.size
        if mode == "none" or not (self.pending or self.sizes):
            return pages, size
        if mode == "all-size":
            return pages, self.now_size
        size = rng.choice([self.size] + self.sizes) if rng.random() < 0.3 else self.now_size
        offs = sorted(self.pending)
        if mode == "one":
            chosen = [rng.choice(offs)] if offs else []
        elif mode == "but-one":
            chosen = list(offs)
            if chosen:
                chosen.pop(rng.randrange(len(chosen)))
        else:
            p = rng.choice([0.2, 0.5, 0.8])
            chosen = [o for o in offs if rng.random() < p]
        for o in chosen:
            versions = self.pending[o]
            new = versions[-1] if rng.random() < 0.7 else rng.choice(versions)
            if mode == "sectors":
                old = pages.get(o, bytes(PAGE))
                new = b"".join((new if rng.random() < 0.5 else old)[s:s + 512] for s in range(0, PAGE, 512))
            pages[o] = new
        if chosen:
            size = max(size, max(chosen) + PAGE) if rng.random() < 0.7 else size
        return {o: p for o, p in pages.items() if o < size}, size


def write_image(path, pages, size):
    with open(path, "wb") as fh:
        fh.truncate(size)
        for o, p in pages.items():
            if o < size:
                fh.seek(o)
                fh.write(p[:size - o])


class C20(DbProp):
    id = "C20"
    level = "fault_enumeration"
    rule = ("histories whose file writes, truncations and syncs are recorded; at every recorded point of every commit, crash "
            "images are made from the durable contents plus chosen subsets of the unsynced pages, sectors and lengths, reopened, "
            "compared with the state before or after the commit in progress (after, once commit has returned), and then written to "
            "again; some images are used as the start of a second recorded history; non-trivial: at least one image lies "
            "strictly inside a commit")
    n_quick, n_thorough = 1600, 12800
    shrink_s = 60
    assumptions = ("a 512-byte sector is written whole or not at all", "fsync makes what was written before it durable",
                   "the crash does not happen while the database file is being created")

    def gen(self, rng, i, tier):
        big = i % 13 == 12
        kind, ops = history(rng, rng.choice([60, 200]) if not big else 600, dump_p=0.0, reopen_p=0.03,
                            abort_p=rng.choice([0, 0.2]), readers=rng.choice([0, 0, 2]))
        _, tail = history(rng, 12, dump_p=0.0, reopen_p=0.2, abort_p=0.1)
        return {"kind": kind, "ops": ops, "tail": tail, "seed": rng.randrange(1 << 30), "images": 24 if tier == "quick" else 48,
                "rounds": rng.choice([1, 1, 2])}

    def sample(self, case):
        return {"ops": sample_ops([o for o in case["ops"] if o[0] != "raw"]), "tail": sample_ops(case["tail"], 6),
                "images": case["images"], "rounds": case["rounds"]}

    def check(self, case, work):
        rng = random.Random(case["seed"])
        start = None                     # (image path, model state)
        inside = total = 0
        for rnd in range(max(1, case["rounds"])):
            start, a, b = self.round(case, work, rng, rnd, start)
            inside += a
            total += b
            if start is None:
                break
        return Result(inside > 0, [case.get("kind", "?")], total)

    def round(self, case, work, rng, rnd, start):
        db, log = os.path.join(work, "db%d" % rnd), os.path.join(work, "log%d" % rnd)
        m = Model()
        if start:
            os.rename(start[0], db)
            m.state = dict(start[1])
        ops = [["raw", "watch " + db], ["raw", "log " + log]] + case["ops"] + [["raw", "mark Z"]]
        bare_l, bare_s = compile_ops(ops, db)
        lines, steps = [], []
        for ln, st in zip(bare_l, bare_s):
            if st[0] == "commit":
                lines.append("mark B")
                steps.append(("raw",))
            lines.append(ln)
            steps.append(st)
            if st[0] == "commit":
                lines.append("mark C")
                steps.append(("raw",))
        out = drive(self.bin, lines)
        states = [dict(m.state)]
        # verify step by step, collecting the state after every commit
        stats = {}
        for i, st in enumerate(steps):
            verify([lines[i]], [st], out[i:i + 1], m, stats)
            if st[0] == "commit":
                states.append(dict(m.state))
        if not os.path.exists(log):
            raise Invalid()
        events = parse_log(log)
        disk = Disk()
        n_commit = 0                     # commits returned so far
        in_txn = False
        points = []                      # (event index, acceptable state indices, inside)
        for idx, ev in enumerate(events):
            if ev[0] == "B":
                in_txn = True
            elif ev[0] == "C":
                n_commit += 1
                in_txn = False
            elif ev[0] == "Z":
                break
            acc = [n_commit] if not in_txn else [n_commit, n_commit + 1]
            points.append((idx, [a for a in acc if a < len(states)], in_txn and ev[0] in "bws"))
        interesting = [p for p in points if p[2]]
        plain = [p for p in points if not p[2] and p[0] > 0]
        chosen = []
        budget = case["images"]
        # every synchronisation point is covered first, then random ones
        for _ in range(budget):
            pool = interesting if interesting and rng.random() < 0.85 else (plain or interesting)
            if pool:
                chosen.append(rng.choice(pool))
        chosen.sort(key=lambda p: p[0])
        images = []
        it = iter(chosen)
        nxt = next(it, None)
        for idx, ev in enumerate(events):
            disk.feed(ev)
            while nxt is not None and nxt[0] == idx:
                mode = rng.choice(["all", "none", "pages", "pages", "sectors", "sectors", "one", "but-one", "all-size"])
                path = os.path.join(work, "img%d_%d" % (rnd, len(images)))
                pages, size = disk.image(rng, mode)
                write_image(path, pages, size)
                images.append((path, nxt, mode))
                nxt = next(it, None)
        # every image: open, look, write on, look again
        lines, spans = [], []
        for path, p, mode in images:
            first = len(lines)
            lines += ["open %s %d %d" % (path, MAPSIZE, INTRA), "rbegin 0", "dump 0", "rdump 0", "rend 0 c"]
            spans.append(first)
            ops_l, ops_s = compile_ops(case["tail"], path, flags=INTRA)
            # compile_ops opens by itself
            lines += ["close"] + ops_l
        if not images:
            return None, 0, 0
        keep = rng.randrange(len(images))
        nxt_start = None
        keep_path = os.path.join(work, "start%d" % (rnd + 1))
        with open(images[keep][0], "rb") as a, open(keep_path, "wb") as b:
            b.write(a.read())
        out = drive(self.bin, lines)
        ops_l, ops_s = compile_ops(case["tail"], "x", flags=INTRA)
        for j, (path, p, mode) in enumerate(images):
            f = spans[j]
            what = "crash image %d (%s, event %d of %d, commits returned %s, inside=%s): " % (
                j, mode, p[0], len(events), p[1][0], p[2])
            ans = out[f:f + 6]
            if ans[0] != "OK":
                raise Fail(what + "does not open: %s" % ans[0])
            ok = [s for s in p[1] if ans[2] == show(states[s])]
            if not ok:
                from .db import diff
                raise Fail(what + "state is neither before nor after the commit; against the state before: " + diff(ans[2], show(states[p[1][0]])))
            if ans[3] != show(states[ok[0]], True):
                raise Fail(what + "backward scan differs from the forward one")
            mm = Model()
            mm.state = dict(states[ok[0]])
            try:
                verify(ops_l, ops_s, out[f + 6:f + 6 + len(ops_l)], mm, {})
            except Fail as e:
                raise Fail(what + "after recovery: %s" % e)
            if j == keep:
                nxt_start = (keep_path, states[ok[0]])
        return nxt_start, sum(1 for _, p, _ in images if p[2]), len(images)


# --------------------------------------------------------------------------- space

class C21(DbProp):
    id = "C21"
    rule = ("workloads that keep overwriting the same keys in hundreds of transactions, with aborts, reopenings and phases in which a "
            "reader pins an old snapshot; contents are compared with the dictionary and the file may not keep growing once it "
            "has been through a warm-up; non-trivial: at least 60 committed overwriting transactions after the warm-up")
    n_quick, n_thorough = 1000, 8000
    assumptions = ("the set of keys and the sizes of values stay the same; growth is judged only in phases without a pinned reader",)

    def gen(self, rng, i, tier):
        nkeys = rng.choice([1, 5, 40, 150, 500])
        vlen = rng.choice([8, 40, 300, 1200])
        kfmt = rng.choice(["%08x", "6b%06x", "6b%06x" + "61" * rng.choice([20, 200])])
        batch = rng.choice([1, 2, 5, 20])
        keys = [kfmt % (j * rng.choice([1, 7919]) % 65521) for j in range(nkeys)]
        keys = sorted(set(keys))
        warm, laps = 80, 160 if tier == "quick" else 500
        if i % 24 == 11:         # transactions that give up many hundreds of pages
            keys, vlen, warm, laps = ["6b%06x" % j for j in range(rng.choice([1000, 2000]))], rng.choice([1200, 1800]), 6, 12
            batch = len(keys)
        elif i % 24 == 23:       # slow leaks
            keys, warm, laps = keys[:rng.choice([1, 5, 40])], 300, 2500
            batch = rng.choice([1, 2])
        c = {"keys": keys, "vlen": vlen, "batch": batch, "warm": warm, "run": laps,
             "pin": rng.choice([0, 0, 1]), "abort": rng.choice([0, 0.2]), "delput": rng.random() < 0.4, "reopen": rng.choice([0, 0.05]),
             "order": "round" if i % 24 == 11 else rng.choice(["random", "round"]), "plock": i % 7 == 3, "seed": rng.randrange(1 << 30)}
        if i % 10 == 4:
            c["age"] = [old_age(rng)[0], 0]
        return c

    def sample(self, case):
        return dict(case, keys=case["keys"][:3] + ["... %d" % len(case["keys"])])

    def check(self, case, work):
        rng = random.Random(case["seed"])
        keys = case["keys"]
        if not keys or any(len(k) % 2 for k in keys):
            raise Invalid()
        vlen = case["vlen"]
        path = os.path.join(work, "db")
        sizes = []
        ops = [["wbegin"]]
        for k in keys:
            ops.append(["put", "w", k, vlen, 1])
        ops.append(["commit"])
        pos = [0]
        live = set(keys)

        def txn():
            ops.append(["wbegin"])
            for _ in range(min(case["batch"], len(keys))):
                if case["order"] == "round":
                    k = keys[pos[0] % len(keys)]
                    pos[0] += 1
                else:
                    k = rng.choice(keys)
                if case["delput"] and rng.random() < 0.3:
                    ops.append(["del", "w", k])
                ops.append(["put", "w", k, vlen, rng.randrange(20)])
            aborted = rng.random() < case["abort"]
            ops.append(["abort"] if aborted else ["commit"])
            if rng.random() < case["reopen"]:
                ops.append(["reopen"])
            return not aborted

        def sz(phase):
            ops.append(["size", lambda n, m, ph=phase: sizes.append((ph, n))])
        done = 0
        for j in range(case["warm"]):
            txn()
        big = case["batch"] >= 500
        if case["pin"]:
            ops.append(["rbegin", 1])
            for j in range(4 if big else 40):
                txn()
            ops += [["dump", 1], ["rend", 1, "a"]]
            for j in range(8 if big else 60):
                txn()
        ops += [["rbegin", 2], ["dump", 2], ["rend", 2, "c"]]
        for j in range(case["run"]):
            done += txn()
            if j % 20 == 0:
                sz("run")
        sz("end")
        ops += [["rbegin", 2], ["dump", 2], ["rend", 2, "c"]]
        if "age" in case:
            self.age(path, case)
        lines, steps = compile_ops(ops, path, flags=lock_flags(case), mapsize=2 * MAPSIZE)
        out = drive(self.bin, lines, timeout=90)
        verify(lines, steps, out, Model(), {})
        first, last = sizes[0][1], sizes[-1][1]
        # live pages are at most about three times the raw data plus a constant; a transaction may need a copy of the pages it touches
        if last > first * 1.25 + 24 * PAGE:
            raise Fail("the file keeps growing: %d bytes after the warm-up, %d after %d more overwriting commits of the same %d keys" % (
                first, last, done, len(keys)))
        return Result(done >= 60 or big and done >= 6, ["big"] if big else ["pin"] if case["pin"] else ["nopin"], len(steps))


# --------------------------------------------------------------------------- faults

ENOSPC, EIO, EINTR_, EDQUOT, EFBIG = 28, 5, 4, 122, 27


class C22(DbProp):
    id = "C22"
    level = "fault_enumeration"
    rule = ("histories in which chosen writes, syncs and extensions of the file fail (once or repeatedly, or are cut short), the memory "
            "map is full, entries are refused, or transactions are aborted; a failed commit or aborted transaction has to leave "
            "exactly the state before it, for open readers, later transactions and after reopening; non-trivial: a fault fired, a put was "
            "refused or a transaction was aborted after writing")
    n_quick, n_thorough = 7000, 56000

    def gen(self, rng, i, tier):
        mode = rng.choice(["fault", "fault", "full", "abort"])
        readers = rng.choice([0, 0, 2])
        kind, ops = history(rng, rng.choice([40, 120, 400, 900]), readers=readers, abort_p=0.1 if mode != "abort" else 0.5, reopen_p=0.06,
                            oversize=0.02 if mode == "abort" else 0, dump_p=0.03)
        mapsize = MAPSIZE
        if mode == "full":
            mapsize = rng.choice([4, 6, 9, 16, 30, 60]) * PAGE
        out = []
        for op in ops:
            if mode == "fault" and op[0] == "commit" and rng.random() < 0.35:
                what = rng.choice(["w", "w", "s", "a", "a"])
                nth = rng.choice([1, 1, 2, 3, 4, 5, 7, 12])
                flags = rng.choice(["-", "-", "k", "s"])
                out.append(["fault", what, nth, rng.choice([ENOSPC, EIO, EDQUOT]), flags])
                out.append(op)
                out.append(["nofault"])
            else:
                out.append(op)
        return {"mode": mode, "kind": kind, "mapsize": mapsize, "asan": i % 6 == 0, "plock": i % 7 == 3, "ops": out}

    def check(self, case, work):
        path = os.path.join(work, "db")
        ops = [["raw", "watch " + path]]
        fired = [0]

        def on_nofault(got, m):
            fired[0] += int(got)
            m.tight = case["mapsize"] < MAPSIZE
        for op in case["ops"]:
            if op[0] == "fault":
                ops.append(["raw", "fault %s %d %d %s" % tuple(op[1:]), lambda got, m: setattr(m, "tight", True)])
            elif op[0] == "nofault":
                ops.append(["raw", "nofault", on_nofault])
            else:
                ops.append(op)
        lines, steps = compile_ops(ops, path, mapsize=case["mapsize"], flags=lock_flags(case))
        out = drive(self.binary(case), lines)
        st = {}
        m = Model(tight=case["mapsize"] < MAPSIZE)
        verify(lines, steps, out, m, st)
        aborts = sum(1 for s in steps if s[0] == "abort")
        tags = [case["mode"]]
        if fired[0]:
            tags.append("fired")
        if st.get("failed_commits"):
            tags.append("failed-commit")
        return Result(bool(fired[0] or st.get("refused") or aborts or st.get("failed_commits")), tags, len(steps))


# --------------------------------------------------------------------------- opening

class C23(DbProp):
    id = "C23"
    rule = ("valid databases cut at arbitrary lengths, files of random bytes, empty and short files, directories, missing files, "
            "memory maps smaller than the data, one or both header pages damaged, and read-only opening; opening must answer with an error or "
            "with a database whose contents are those of a commit that happened, and never crash, create or change the file; non-trivial: "
            "the file is not simply a valid database opened with enough room")
    n_quick, n_thorough = 7000, 56000

    def gen(self, rng, i, tier):
        kind, ops = history(rng, rng.choice([10, 60, 200, 500]), dump_p=0.0, reopen_p=0.05, abort_p=0.05)
        how = rng.choice(["cut", "cut", "random", "short", "dir", "missing", "missing-ro", "map", "map", "meta0", "meta1", "both", "both", "extra", "ro", "pgno",
                          "zero-tail", "ok"])
        c = {"kind": kind, "ops": ops, "how": how, "seed": rng.randrange(1 << 30), "asan": i % 3 == 0}
        if i % 6 == 4 and how != "map":
            c["age"] = [old_age(rng)[0], 0]
        return c

    def check(self, case, work):
        rng = random.Random(case["seed"])
        path = os.path.join(work, "db")
        if "age" in case:
            self.age(path, case)
        lines, steps = compile_ops(case["ops"], path)
        out = drive(self.bin, lines)
        m = Model()
        states = [{}]
        for i, st in enumerate(steps):
            verify([lines[i]], [st], out[i:i + 1], m, {})
            if st[0] == "commit":
                states.append(dict(m.state))
        final = states[-1]
        with open(path, "rb") as fh:
            data = fh.read()
        how = case["how"]
        flags, mapsize = INTRA | (CREATE if rng.random() < 0.5 else 0), MAPSIZE
        target = path
        expect = None            # "error", "final" or None (error, or some committed state)
        if how == "cut":
            n = rng.choice([0, 1, 100, 4095, 4096, 8191, 8192, rng.randrange(len(data) + 1), max(0, len(data) - 1), max(0, len(data) - PAGE)])
            n = min(n, len(data))
            data = data[:n]
            expect = "error" if n < 8192 else None
        elif how == "random":
            data = bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 4096, 8192, 20000])))
            expect = "error"
        elif how == "short":
            data = b"\0" * rng.choice([0, 1, 4096, 8191])
            expect = "error"
        elif how in ("dir", "missing", "missing-ro"):
            data = None
            target = os.path.join(work, "other")
            flags = INTRA
            expect = "error"
            if how == "dir":
                os.mkdir(target)
                flags |= CREATE
            elif how == "missing-ro":
                flags = INTRA | 1
        elif how == "map":
            npages = len(data) // PAGE
            k = rng.randint(0, npages)
            mapsize = k * PAGE + rng.choice([0, 0, 1, 100])
            expect = "error" if mapsize < 2 * PAGE else None
        elif how in ("meta0", "meta1", "both"):
            b = bytearray(data)
            offs = {"meta0": [0], "meta1": [PAGE], "both": [0, PAGE]}[how]
            for o in offs:
                kind = rng.choice(["magic", "version", "zero", "noise"])
                if kind == "magic":
                    b[o + rng.randrange(4)] ^= 1 << rng.randrange(8)
                elif kind == "version":
                    b[o + 4 + rng.randrange(4)] ^= 1 << rng.randrange(8)
                elif kind == "zero":
                    b[o:o + PAGE] = bytes(PAGE)
                else:
                    b[o:o + PAGE] = bytes(rng.getrandbits(8) for _ in range(PAGE))
            data = bytes(b)
            expect = "error" if how == "both" else "one-meta"
        elif how == "pgno":
            # a page number of the newest header (root, last page, root of the list of free pages) that lies outside the file
            b = bytearray(data)
            t0, t1 = (struct.unpack_from("<Q", data, 8 + o)[0] for o in (0, PAGE))
            n = len(data) // PAGE
            struct.pack_into("<Q", b, (0 if t0 > t1 else PAGE) + rng.choice([16, 24, 32]), rng.choice([
                n, n, n + 1, n + 1000, MAPSIZE // PAGE - 1, MAPSIZE // PAGE, 1 << 31, 1 << 32, 1 << 52, (1 << 52) + 2, 1 << 63, (1 << 64) - 1]))
            data = bytes(b)
            expect = "error"
        elif how == "extra":
            data += bytes(rng.getrandbits(8) for _ in range(rng.choice([1, 100, 4096, 9000])))
            expect = "final"
        elif how == "zero-tail":
            data += bytes(rng.choice([4096, 40960]))
            expect = "final"
        elif how == "ro":
            flags = INTRA | 1
            expect = "final"
        else:
            expect = "final"
        if data is not None:
            with open(path, "wb") as fh:
                fh.write(data)
        # looked at first without writing
        lines = ["open %s %d %d" % (target, mapsize, flags), "rbegin 0", "dump 0", "rdump 0", "rend 0 a", "close"]
        r = self.open_run(case, [lines[0]])
        if r[0] != "OK":
            if expect in ("final",):
                raise Fail("%s: a valid database is refused: %s" % (how, r[0]))
            if expect == "one-meta":
                raise Fail("%s: one intact header page is enough, but opening fails: %s" % (how, r[0]))
            self.unchanged(target, data, how)
            if how.startswith("missing") and os.path.exists(target):
                raise Fail("opening a missing database without asking for its creation creates a file")
            return Result(True, [how, "refused"])
        if expect == "error":
            raise Fail("%s: opened although it cannot be a database" % how)
        if expect == "one-meta":
            # the other header page describes this or the previous commit; the previous one's pages may have been reused
            intact = 1 if how == "meta0" else 0
            t0, t1 = (struct.unpack_from("<Q", self.orig(case, work), 8 + o)[0] for o in (0, PAGE))
            newest = 0 if t0 > t1 else 1
            if intact != newest:
                return Result(True, [how, "older"])
            expect = "final"
        r = self.open_run(case, lines)
        if r[2] == show(final):
            if r[3] != show(final, True):
                raise Fail("%s: backward scan differs" % how)
        elif expect == "final" or r[2] not in [show(s) for s in states]:
            from .db import diff
            raise Fail("%s: contents were never committed like this: %s" % (how, diff(r[2], show(final))))
        self.unchanged(target, data, how)
        if how == "ro":
            r = self.open_run(case, lines[:1] + ["rbegin 1", "put 1 6161 3:1", "rend 1 a", "close"])
            if not r[2].startswith("ERR"):
                raise Fail("a put succeeds in a database opened read-only")
            # a write transaction cannot be committed, and leaves no trace
            n = rng.choice([1, 1, 30, 300])
            puts = ["put w 7a7a%06x %d:%d" % (k, rng.choice([0, 5, 900]), k % 200) for k in range(n)]
            r = self.open_run(case, lines[:3] + ["wbegin"] + puts + ["commit", "dump 0", "rbegin 1", "dump 1", "rend 1 a", "rend 0 a", "close"])
            if r[4 + n] == "OK":
                raise Fail("a commit succeeds in a database opened read-only")
            for k in (5, 7):
                if r[k + n] != show(final):
                    raise Fail("a transaction that could not be committed in a database opened read-only can be seen")
            self.unchanged(target, data, how)
        elif how in ("extra", "zero-tail", "ok", "meta0", "meta1"):
            # and it is still a working database
            lines, steps = compile_ops(case["ops"][-60:], path, flags=INTRA)
            m = Model()
            m.state = dict(final)
            verify(lines, steps, drive(self.binary(case), lines), m, {})
        return Result(how != "ok", [how, "opened"])

    def orig(self, case, work):
        # regenerate the undamaged file to read its headers
        p = os.path.join(work, "again")
        if not os.path.exists(p):
            if "age" in case:
                self.age(p, case)
            drive(self.bin, compile_ops(case["ops"], p)[0])
        with open(p, "rb") as fh:
            return fh.read()

    def open_run(self, case, lines):
        return drive(self.binary(case), lines + (["close"] if len(lines) == 1 and False else []))

    def unchanged(self, target, data, how):
        if data is None:
            return
        with open(target, "rb") as fh:
            if fh.read() != data:
                raise Fail("%s: merely opening the file changed it" % how)


PROPS = [C18, C19, C20, C21, C22, C23, C29]
