"""Database properties: script generator, reference model and crash-image construction."""
import bisect
import functools
import os
import random
import struct
import zlib

from .core import Fail, Invalid, Prop, Result, run

MAPSIZE = 64 << 20
CREATE, INTRA = 2, 4
READERS = 126                # that many read transactions may be open at once


@functools.lru_cache(maxsize=None)
def _stream(seed):
    x = (seed * 2654435761 + 12345) & 0xFFFFFFFF
    out = bytearray()
    for _ in range(70000 if seed == 0 else 4200):
        x = (x * 1103515245 + 12345) & 0xFFFFFFFF
        out.append((x >> 16) & 0xFF)
    return bytes(out)


@functools.lru_cache(maxsize=100000)
def vshow(n, seed):
    base = _stream(seed & 0xFFFFF)[:n]
    at = (seed >> 20) - 1          # the byte that is another one
    if 0 <= at < n:
        base = base[:at] + bytes([base[at] ^ 0x55]) + base[at + 1:]
    return "%d:%08x" % (n, zlib.crc32(base))


def hx(key):
    return key if key else "-"


# A put is guaranteed to succeed up to these sizes, and has to fail beyond the last ones.
KEY_OK = 1000
ENTRY_OK = 3900
PAGE = 4096


def must_fit(klen, vlen):
    return klen <= KEY_OK and klen + vlen <= ENTRY_OK


def cannot_fit(klen, vlen):
    return klen + vlen > PAGE - 18


class Model:
    """Reference: committed dict, write transaction (a copy), readers (snapshots)."""

    def __init__(self, tight=False):
        self.state = {}
        self.w = None
        self.put_keys = None
        self.readers = {}
        self.cursors = {}
        self.tight = tight       # the memory map may be full: puts and commits may fail cleanly
        self.broken_txn = False

    def txn(self, t):
        return self.w if t == "w" else self.readers.get(t)


def compile_ops(ops, path, tight=False, mapsize=MAPSIZE, flags=CREATE | INTRA):
    """Turns a list of operations into script lines, skipping those that make no sense where they stand.

    Returns (lines, steps): steps[i] describes what the i-th line is, for verify()."""
    lines, steps = ["open %s %d %d" % (path, mapsize, flags)], [("open",)]
    writing = False
    readers = set()
    cursors = {}

    def close_cursors(t):
        for c in [c for c, ct in cursors.items() if ct == t]:
            lines.append("cclose %d" % c)
            steps.append(("cclose", c))
            del cursors[c]

    def txn_ok(t):
        return writing if t == "w" else t in readers

    for op in ops:
        k = op[0]
        if k == "wbegin":
            if writing:
                continue
            writing = True
            lines.append("wbegin")
            steps.append(("wbegin",))
        elif k in ("commit", "abort"):
            if not writing:
                continue
            close_cursors("w")
            writing = False
            lines.append(k)
            steps.append((k,))
        elif k == "rbegin":
            t = op[1]
            if t in readers or len(readers) >= READERS:
                continue
            readers.add(t)
            lines.append("rbegin %d" % t)
            steps.append(("rbegin", t))
        elif k == "rtry":
            if len(readers) < READERS:
                continue
            lines.append("rtry")
            steps.append(("raw",))
        elif k == "rend":
            t = op[1]
            if t not in readers:
                continue
            close_cursors(t)
            readers.discard(t)
            lines.append("rend %d %s" % (t, op[2]))
            steps.append(("rend", t))
        elif k == "put":
            t, key, n, seed = op[1:5]
            if not txn_ok(t) or len(key) % 2:
                continue
            if t == "w":
                close_cursors("w")
            lines.append("put %s %s %d:%d" % (t, hx(key), n, seed))
            steps.append(("put", t, key, n, seed))
        elif k == "del":
            t, key = op[1:3]
            if not txn_ok(t) or len(key) % 2:
                continue
            if t == "w":
                close_cursors("w")
            cond = op[3] if len(op) > 3 and op[3] else None
            lines.append("del %s %s" % (t, hx(key)) + (" %d:%d" % tuple(cond) if cond else ""))
            steps.append(("del", t, key, cond))
        elif k == "get":
            t, key = op[1:3]
            if not txn_ok(t) or len(key) % 2:
                continue
            lines.append("get %s %s" % (t, hx(key)))
            steps.append(("get", t, key))
        elif k in ("dump", "rdump"):
            t = op[1]
            if not txn_ok(t):
                continue
            lines.append("%s %s" % (k, t))
            steps.append((k, t))
        elif k == "copen":
            c, t = op[1:3]
            if c in cursors or not txn_ok(t):
                continue
            cursors[c] = t
            lines.append("copen %d %s" % (c, t))
            steps.append(("copen", c, t))
        elif k == "cget":
            c, how, key = op[1:4]
            if c not in cursors or len(key) % 2 or "-k" in how and how.startswith(("set", "range")):
                continue
            lines.append("cget %d %s %s" % (c, how, hx(key)))
            steps.append(("cget", c, how, key))
        elif k == "reopen":
            if writing or readers:
                continue
            lines += ["close", "open %s %d %d" % (path, mapsize, flags)]
            steps += [("close",), ("open",)]
        elif k == "size":
            lines.append("size " + path)
            steps.append(("size",) + tuple(op[1:]))
        elif k == "raw":         # a driver command whose answer is not judged here
            lines.append(op[1])
            steps.append(("raw",) + tuple(op[2:]))
        else:
            raise Invalid("op %r" % (op,))
    # whatever is open at the end is looked at and closed
    for t in sorted(readers):
        close_cursors(t)
        lines += ["dump %d" % t, "rend %d a" % t]
        steps += [("dump", t), ("rend", t)]
    if writing:
        close_cursors("w")
        lines += ["dump w", "abort"]
        steps += [("dump", "w"), ("abort",)]
    lines += ["close", "open %s %d %d" % (path, mapsize, flags), "rbegin 159", "dump 159", "rdump 159", "rend 159 c", "close"]
    steps += [("close",), ("open",), ("rbegin", 159), ("dump", 159), ("rdump", 159), ("rend", 159), ("close",)]
    return lines, steps


def lock_flags(case):
    """Creating; the writer lock is one between processes (the default) or only between threads."""
    return CREATE | (0 if case.get("plock") else INTRA)


def show(d, rev=False):
    return "".join(" %s=%s" % (hx(k), d[k]) for k in sorted(d, reverse=rev, key=bytes.fromhex)) + " end NOTFOUND"


def diff(got, want):
    g, w = got.split(), want.split()
    gs, ws = set(g), set(w)
    return "extra %s; missing %s; order %s" % ([x for x in g if x not in ws][:6], [x for x in w if x not in gs][:6],
                                               "same set, other order" if gs == ws and g != w else "-")


def verify(lines, steps, out, m, stats):
    """Compares the driver's answers with the model, step by step."""
    for i, st in enumerate(steps):
        if i >= len(out):
            raise Fail("no answer to %r (line %d)" % (lines[i], i))
        got = out[i]
        k = st[0]

        def bad(want):
            raise Fail("step %d: %s: got %r, expected %s" % (i, lines[i][:200], got[:300], want))
        if k in ("open", "close", "rend", "copen", "cclose", "wbegin", "rbegin", "abort"):
            if got != "OK":
                bad("OK")
        if k == "wbegin":
            m.w = dict(m.state)
            m.put_keys = set()
        elif k == "commit":
            if got == "OK":
                m.state = m.w
                stats["commits"] = stats.get("commits", 0) + 1
            elif not m.tight:
                bad("OK")
            else:
                stats["failed_commits"] = stats.get("failed_commits", 0) + 1
            m.w = None
        elif k == "abort":
            m.w = None
        elif k == "rbegin":
            m.readers[st[1]] = m.state
        elif k == "rend":
            del m.readers[st[1]]
        elif k == "put":
            _, t, key, n, seed = st
            if t != "w":
                if not got.startswith("ERR"):
                    bad("an error (read transaction)")
                continue
            if key in m.put_keys and key in m.w:
                if got != "EEXIST" and not (cannot_fit(len(key) // 2, n) and got.startswith("ERR")):
                    bad("EEXIST (stored earlier by this transaction)")
            elif got == "OK":
                if cannot_fit(len(key) // 2, n):
                    bad("an error (larger than a page)")
                m.w[key] = vshow(n, seed)
                m.put_keys.add(key)
                stats["puts"] = stats.get("puts", 0) + 1
            elif must_fit(len(key) // 2, n) and not m.tight:
                bad("OK")
            elif not got.startswith("ERR"):
                bad("OK or an error")
            else:
                stats["refused"] = stats.get("refused", 0) + 1
        elif k == "del":
            _, t, key, cond = st
            if t != "w":
                if not got.startswith("ERR"):
                    bad("an error (read transaction)")
                continue
            if key in m.w and (not cond or m.w[key] == vshow(*cond)):
                if got != "OK":
                    bad("OK")
                del m.w[key]
                m.put_keys.discard(key)
                stats["dels"] = stats.get("dels", 0) + 1
            elif got != "NOTFOUND":
                bad("NOTFOUND")
        elif k == "get":
            d = m.txn(st[1])
            want = "OK " + d[st[2]] if st[2] in d else "NOTFOUND"
            if got != want:
                bad(want)
        elif k in ("dump", "rdump"):
            want = show(m.txn(st[1]), k == "rdump")
            if got != want:
                raise Fail("step %d: %s: %s" % (i, lines[i], diff(got, want)))
            stats["entries"] = max(stats.get("entries", 0), len(m.txn(st[1])))
        elif k == "copen":
            m.cursors[st[1]] = [sorted(m.txn(st[2]), key=bytes.fromhex), m.txn(st[2]), None]
        elif k == "cclose":
            del m.cursors[st[1]]
        elif k == "cget":
            cursor_step(m.cursors[st[1]], st[2], st[3], got, bad, stats)
        elif k == "size":
            if len(st) > 1:
                st[1](int(got.split()[1]), m)
        elif k == "raw":
            if len(st) > 1 and callable(st[1]):
                st[1](got, m)
    return m


def cursor_step(cur, how, key, got, bad, stats):
    """cur = [sorted keys, dict, position]; position None: not defined, -1: before first, len: past the end."""
    keys, d, pos = cur
    n = len(keys)
    how, _, miss = how.partition("-")

    def at(p):
        return "OK %s=%s" % ("" if "k" in miss else hx(keys[p]), "" if "v" in miss else d[keys[p]])
    if how == "first":
        new = 0 if n else None
    elif how == "last":
        new = n - 1 if n else None
    elif how in ("set", "range"):
        b = bytes.fromhex(key)
        p = bisect.bisect_left([bytes.fromhex(x) for x in keys], b)
        if how == "set":
            new = p if p < n and keys[p] == key else None
        else:
            new = p if p < n else None
    elif pos is None:
        return                     # nothing is promised for a cursor that is not positioned
    elif how == "next":
        if pos == n:
            new = n
        elif pos == -1:
            return
        else:
            new = pos + 1
        cur[2] = new
        if got != (at(new) if new < n else "NOTFOUND"):
            bad(at(new) if new < n else "NOTFOUND")
        stats["moves"] = stats.get("moves", 0) + 1
        return
    elif how == "prev":
        if pos == -1:
            new = -1
        elif pos == n:
            return
        else:
            new = pos - 1
        cur[2] = new
        if got != (at(new) if new >= 0 else "NOTFOUND"):
            bad(at(new) if new >= 0 else "NOTFOUND")
        stats["moves"] = stats.get("moves", 0) + 1
        return
    else:                          # cur
        if 0 <= pos < n and got != at(pos):
            bad(at(pos))
        stats["moves"] = stats.get("moves", 0) + 1
        return
    cur[2] = new
    want = at(new) if new is not None else "NOTFOUND"
    if got != want:
        bad(want)
    stats["moves"] = stats.get("moves", 0) + 1


def drive(binary, lines, timeout=30, env=None):
    r = run([binary], ("\n".join(lines) + "\n").encode(), timeout=timeout, env=env)
    why = r.crashed()
    if why:
        out = r.out.decode().split("\n")
        raise Fail("the program died after %d of %d operations (next: %s): %s" % (
            len(out) - 1, len(lines), lines[min(len(out) - 1, len(lines) - 1)][:160], why))
    if r.rc != 0:
        raise Fail("driver exit %s: %s" % (r.rc, r.err[-500:].decode("utf-8", "replace")))
    return r.out.decode().split("\n")[:-1]


# --------------------------------------------------------------------------- generators

def key_family(rng):
    """A function making keys (hex strings) that collide, neighbour and differ in length in various ways."""
    kind = rng.choice(["int", "int", "seq", "rev", "path", "bytes", "long", "nested", "huge", "tall", "flat", "tiny"])
    space = rng.choice([8, 40, 200, 1000])
    if kind == "int":
        return kind, lambda: "%08x" % rng.randrange(space)
    if kind in ("seq", "rev"):
        state = [0 if kind == "seq" else 1 << 24]
        step = 1 if kind == "seq" else -1

        def seq():
            if rng.random() < 0.25:
                lo, hi = (0, state[0]) if kind == "seq" else (state[0], 1 << 24)
                return "%08x" % rng.randint(lo, hi)
            state[0] += step
            return "%08x" % state[0]
        return kind, seq
    if kind == "path":
        words = ["home", "usr", "a", "lib", "photos", "x" * 40, "img_%d", "doc%d.txt"]

        def path():
            parts = [rng.choice(words) for _ in range(rng.randint(1, 5))]
            s = "/" + "/".join(p % rng.randrange(space) if "%d" in p else p for p in parts)
            return s.encode().hex()
        return kind, path
    if kind == "bytes":
        return kind, lambda: bytes(rng.choice([0, 1, 0x7F, 0x80, 0xFF, rng.randrange(256)]) for _ in range(rng.choice([0, 1, 1, 2, 3, 8, 30]))).hex()
    if kind == "long":
        ln = rng.choice([100, 300, 500, 900, 1000])

        def longk():
            x = rng.randrange(space)
            return (b"p" * (ln - 4) + x.to_bytes(4, "big")).hex() if rng.random() < 0.8 else ("%04x" % x) + "70" * rng.randint(0, ln)
        return kind, longk
    if kind == "nested":           # every key a prefix of the next
        return kind, lambda: "61" * rng.randrange(min(space, 600))
    if kind == "tall":             # long keys in order: few fit in a branch
        ln, step, last = rng.choice([700, 900, 1000, 1000, 1340, 2000, 2020]), rng.choice([1, 1, -1]), [1 << 24]
        top = rng.random() < 0.5

        def tall():
            last[0] += step
            x = last[0] if rng.random() < 0.97 else (1 << 24) + step * rng.choice([100000, 0, rng.randrange(400)])
            return ("70" * (ln - 4) + "%08x" % x) if top else ("%08x" % x + "70" * (ln - 4))
        return kind, tall
    if kind == "flat":             # the shortest keys in order: as many as possible in a branch
        at, stride = [0], rng.choice([1, 1, 60])

        def flat():
            at[0] = (at[0] + stride) % 65535
            return "%04x" % (at[0] if rng.random() < 0.95 else rng.randrange(65536))
        return kind, flat
    if kind == "tiny":             # as many entries as possible in a leaf: all keys of one byte before those of two
        order = list(range(256))
        if rng.random() < 0.5:
            rng.shuffle(order)

        def tiny():
            if order and rng.random() < 0.98:
                return "%02x" % order.pop()
            return "%04x" % rng.randrange(65536) if rng.random() < 0.98 else "%06x" % rng.randrange(1 << 24)
        return kind, tiny
    # huge: mixtures of short and very long keys
    return kind, lambda: "%04x" % rng.randrange(space) + "7a" * rng.choice([0, 0, 3, 200, 900, 998])


def value_family(rng):
    kind = rng.choice(["small", "small", "mixed", "fat", "growing", "entry", "empty"])
    if kind == "small":
        return lambda: (rng.randrange(0, 24), rng.randrange(20))
    if kind == "mixed":
        return lambda: (rng.choice([0, 1, 10, 60, 200, 700, 1300, 2500]), rng.randrange(20))
    if kind == "fat":
        return lambda: (rng.randrange(600, 2800), rng.randrange(20))
    if kind == "entry":
        return lambda: (40, rng.randrange(20))
    if kind == "empty":
        return lambda: (0, 0)
    st = [1]

    def growing():
        st[0] = min(2800, st[0] + rng.randrange(0, 12))
        return (st[0], rng.randrange(20))
    return growing


def history(rng, nops, readers=0, cursors=0, oversize=0.01, dump_p=0.02, abort_p=0.15, reopen_p=0.05, del_p=0.2,
            misuse_p=0.0):
    """A random operation history."""
    kind, nk = key_family(rng)
    nv = value_family(rng)
    used = []
    ops = []
    del_p = rng.choice([0.0, del_p, 0.5, del_p])
    get_p = rng.choice([0.05, 0.2])
    txn_len = rng.choice([1, 3, 12, 60, 250])
    reuse = rng.choice([0.1, 0.4, 0.8])
    sweep_p = rng.choice([0.0, 0.0, 0.15, 0.4])
    active = []
    wr = False
    left = 0
    step = 0
    purge = rng.random() < 0.2
    if kind == "flat" and nops >= 300:
        nops, txn_len, reuse, del_p, sweep_p, purge = max(nops, 900), 250, 0.2, min(del_p, 0.1), 0.0, False
        nv = lambda: (rng.randrange(1400, 2800), rng.randrange(20))
    if kind == "tiny" and nops >= 300:
        nops, txn_len, reuse, del_p, sweep_p, purge = max(nops, 1000), 250, 0.05, min(del_p, 0.05), 0.0, False
        nv = lambda: (0 if rng.random() < 0.98 else 1, 1)
    stored = {}
    while step < nops:
        step += 1
        if readers and rng.random() < 0.08:
            if active and (len(active) >= readers or rng.random() < 0.5):
                t = active.pop(rng.randrange(len(active)))
                ops.append(["dump", t])
                ops.append(["rend", t, rng.choice("ac")])
            else:
                t = next(x for x in range(readers + 1) if x not in active)
                active.append(t)
                ops.append(["rbegin", t])
        if active and rng.random() < 0.06:
            t = rng.choice(active)
            if rng.random() < 0.5 or not used:
                ops.append([rng.choice(["dump", "rdump"]), t])
            else:
                ops.append(["get", t, rng.choice(used)])
        if misuse_p and active and rng.random() < misuse_p:
            ops.append(["put", rng.choice(active), nk(), 3, 1] if rng.random() < 0.5 else ["del", rng.choice(active), nk()])
        if not wr:
            if rng.random() < reopen_p and not active:
                ops.append(["reopen"])
            ops.append(["wbegin"])
            wr = True
            left = rng.randint(1, txn_len)
            if used and rng.random() < sweep_p:      # a sweep: delete a range or a random share of everything
                ks = sorted(set(used), key=bytes.fromhex)
                a = rng.randrange(len(ks))
                b = rng.randrange(a, len(ks)) + 1
                share = rng.choice([0.5, 1.0, 1.0])
                for k in ks[a:b]:
                    if rng.random() < share:
                        ops.append(["del", "w", k])
            continue
        if left <= 0:
            if rng.random() < dump_p * 10:
                ops.append([rng.choice(["dump", "rdump"]), "w"])
            ops.append(["abort"] if rng.random() < abort_p else ["commit"])
            wr = False
            continue
        left -= 1
        r = rng.random()
        key = rng.choice(used) if used and rng.random() < reuse else nk()
        if r < del_p:
            if rng.random() < 0.1:
                ops.append(["del", "w", key, list(nv())])
            elif rng.random() < 0.15:      # only if it is this value: the right one, or all but one byte of it
                n, s = stored.get(key, (3, 3))
                ops.append(["del", "w", key, [n, s if n == 0 or rng.random() < 0.4 else s + (1 + rng.choice([0, n - 1, rng.randrange(n), rng.randrange(n)]) << 20)]])
            else:
                ops.append(["del", "w", key])
        elif r < del_p + get_p:
            ops.append(["get", "w", key])
        else:
            n, s = nv()
            if len(key) // 2 + n > ENTRY_OK and rng.random() > oversize:
                n = max(0, ENTRY_OK - len(key) // 2)
            if rng.random() < oversize:
                if rng.random() < 0.5:
                    n = rng.choice([4000, 4050, 4066, 4074, 4075, 4100, 5000, 65530, 65536, 65540, 66000])
                    s = 0
                else:
                    key = (key + "62" * 70000)[: 2 * rng.choice([1025, 2000, 2027, 2028, 3000, 4090, 65536 + len(key) // 2, 65537])]
            else:
                used.append(key)
            ops.append(["put", "w", key, n, s])
            stored[key] = (n, s)
        if rng.random() < dump_p:
            ops.append([rng.choice(["dump", "rdump"]), "w"])
    if wr:
        ops.append(["commit"] if rng.random() < 0.7 else ["abort"])
    return kind, ops


def shorten(v, n=120):
    s = str(v)
    return s if len(s) <= n else s[:n] + "..."


def sample_ops(ops, n=14):
    return [[shorten(x, 40) for x in op] for op in ops[:n]] + (["... %d operations" % len(ops)] if len(ops) > n else [])


class DbProp(Prop):
    variant = "plain"

    def setup(self, b):
        self.bin = b.link("dbdrv", ["dbdrv.c", "iolog.c"], "plain")
        self.asan = b.link("dbdrv", ["dbdrv.c", "iolog.c", "wrap_pool.c"], "asan", ldflags=CORE_WRAP)

    def sample(self, case):
        c = dict(case)
        c["ops"] = sample_ops(case["ops"])
        return c

    def binary(self, case):
        return self.asan if case.get("asan") else self.bin

    def age(self, path, case, flags=CREATE | INTRA):
        """Creates an empty database that has seen case["age"] = [commits, pages] before; returns the size of memory map it needs.

        The words to change are found by looking at an empty database: one counts commits, one holds the last page."""
        commits, pages = case["age"]
        if not 0 <= commits < 1 << 62 or not 0 <= pages < 1 << 36:
            raise Invalid()
        drive(self.bin, ["open %s %d %d" % (path, MAPSIZE, flags), "close"])
        with open(path, "r+b") as fh:
            head = fh.read(2 * PAGE)
            w0, w1 = struct.unpack_from("<64Q", head, 0), struct.unpack_from("<64Q", head, PAGE)
            count = [j for j in range(64) if w0[j] == 0 and w1[j] == 1]
            last = [j for j in range(64) if w0[j] == 1 and w1[j] == 1]
            if len(count) != 1 or len(last) != 1:
                raise Invalid("another file format")
            for o, n in ((0, 0), (PAGE, 1)):
                fh.seek(o + 8 * count[0])
                fh.write(struct.pack("<Q", n + commits))
                fh.seek(o + 8 * last[0])
                fh.write(struct.pack("<Q", 1 + pages))
            try:
                fh.truncate((2 + pages) * PAGE)
            except OSError:
                raise Invalid("the file system has no such large files")
        return MAPSIZE + pages * PAGE


def old_age(rng):
    """Just below the places where counters of fewer bits would wrap."""
    return [rng.choice([1 << 8, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 32, 1 << 40]) + rng.choice([-30, -5, -2, 100]) if rng.random() < 0.8 else 0,
            rng.choice([1 << 15, 1 << 16, 1 << 19, 1 << 20, 1 << 31, 1 << 32]) - rng.choice([3, 30, 200]) if rng.random() < 0.5 else 0]


from .core import WRAP_POOL as CORE_WRAP  # noqa: E402


class C17(DbProp):
    id = "C17"
    rule = ("random histories of put, get, conditional and plain delete, commit, abort, reopen over several key and value "
            "families, under either kind of writer lock, some of them with transactions over hundreds of pages, compared answer by answer and by full scans with a Python dictionary; non-trivial: at least two "
            "commits and more entries than fit in one page, or a refused oversized entry, or a deletion")
    n_quick, n_thorough = 1100, 12000

    def gen(self, rng, i, tier):
        if i % 60 == 59:
            return {"kind": "bulk", "bulk": rng.choice([[3000, 1200], [30000, 20], [1200, 3000], [8000, 300]]), "rounds": rng.choice([2, 4]),
                    "seed": rng.randrange(1 << 30), "plock": False, "ops": []}
        n = rng.choice([30, 120, 400, 1200]) if i % 16 else rng.choice([3000, 6000])
        kind, ops = history(rng, n, oversize=rng.choice([0, 0.02]), reopen_p=0.1)
        c = {"kind": kind, "asan": i % 5 == 0 and n < 2000, "plock": i % 7 == 3, "ops": ops}
        if i % 12 == 6:
            c["age"] = old_age(rng)
        return c

    def bulk(self, case):
        """A few transactions, each of which touches thousands of entries and hundreds of pages."""
        n, vlen = case["bulk"]
        if n < 1 or not 0 <= vlen <= ENTRY_OK - 8 or case["rounds"] < 0 or n * vlen > 6 << 20:
            raise Invalid()
        rng = random.Random(case["seed"])
        keys = ["6b%06x" % (j * 7919 % 1000003) for j in range(n)]
        ops = [["wbegin"]] + [["put", "w", k, vlen, j % 19 + 1] for j, k in enumerate(keys)] + [["commit"]]
        for _ in range(case["rounds"]):
            ops.append(["wbegin"])
            what = rng.choice(["put", "del", "mix", "range"])
            share = rng.choice([0.3, 0.7, 1.0])
            order = sorted(keys) if rng.random() < 0.5 else list(keys)
            if what == "range":
                a = rng.randrange(len(order))
                order = order[a:rng.randrange(a, len(order)) + 1]
            for k in order:
                if rng.random() < share:
                    put = what == "put" or what == "mix" and rng.random() < 0.5
                    ops.append(["put", "w", k, vlen, rng.randrange(1, 20)] if put else ["del", "w", k])
            ops.append(["commit"] if rng.random() < 0.8 else ["abort"])
            if rng.random() < 0.5:
                ops += [["wbegin"]] + [["put", "w", k, vlen, 1] for k in keys[::50]] + [["commit"]]
        return ops

    def check(self, case, work):
        if "bulk" in case:
            case = dict(case, ops=self.bulk(case))
        path = os.path.join(work, "db")
        mapsize = self.age(path, case) if "age" in case else MAPSIZE
        lines, steps = compile_ops(case["ops"], path, mapsize=mapsize, flags=lock_flags(case))
        out = drive(self.binary(case), lines)
        st = {}
        verify(lines, steps, out, Model(), st)
        tags = [case.get("kind", "?")] + (["aged"] if "age" in case else []) + [t for t in ("refused", "dels") if st.get(t)]
        if st.get("entries", 0) > 100:
            tags.append("many-entries")
        return Result(st.get("commits", 0) >= 2 and (st.get("entries", 0) > 20 or st.get("refused") or st.get("dels")), tags, len(steps))


PROPS = [C17]
