"""Properties of the building blocks: heap, hash table, thread pool, size arithmetic."""
import math
import heapq
import re

from .collide import twin_names
from .core import SAN_ENV, WRAP_POOL, Fail, Invalid, Jit, Prop, Result, base_env, jitter, run


def script(prop, args, lines, binary=None, timeout=30, env=None):
    """Runs the driver; returns its result lines."""
    r = run([binary or prop.drv] + [str(a) for a in args], ("".join(x + "\n" for x in lines)).encode(), timeout=timeout, env=env)
    why = r.crashed()
    if why:
        raise Fail("driver %s: %s" % (" ".join(map(str, args)), why))
    out = r.out.decode("latin-1").split("\n")
    if r.rc != 0:
        raise Fail("driver exit %s: %s" % (r.rc, out[-2:]))
    return out[:-1]


class C14(Prop):
    id = "C14"
    rule = ("random histories of insert, extract, peek and size on the heap (minimum and maximum order, locked and not, up to 3000, in a few cases 200000 elements, many equal keys, "
            "growth past the initial capacity), and concurrent insertion by several threads under ThreadSanitizer, against a multiset; non-trivial: at "
            "least three extractions from a heap of at least three elements, or a concurrent case")
    n_quick, n_thorough = 5000, 40000

    def setup(self, b):
        self.drv = b.link("libdrv", ["libdrv.c", "wrap_pool.c"], "asan", ldflags=WRAP_POOL)
        self.tsan = b.link("libdrv", ["libdrv.c"], "tsan")

    def gen(self, rng, i, tier):
        if i % 25 == 0:
            return {"mt": rng.choice([2, 3, 4, 8]), "n": rng.choice([10, 100, 300, 700])}
        span = rng.choice([1, 2, 5, 50, 10**6, 2**62])
        if i % 250 == 33:
            n = rng.choice([20000, 70000, 200000] if tier == "thorough" or i == 33 else [20000, 70000])
            n = 200000 if i == 33 else n
            ops = [["i", rng.randrange(-span, span)] if rng.random() < 0.98 else ["x"] for _ in range(n)]
            return {"kind": rng.choice(["", "r", "<", "<r"]), "ops": ops + [["x"]] * (n + 1)}
        n = rng.choice([5, 20, 60, 300, 300, 1200, 3000] if i % 5 == 0 else [5, 20, 60, 200])
        bias = rng.choice([0.3, 0.5, 0.6, 0.8, 0.97])
        style = rng.choice(["random", "random", "up", "down", "saw"])
        ops = []
        k = 0
        size = 0
        for j in range(n):
            r = rng.random()
            if r < bias:
                key = {"random": rng.randrange(-span, span), "up": j, "down": -j, "saw": j % 7}[style]
                ops.append(["i", key])
                size += 1
                k += 1
            elif r < bias + (1 - bias) * 0.7:
                ops.append(["x"])
                size = max(0, size - 1)
            elif r < bias + (1 - bias) * 0.8:
                ops.append(["n", rng.choice([0, 1, max(0, size - 1), size, size + 1, 255, 256, 2**31, 2**32 - 1])])
            elif r < bias + (1 - bias) * 0.9:
                ops.append(["s"])
            else:
                ops.append(["a"])
        if rng.random() < 0.6:
            ops += [["x"]] * (size + 2)
        return {"kind": rng.choice(["", "r", "<", "<r"]), "ops": ops}

    def check(self, case, work):
        if "mt" in case:
            if not 1 <= case["mt"] <= 16:
                raise Invalid()
            out = script(self, ["heapmt", case["mt"], case["n"]], [], self.tsan)
            if out != ["ok"]:
                raise Fail("concurrent insertion: %s" % out[:1])
            return Result(True, ["threads"])
        lines = []
        for n, op in enumerate(case["ops"]):
            if not op or len(op) != (2 if op[0] in "in" else 1) or (op[0] == "n" and op[1] < 0):
                raise Invalid()
            lines.append("%s %s %d" % (op[0], op[1] if len(op) > 1 else "", n))
        out = script(self, ["heap", case["kind"] or "-"], lines)
        if len(out) != len(lines):
            raise Fail("%d results for %d operations" % (len(out), len(lines)))
        sign = 1 if "<" in case["kind"] else -1
        have, order = {}, []

        def top_key():
            while order[0][1] not in have:
                heapq.heappop(order)
            return have[order[0][1]]
        extracted = 0
        for n, (op, res) in enumerate(zip(case["ops"], out)):
            def bad(want):
                raise Fail("operation %d (%s): %r instead of %s" % (n, op, res, want))
            if op[0] == "i":
                if res != "0":
                    bad("0")
                have[n] = op[1]
                heapq.heappush(order, (sign * op[1], n))
            elif op[0] == "x":
                if not have:
                    if res != "none":
                        bad("none")
                    continue
                top = top_key()
                m = re.fullmatch(r"(-?\d+) (\d+)", res)
                if not m:
                    bad(top)
                key, ident = int(m.group(1)), int(m.group(2))
                if have.get(ident) != key:
                    bad("an element that is in the heap")
                if key != top:
                    bad("an element of key %d" % top)
                if len(have) >= 3:
                    extracted += 1
                del have[ident]
            elif op[0] == "n":
                if op[1] >= len(have):
                    if res != "none":
                        bad("none")
                else:
                    m = re.fullmatch(r"(-?\d+) (\d+)", res)
                    if not m or have.get(int(m.group(2))) != int(m.group(1)):
                        bad("an element that is in the heap")
                    if op[1] == 0 and int(m.group(1)) != top_key():
                        bad("the first element")
            elif op[0] == "s":
                if res != str(len(have)):
                    bad(len(have))
            else:
                got = res.split()
                if sorted(got) != sorted(str(x) for x in have):
                    bad("every element once")
        return Result(extracted >= 3, ["grown"] if len(case["ops"]) > 600 else [], len(lines))


class C15(Prop):
    id = "C15"
    rule = ("random histories of search, insertion, removal and iteration (also removing the entry the iterator stands on) over string tables, binary keys and "
            "deliberately weak hash functions, with sizes and densities that force growth, against a dictionary; non-trivial: at least one removal or hit "
            "and ten entries at some point")
    n_quick, n_thorough = 5000, 40000

    def setup(self, b):
        self.drv = b.link("libdrv", ["libdrv.c", "wrap_pool.c"], "asan", ldflags=WRAP_POOL)

    def gen(self, rng, i, tier):
        kind = rng.choice(["s", "b", "b", "w"])
        ff = rng.choice([1, 2, 3, 4, 5, 8, 8, 16])
        nel = rng.choice([1, 2, 8, 16, 64, 256]) if i % 60 != 31 else rng.choice([60000, 65537, 200000])
        large = i % 15 == 5
        nk = rng.choice([500, 2000, 5000]) if large else rng.choice([3, 10, 30, 100, 300])
        if kind == "s":
            keys = [bytes(rng.choice(b"abcdef./") for _ in range(rng.choice([1, 2, 3, 8, 20, 60]))) for _ in range(nk)] + [b""]
            if rng.random() < 0.3:        # and many with the same hash
                keys += twin_names(rng, rng.choice([4, 20, 60]), bytes(range(1, 256)))
        else:
            keys = [rng.randbytes(rng.choice([4, 8, 8, 33] if large else [0, 1, 1, 2, 4, 8, 8, 33])) for _ in range(nk)]
            if rng.random() < 0.4:        # prefixes of one another
                base = rng.randbytes(40)
                keys += [base[:j] for j in range(40)]
            if rng.random() < 0.3:        # long ones that differ in one byte
                base = rng.randbytes(rng.choice([16, 70, 140, 300, 1000]))
                keys += [base[:j] + bytes([base[j] ^ rng.choice([1, 128, 32])]) + base[j + 1:] for j in (rng.choice([0, len(base) - 1, len(base) - 2, rng.randrange(len(base))]) for _ in range(20))]
        keys = sorted(set(keys))
        if kind == "w":
            # hashes fall on few values, or all on one
            kind = "w%d" % rng.choice([1, 2, 7, 61, 251, 1021, 65521])
        ops = []
        if large:                         # in phases: fill, look, thin out, fill again
            for _ in range(rng.choice([1, 2, 3])):
                for what, share in (("p", rng.choice([0.5, 1.0])), ("s", 0.3), ("d", rng.choice([0.1, 0.5, 0.95, 1.0])), ("s", 0.3)):
                    rng.shuffle(keys)
                    ops += [[what, k.hex()] for k in keys[:int(len(keys) * share)]]
                    if rng.random() < 0.4:
                        ops.append(rng.choice([["l"], ["k", rng.choice([2, 3, 5]), 0]]))
        for _ in range(rng.choice([10, 40, 150, 400])):
            r = rng.random()
            k = rng.choice(keys).hex()
            if r < 0.5:
                ops.append(["p", k])
            elif r < 0.7:
                ops.append(["d", k])
            elif r < 0.92:
                ops.append(["s", k])
            elif r < 0.97:
                ops.append(["l"])
            else:
                ops.append(["k", rng.choice([1, 2, 3, 5]), 0])
        ops.append(["l"])
        return {"kind": kind, "nel": nel, "ff": ff, "ops": ops}

    def check(self, case, work):
        ff = case["ff"]
        if ff < 1 or case["nel"] < 1 or not re.fullmatch(r"s|b|w[1-9]\d*", case["kind"]):
            raise Invalid()
        lines = []
        st = case["kind"] == "s"
        for n, op in enumerate(case["ops"]):
            if not op or op[0] not in "pdslk" or len(op) != {"p": 2, "d": 2, "s": 2, "l": 1, "k": 3}[op[0]]:
                raise Invalid()
            if op[0] in "pds":
                try:
                    kb = bytes.fromhex(op[1])
                except ValueError:
                    raise Invalid()
                if st and b"\0" in kb:
                    raise Invalid()
                lines.append("%s %s %d" % (op[0], op[1] or "-", n))
            elif op[0] == "k":
                if op[1] < 1:
                    raise Invalid()
                lines.append("k %d %d" % (op[1], op[2]))
            else:
                lines.append("l")
        out = script(self, ["hash", case["kind"], case["nel"], ff], lines, env=base_env({"ASAN_OPTIONS": SAN_ENV["ASAN_OPTIONS"] + ":hard_rss_limit_mb=2000"}))
        if len(out) != len(lines):
            raise Fail("%d results for %d operations" % (len(out), len(lines)))
        have = {}
        peak = hits = 0
        for n, (op, res) in enumerate(zip(case["ops"], out)):
            def shown(k):
                return k if st else str(have[k])
            if op[0] in "pds":
                k = op[1].lower()
                if op[0] == "s" or (op[0] == "p") == (k in have):
                    want = "has " + shown(k) if k in have else "none"
                    hits += k in have
                elif op[0] == "p":
                    want = "set 0"
                    have[k] = n
                else:
                    want = "removed"
                    del have[k]
                    hits += 1
                if res != want:
                    raise Fail("operation %d (%s): %r instead of %r" % (n, op, res, want))
            else:
                got = res.split(" ")[1:]
                want = sorted(k if st else "%s=%d" % (k, v) for k, v in have.items())
                if sorted(got) != want:
                    raise Fail("operation %d (%s): iteration gives %d entries, %d expected; missing %s, unexpected %s" % (
                        n, op, len(got), len(want), sorted(set(want) - set(got))[:3], sorted(set(got) - set(want))[:3] or ("one twice" if len(got) != len(set(got)) else "none")))
                if op[0] == "k":
                    for k in list(have):
                        if sum(bytes.fromhex(k)) % op[1] == op[2]:
                            del have[k]
            peak = max(peak, len(have))
        return Result(hits > 0 and peak >= 10, ["peak>100"] if peak > 100 else [], len(lines))


class C16(Prop):
    id = "C16"
    flaky = True
    rule = ("rounds of tasks queued by one or several threads, by the tasks themselves, and while other threads already wait, on one or several pools of 1 to 256 workers, with "
            "random yields and sleeps around every lock operation or before any memory access and injected spurious wakeups (a third of the cases under ThreadSanitizer); after every wait all "
            "tasks queued before have run exactly once and none is running; non-trivial: at least two workers and two tasks")
    n_quick, n_thorough = 1000, 12000
    jobs = 6

    def setup(self, b):
        wrap = ["-Wl,--wrap=apr_thread_mutex_lock", "-Wl,--wrap=apr_thread_mutex_unlock", "-Wl,--wrap=apr_thread_cond_wait",
                "-Wl,--wrap=apr_thread_cond_signal", "-Wl,--wrap=apr_thread_cond_broadcast"]
        self.drv = b.link("pooldrv", ["pooldrv.c"], "plain", ldflags=wrap)
        self.tsan = b.link("pooldrv", ["pooldrv.c"], "tsan", ldflags=wrap)
        self.jit = b.link("pooldrv", ["pooldrv.c", "jitter.c"], "jit", ldflags=wrap)

    def gen(self, rng, i, tier):
        c = {"seed": rng.randrange(1, 1 << 30), "threads": rng.choice([1, 1, 2, 2, 3, 4, 8, 16]), "adders": rng.choice([0, 0, 0, 1, 2, 4]),
             "chain": rng.choice([0, 0, 0, 1, 2, 5]), "perturb": rng.choice([0, 5, 20, 60]), "late": rng.random() < 0.3,
             "waiters": rng.choice([0, 0, 0, 1, 3]), "pools": rng.choice([1, 1, 1, 2, 3]), "generations": rng.choice([1, 1, 1, 2, 5]),
             "rounds": [rng.choice([0, 1, 1, 2, 3, 7, 20, 60]) for _ in range(rng.choice([1, 3, 10, 20]))], "tsan": False, "jit": 0, "gate": rng.random() < 0.2}
        if i % 40 == 17:
            c.update(threads=rng.choice([64, 128, 256]), perturb=0, pools=1, rounds=c["rounds"][:3] + [300])
        elif i % 40 == 37:
            c.update(perturb=0, rounds=[rng.choice([1000, 5000, 20000]) if i % 200 != 37 else 70000], pools=1, generations=1, gate=i % 80 == 37 or i % 200 == 37)
        elif i % 3 == 0:
            c["tsan"] = True
        elif i % 3 == 1:
            c["jit"] = jitter(rng)
        return c

    def check(self, case, work):
        if not (1 <= case["threads"] <= 256 and 0 <= case["adders"] <= 8 and 0 <= case["waiters"] <= 8 and 1 <= case["pools"] <= 4 and 1 <= case["generations"] <= 8 and
                all(0 <= n <= 100000 for n in case["rounds"])):
            raise Invalid()
        drv = Jit(self.jit, case["jit"]) if case["jit"] else self.tsan if case["tsan"] else self.drv
        r = run([drv] + [str(int(case[k])) for k in ("seed", "threads", "adders", "chain", "perturb", "late", "waiters", "pools", "generations", "gate")] +
                [str(n) for n in case["rounds"]], timeout=60)
        why = r.crashed()
        if why:
            raise Fail("thread pool: " + why)
        if r.rc != 0 or not r.out.startswith(b"ok "):
            raise Fail("thread pool: %s" % r.out[:300].decode("latin-1"))
        n = int(r.out.split()[1])
        return Result(case["threads"] > 1 and n > 1, [k for k in ("late", "tsan", "jit", "chain", "adders", "waiters", "gate") if case[k]] + (["pools"] if case["pools"] > 1 else []), n)


SUFFIX = {"": 1, "b": 1, "k": 1 << 10, "m": 1 << 20, "g": 1 << 30, "t": 1 << 40}
EDGE = [0, 1, 2, 9, 1000, 1023, 1024, 1025, 1535, 1536, 10239, 10240, 1 << 20, (1 << 20) - 1, (1 << 20) + 1, (1 << 30) - 1, 1 << 30, (1 << 40) - 1, 1 << 40,
        (1 << 50) - 1, 1 << 50, 1 << 60, (1 << 62) - 1, 1 << 62, (1 << 63) - 1, 4294967295, 4294967296, 2147483647, 2147483648]


class C09(Prop):
    id = "C09"
    rule = ("random size strings (decimals, fractions, exponents, blanks, suffixes in both cases, unknown suffixes, signs, non-numbers, overflow) parsed and compared "
            "with exact arithmetic; random byte counts formatted, checked to be within their own rounding in the right unit, monotone, and parsed back; "
            "every case has 120 strings and 80 numbers, and is non-trivial")
    n_quick, n_thorough = 3000, 30000

    def setup(self, b):
        self.drv = b.link("libdrv", ["libdrv.c", "wrap_pool.c"], "asan", ldflags=WRAP_POOL)

    def gen(self, rng, i, tier):
        strs = []
        for _ in range(120):
            r = rng.random()
            digits = str(rng.choice([rng.randrange(10), rng.randrange(1000), rng.randrange(1 << 20), rng.randrange(1 << 40), rng.choice(EDGE)]))
            if r < 0.3:
                num = digits
            elif r < 0.55:
                num = digits + "." + "".join(rng.choice("0123456789") for _ in range(rng.choice([0, 1, 2, 5])))
            elif r < 0.62:
                num = "." + digits
            elif r < 0.7:
                num = "%de%d" % (rng.randrange(100), rng.randrange(-3, 18))
            elif r < 0.76:
                num = "-" + rng.choice([digits, "0." + digits, "." + digits, "0.%d" % rng.randrange(10), "1e-%d" % rng.randrange(1, 30)])
            elif r < 0.8:
                num = "+" + digits
            elif r < 0.84:
                num = rng.choice(["inf", "nan", "-inf", "infinity", "1e400", "1e19", "9223372036854775807", "9223372036854775808", "1e308"])
            elif r < 0.9:
                num = rng.choice(["", "abc", "K", "x10", "--1", ".", "- 5", "e5", "$"])
            else:
                num = "0" * rng.randrange(5) + digits
            blank = rng.choice(["", "", "", " ", "\t", "  "])
            suf = rng.choice(["", "", "b", "B", "k", "K", "m", "M", "g", "G", "t", "T", "KiB", "MB", "x", "z", "%", "P", "é", ",", chr(0xdc80 + rng.randrange(128)), chr(rng.randrange(33, 127))])
            strs.append(rng.choice(["", "", " "]) + num + blank + suf)
        nums = [rng.choice(EDGE) if rng.random() < 0.3 else rng.randrange(1 << rng.randrange(1, 63)) for _ in range(80)]
        return {"strs": strs, "nums": nums}

    def expect(self, s):
        b = s.encode("utf-8", "surrogateescape")
        m = re.match(rb"[ \t\n\v\f\r]*([+-]?(?:\d+(?:\.\d*)?|\.\d+)(?:[eE][+-]?\d+)?|[+-]?(?:infinity|inf|nan))", b, re.I)
        if not m or re.match(rb"[ \t\n\v\f\r]*[+-]?0[xX]", b):
            return None if m else -1
        v = float(m.group(1))
        rest = b[m.end():].lstrip(b" \t\n\v\f\r")
        suf = rest[:1].lower().decode("latin-1")
        if suf not in SUFFIX:
            return -1
        v *= SUFFIX[suf]
        if math.isnan(v) or v < 0 or v >= 2.0 ** 63:
            return -1
        return int(v)

    def check(self, case, work):
        nums = sorted(n for n in case["nums"] if 0 <= n < 1 << 63)
        strs = [s for s in case["strs"] if "\0" not in s]
        lines = ["f %d" % n for n in nums] + ["p " + (s.encode("utf-8", "surrogateescape").hex() or "-") for s in strs]
        out = script(self, ["size"], lines)
        if len(out) != len(lines):
            raise Fail("%d results for %d operations" % (len(out), len(lines)))
        back = []
        last = -1.0
        for n, text in zip(nums, out):
            m = re.fullmatch(r"(\d+)(?:\.(\d))? (B|KiB|MiB|GiB|TiB|PiB|EiB)", text)
            if not m:
                raise Fail("%d formatted as %r" % (n, text))
            e = ["B", "KiB", "MiB", "GiB", "TiB", "PiB", "EiB"].index(m.group(3))
            unit = 1 << (10 * e)
            val = float(m.group(1) + ("." + m.group(2) if m.group(2) else ""))
            if e == 0 and (val != n or n >= 1024):
                raise Fail("%d formatted as %r" % (n, text))
            if e and (abs(val * unit - n) > unit * 0.05 * 1.000001 + n * 1e-12 or n < unit * (1 - 1e-12) or val > 1024.0):
                raise Fail("%d formatted as %r" % (n, text))
            if val * unit < last * (1 - 1e-12) - 0.5 and e:
                raise Fail("formatted sizes are not monotone at %d (%r)" % (n, text))
            last = val * unit
            if e <= 4:
                back.append((n, unit, e, text))
        for s, res in zip(strs, out[len(nums):]):
            want = self.expect(s)
            if want is not None and res != str(want):
                raise Fail("size %r parsed as %s instead of %d" % (s, res, want))
        out = script(self, ["size"], ["p " + t.encode().hex() for _, _, _, t in back])
        for (n, unit, e, text), res in zip(back, out):
            if abs(int(res) - n) > (unit * 0.05 + 1 + n * 1e-12 if e else 0):
                raise Fail("%d formatted as %r, which parses as %s" % (n, text, res))
        return Result(True, (), len(lines) + len(back))


PROPS = [C09, C14, C15, C16]
