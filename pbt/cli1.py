"""Properties of the ftwin command: what is reported."""
import ctypes
import datetime
import json
import os
import random
import re
import threading
import tty

from .cli import (BIG_SIZES, DIRS, NAMES, SIZES, CliProp, Opts, add_colliding, add_giants, argv_of, build_tree, canon, collect, compare_groups, content, enc, expect_run,
                  ftwin, gen_args, gen_contents, gen_tree, group, lengthen, little_memory, parse_text, place)
from .core import Fail, Invalid, Result, base_env, jitter, run


def base_opts(rng):
    o = {}
    if rng.random() < 0.5:
        o["j"] = rng.choice([1, 2, 3, 8, 17])
    if rng.random() < 0.3:
        o["x"] = rng.choice([0, 1, 100, 4096, 65536, 65537, 100000])
    if rng.random() < 0.06:
        o[rng.choice("tovr")] = True
    return o


def attributes(rng, tree):
    """What must not matter: equal times, and permissions when the user is root."""
    if rng.random() < 0.15:
        tree["stamp"] = rng.choice([0, 10 ** 18, 10 ** 18 + 999999999, rng.randrange(1 << 61)])
    if rng.random() < 0.1:
        tree["modes"] = [rng.choice([0, 0o200, 0o111, 0o4755, 0o444, 0o070, 0o1777]) for _ in range(rng.choice([1, 2, 5]))]


def unusual(rng, tree, giants=0.1, long=0.05):
    r = rng.random()
    if r < giants:
        add_giants(rng, tree)
    elif r < giants + long:
        lengthen(rng, tree)


class C01(CliProp):
    id = "C01"
    rule = ("random directory trees whose files fall in a few size classes of identical and nearly identical contents (one bit or byte changed "
            "at the start, end, middle or at buffer boundaries), hard links included, given as one or several arguments; the reported groups must "
            "be exactly the classes of equal contents with at least two members; non-trivial: at least one group, and two files of "
            "equal size but different contents")
    n_quick, n_thorough = 8000, 64000

    def setup(self, b):
        super().setup(b)
        self.weak = b.link("ftwinw", ["weakhash.c"], "plain", main=True, ldflags=["-Wl,--wrap=XXH3_128bits", "-Wl,--wrap=XXH3_128bits_digest"])

    def gen(self, rng, i, tier):
        if i % 25 == 21:                # a hash of which few bits differ
            contents = gen_contents(rng, n=rng.choice([2, 4, 8, 14]), sizes=[rng.choice([1, 2, 7, 300])] if rng.random() < 0.6 else None)
            tree = gen_tree(rng, nfiles=rng.choice([4, 9, 20, 40]), contents=contents)
            mask = [0, 0, 1, 3, 1 << 63, 1 << 31, 1 << 32, 0x8001, (1 << 64) - 1]
            opts = base_opts(rng)
            if rng.random() < 0.4:
                opts["J"] = True
            return {"tree": tree, "args": ["@abs"] if "J" in opts else gen_args(rng, tree), "opts": opts, "asan": False, "weak": [rng.choice(mask), rng.choice(mask)]}
        if i % 200 == 7:
            n = rng.choice([300, 900, 2500])
            if rng.random() < 0.5:      # many contents of a few sizes
                contents = gen_contents(rng, n=rng.choice([1, 20, 100, 400]))
            else:                       # many sizes
                contents = [[k, k % 5, []] for k in range(rng.choice([60, 300, 1200]))]
            tree = gen_tree(rng, nfiles=n, contents=contents)
        elif i % 4000 == 1234:          # more files of one size than 16 bits can count
            contents = [[5, 1, []], [5, 1, [[2, 4]]]]
            tree = {"contents": contents, "dirs": [""], "entries": [["f", "a", 0], ["f", "b", 1], ["f", "c", 0], ["f", "d", 1]] +
                    [["m", "%s/%s" % (d, f), f, rng.choice([16400, 16500])] for d, f in ("xa", "xb", "yc", "yd")]}
            return {"tree": tree, "args": ["t"], "opts": {"j": rng.choice([2, 8])}, "asan": False}
        elif i % 400 == 9:              # megabytes, on both sides of the default limit for mapping
            size = rng.choice([1 << 20, 3 << 20, 16 << 20, (50 << 20) - 1, 50 << 20, (50 << 20) + 1, 53 << 20])
            contents = [[size, 0, [[rng.choice([0, size - 1, rng.randrange(size), rng.randrange(size)]), 1 << rng.randrange(8)]] if k else []] for k in range(rng.choice([1, 2, 3]))]
            if rng.random() < 0.3:
                contents = [[size, 0, [], [3, k]] for k in range(rng.choice([2, 3]))]
            tree = gen_tree(rng, nfiles=rng.choice([2, 3, 5]), contents=contents)
            return {"tree": tree, "args": ["t"], "opts": {}, "asan": False}
        elif i % 1000 == 77:            # equal and nearly equal files of more than two gigabytes
            size = rng.choice([1 << 31, (1 << 31) + rng.randrange(1 << 16), (1 << 32) + rng.randrange(1 << 16), (1 << 32) + 5])
            spots = [0, size - 1, (1 << 31) - 1, min(1 << 31, size - 1), rng.randrange(size), min(1 << 32, size - 1)]
            entries = [["s", "g%d" % k, size, rng.choice([[], [], [[rng.choice(spots), 1]]])] for k in range(rng.choice([2, 2, 3]))]
            tree = {"dirs": [""], "contents": [[5, 1, []]], "twins": True, "entries": entries + [["f", "a", 0], ["f", "b", 0]]}
            return {"tree": tree, "args": ["t"], "opts": {"j": 3}, "asan": False}
        elif i % 100 == 33:             # sizes and names that have the same hash
            tree = gen_tree(rng)
            names = add_colliding(rng, tree)
            opts = base_opts(rng)
            if rng.random() < 0.5:
                opts["i"] = rng.sample(names, rng.randint(len(names) // 2, len(names)))
            return {"tree": tree, "args": gen_args(rng, tree), "opts": opts, "asan": False, "little": True}
        else:
            tree = gen_tree(rng)
        unusual(rng, tree)
        attributes(rng, tree)
        case = {"tree": tree, "args": gen_args(rng, tree), "opts": base_opts(rng), "asan": i % 8 == 0}
        if i % 8 == 3:
            case["jit"] = jitter(rng)
            case["opts"]["j"] = rng.choice([2, 3, 8, 16])
        return case

    def check(self, case, work):
        cwd, args = place(case, work)
        if case.get("little") and case.get("asan") or case["opts"].get("J") and case["args"] != ["@abs"]:
            raise Invalid()
        if case.get("weak"):
            weak = case["weak"]
            if not (isinstance(weak, list) and len(weak) == 2 and all(isinstance(x, int) and 0 <= x < 1 << 64 for x in weak)):
                raise Invalid()
            want, found, _ = expect_run(self, case, work, cwd, args, case["opts"], binary=self.weak, env=dict(base_env(), WEAKHASH="%d,%d" % tuple(weak)))
        else:
            want, found, _ = expect_run(self, case, work, cwd, args, case["opts"], preexec=little_memory if case.get("little") else None)
        sizes = {}
        for p, r, st in found:
            sizes.setdefault(st.st_size, []).append(p)
        ingroups = sum(len(g) for g in want)
        near = any(len(v) > 1 for v in sizes.values()) and ingroups < sum(len(v) for v in sizes.values() if len(v) > 1) or \
            len(want) > len([1 for v in sizes.values() if len(v) > 1])
        tags = ["groups"] if want else []
        tags += ["giants"] if any(e[0] == "s" for e in case["tree"]["entries"]) else []
        tags += ["long paths"] if any(len(p) > 300 for p, _, _ in found) else []
        tags += ["same-hash"] if any(len(c) > 3 for c in case["tree"]["contents"]) else []
        tags += ["megabytes"] if any(c[0] >= 1 << 20 for c in case["tree"]["contents"]) else []
        tags += ["crowd"] if len(found) > 200 else []
        tags += ["colliding"] if case.get("little") else []
        tags += ["weak hash"] if case.get("weak") else []
        return Result(bool(want) and bool(near), tags, max(1, len(found)))


class C02(CliProp):
    id = "C02"
    rule = ("one random tree reported under pairs of settings that must not matter: number of threads, mmap limit, memory option, verbosity, dry run, "
            "order of arguments, text against JSON, long against short option names, repetition, and a copy of the tree created in another order; "
            "non-trivial: at least two groups")
    n_quick, n_thorough = 2000, 16000

    def gen(self, rng, i, tier):
        tree = gen_tree(rng, nfiles=rng.choice([300, 700, 1500]) if i % 100 == 9 else rng.choice([5, 12, 25, 40, 80]), contents=gen_contents(rng, n=rng.choice([2, 4, 8])))
        unusual(rng, tree)
        attributes(rng, tree)
        args = gen_args(rng, tree, rng.choice(["root", "parts", "parts"]))
        variants = rng.sample(["threads", "x", "o", "v", "n", "order", "json", "repeat", "copy", "json-threads", "d", "r"], 4)
        if i % 100 == 9:
            variants = ["v"] + [x for x in variants if x != "v"]
        return dict({"tree": tree, "args": args, "variants": variants, "seed": rng.randrange(1 << 30), "asan": i % 10 == 0}, **({"jit": jitter(rng)} if i % 3 == 1 else {}))

    def check(self, case, work):
        rng = random.Random(case["seed"])
        cwd, args = place(case, work)
        b = self.binary(case)

        def text(opts, a=args, sized=False, cwd=cwd):
            r = ftwin(b, cwd, opts, a)
            return r.rc, canon(p for _, p in parse_text(r.out, b"\n", sized))
        ref = text([])
        for v in case["variants"]:
            if v == "threads":
                got = text(["-j", str(rng.choice([1, 2, 5, 33, 256]))])
            elif v == "x":
                got = text(["-x", rng.choice(["0", "1", "4096", "64K", "1G", "3G", "2147483648", "5T"])])
            elif v == "o":
                got = text(["-o"])
            elif v == "v":
                got = text(["-v"])
            elif v == "n":
                got = text(["-n"])
            elif v == "r":
                got = text(["--recurse-subdir"])
            elif v == "d":
                got = text(["--display-size"], sized=True)
            elif v == "order":
                a = list(args)
                rng.shuffle(a)
                got = text(["--threads", "3"], a)
            elif v == "repeat":
                got = text([])
            elif v in ("json", "json-threads"):
                r = ftwin(b, cwd, ["-J"] + (["-j", str(rng.choice([1, 4, 16]))] if v != "json" else []), args)
                if ref[0] == 0:
                    js = json.loads(r.out)
                    pre = enc(cwd) + b"/"
                    gs = []
                    for g in js:
                        ps = []
                        for d in g["duplicates"]:
                            p = enc(d["path"])
                            if not p.startswith(pre):
                                raise Fail("JSON path %r is not below %r" % (p, pre))
                            ps.append(p[len(pre):])
                        gs.append(ps)
                    got = (r.rc, canon(gs))
                else:
                    got = (r.rc, [])
            elif v == "copy":
                os.mkdir(os.path.join(work, "copy"))
                os.mkdir(os.path.join(work, "copy", "t"))
                plain = [e for e in case["tree"]["entries"] if e[0] != "h"]
                links = [e for e in case["tree"]["entries"] if e[0] == "h"]
                rng.shuffle(plain)
                build_tree(os.path.join(work, "copy", "t"), dict(case["tree"], entries=plain + links))
                got = text([], cwd=os.path.join(work, "copy"))
            else:
                raise Invalid()
            if got[0] != ref[0]:
                raise Fail("%s: exit %s instead of %s" % (v, got[0], ref[0]))
            compare_groups(got[1], ref[1], v)
        return Result(len(ref[1]) >= 2, case["variants"], len(case["variants"]))


class _H128(ctypes.Structure):
    _fields_ = [("low", ctypes.c_uint64), ("high", ctypes.c_uint64)]


def xxh():
    try:
        lib = ctypes.CDLL("libxxhash.so.0")
        f = lib.XXH3_128bits
        f.restype = _H128
        f.argtypes = [ctypes.c_char_p, ctypes.c_size_t]

        def h(b, times=1, rest=b""):
            if times == 1 and not rest:
                r = f(b, len(b))
            else:
                st = lib.XXH3_createState()
                lib.XXH3_128bits_reset(st)
                for _ in range(times):
                    lib.XXH3_128bits_update(st, b, len(b))
                lib.XXH3_128bits_update(st, rest, len(rest))
                r = lib.XXH3_128bits_digest(st)
                lib.XXH3_freeState(st)
            return "%016x%016x" % (r.high, r.low)
        lib.XXH3_createState.restype = ctypes.c_void_p
        lib.XXH3_128bits_reset.argtypes = lib.XXH3_freeState.argtypes = [ctypes.c_void_p]
        lib.XXH3_128bits_update.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_size_t]
        lib.XXH3_128bits_digest.argtypes = [ctypes.c_void_p]
        lib.XXH3_128bits_digest.restype = _H128
        if h(b"") == "99aa06d3014798d86001c324468d497f":
            return h
    except (OSError, AttributeError):
        pass
    return None


JSON_NAMES = NAMES + ["new\nline", "ctrl\x01", "\x7f", "esc\x1b[0m", "tab\t", "𝄞clef", "‮rtl", "\ufeffbom", "a" * 200, "</script>", "\\u0041", "null"]


class C03(CliProp):
    id = "C03"
    rule = ("trees with names full of quotes, control characters and non-ASCII text, random modification times, priority paths and JSON output "
            "(also with -v and several threads); standard output must be one JSON document whose groups, sizes, 128-bit XXH3 hashes (computed with "
            "the system's own xxHash library), UTC times, priorities and absolute paths are right; non-trivial: at least one group")
    n_quick, n_thorough = 6000, 48000

    def setup(self, b):
        super().setup(b)
        self.h = xxh()

    def gen(self, rng, i, tier):
        if i == 0 or tier == "thorough" and i % 10000 == 0:     # duplicates too large for 32 bits
            size = 65536 * rng.randrange(65537, 66000) + rng.randrange(65536)
            tree = {"dirs": [""], "contents": [[5, 1, []]], "twins": True,
                    "entries": [["s", "one", size], ["s", "two", size], ["f", "a", 0], ["f", "b", 0]]}
            return {"tree": tree, "args": ["t"], "opts": {"j": 2}, "late_json": True, "asan": False, "tz": "UTC"}
        if i % 200 == 7:                                        # ... and for the mantissa of a float
            size = rng.choice([rng.randrange(1 << 24, 1 << 27), (1 << rng.randrange(24, 27)) + rng.choice([-1, 1, 3])])
            tree = {"dirs": [""], "contents": [[5, 1, []]], "twins": True, "entries": [["s", n, size] for n in ("one", "two", "three")[:rng.choice([2, 3])]]}
            return {"tree": tree, "args": ["t"], "opts": base_opts(rng), "late_json": True, "asan": False, "tz": "UTC"}
        tree = gen_tree(rng, names=JSON_NAMES)
        unusual(rng, tree, 0.03, 0.05)
        for e in tree["entries"]:
            if e[0] == "f" and rng.random() < 0.6:
                e.append(rng.choice([0, 1, -1, 86399, 86400, -86400, 951782400, 951868800, 1700000000, 4102444799, rng.randrange(1 << 32),
                                     rng.randrange(-1 << 31, 1 << 33)]) * 10**9 + rng.choice([0, 1, 999, 500000000, 999999000, 999999999]))
        o = base_opts(rng)
        if rng.random() < 0.4:
            o["p"] = "@" + rng.choice([d for d in tree["dirs"]])
        for k in ("v", "d", "n", "c"):
            if rng.random() < 0.15:
                o[k] = True
        return {"tree": tree, "args": gen_args(rng, tree), "opts": o, "late_json": rng.random() < 0.5, "asan": i % 8 == 0,
                "tz": rng.choice(["UTC", "Asia/Tokyo", "XYZ-14", "America/New_York"])}

    def findings(self):
        import tempfile
        from .core import SCRATCH, rmtree
        work = tempfile.mkdtemp(prefix="kf-", dir=SCRATCH)
        try:
            for n in (b"bad\xff1", b"bad\xff2"):
                with open(os.path.join(work.encode(), n), "wb") as fh:
                    fh.write(b"same")
            r = ftwin(self.bin, work, ["-J"], ["."])
            there = True
            try:
                there = any("path" not in d for g in json.loads(r.out) for d in g["duplicates"])
            except (ValueError, KeyError):
                there = True
            return [("a path that is not valid UTF-8 (bad\\xff1) has no \"path\" member in the JSON report", there)]
        except Fail:
            return []
        finally:
            rmtree(work)

    def check(self, case, work):
        cwd, args = place(case, work)
        opts = dict(case["opts"])
        if opts.get("p") == "":
            raise Invalid()
        if opts.get("p"):
            opts["p"] = os.path.join(work, "t") + ("/" + opts["p"][1:] if opts["p"][1:] else "")
        # the model sees the arguments as absolute paths
        absargs = [os.path.normpath(os.path.join(enc(cwd), a)) for a in args]
        o = Opts(opts)
        found = collect(cwd, absargs, o)
        argv = argv_of(opts)
        argv = argv + ["-J"] if case["late_json"] else ["--json"] + argv
        from .core import base_env
        r = ftwin(self.binary(case), cwd, argv, args, env=base_env({"TZ": case.get("tz", "UTC")}))
        if not found:
            if r.rc == 0:
                raise Fail("no file to consider, but exit 0")
            return Result(False)
        if r.rc != 0:
            raise Fail("exit %s: %r" % (r.rc, r.err[-300:]))
        try:
            js = json.loads(r.out.decode("utf-8"))
        except (ValueError, UnicodeDecodeError) as e:
            raise Fail("standard output is not a JSON document: %s: %r" % (e, r.out[:300]))
        if not isinstance(js, list):
            raise Fail("not an array")
        stats = {p: (rp, st) for p, rp, st in found}
        got = []
        for g in js:
            if set(g) != {"size_bytes", "hash_xxh128", "duplicates"}:
                raise Fail("members of a group: %s" % sorted(g))
            paths = []
            data = None
            for d in g["duplicates"]:
                if opts.get("t") and d.get("archive_subpath", 0) is None:
                    del d["archive_subpath"]
                if set(d) != {"path", "mtime_utc", "prioritized"}:
                    raise Fail("members of a file: %s" % sorted(d))
                p = os.path.normpath(enc(d["path"]))
                if not d["path"].startswith("/"):
                    raise Fail("path is not absolute: %r" % d["path"])
                if p not in stats:
                    raise Fail("path %r was not to be considered" % p)
                rp, st = stats[p]
                paths.append(p)
                if data is None:
                    if st.st_size > 1 << 28:
                        size, data = st.st_size, (bytes(65536), st.st_size // 65536, bytes(st.st_size % 65536))
                    else:
                        with open(rp, "rb") as fh:
                            data = (fh.read(), 1)
                            size = len(data[0])
                t = datetime.datetime.fromtimestamp(st.st_mtime_ns // 10**9, datetime.timezone.utc).strftime("%Y-%m-%dT%H:%M:%SZ")
                if d["mtime_utc"] != t:
                    raise Fail("%r: mtime_utc %r instead of %r" % (p, d["mtime_utc"], t))
                prio = o.p is not None and (p.lower().startswith(o.p.lower()) if o.icase else p.startswith(o.p))
                if d["prioritized"] is not prio:
                    raise Fail("%r: prioritized is %r" % (p, d["prioritized"]))
            if g["size_bytes"] != size or isinstance(g["size_bytes"], bool):
                raise Fail("size_bytes %r instead of %d" % (g["size_bytes"], size))
            if self.h and g["hash_xxh128"] != self.h(*data):
                raise Fail("hash_xxh128 %r instead of %r (%d bytes)" % (g["hash_xxh128"], self.h(*data), size))
            pr = [d["prioritized"] for d in g["duplicates"]]
            if pr != sorted(pr, reverse=True):
                raise Fail("prioritized files are not first")
            got.append(paths)
        compare_groups(canon(got), canon(x for _, x in group(found)))
        return Result(bool(got), ["groups"] if got else [])


RX = ["\\.txt$", "a", "^t/d1", "/x[0-9]$", "(d1|sub)/", "\\.(txt|log)$", "^$", ".", "UPPER", "t$", "\\d", "[^/]$", "é", "photos/.*jpg", "^[^/]*/[^/]*$",
      "a.c", "\\btxt\\b", "x{1}", "$", "c\\.log|b"]


def gen_rx(rng, tree):
    """A regex made from the paths of the tree, on which PCRE and Python agree."""
    paths = [e[1] for e in tree["entries"]] or ["a"]

    def piece():
        p = rng.choice(paths)
        a = rng.randrange(len(p))
        p = p[a:a + rng.choice([1, 2, 4, 10, 300])]
        out = []
        for c in p[:40]:
            q = rng.random()
            x = re.escape(c)
            if q < 0.06:
                x = "."
            elif q < 0.1:
                x = "[^/]"
            elif q < 0.14 and c.isascii():
                x = "[%s-%s]" % (c, c) if c.isalnum() else "[%s]" % x
            elif q < 0.18:
                x = "(%s)" % x
            elif q < 0.21 and c.isascii():
                x += rng.choice(["?", "+", "{1,2}"])
            elif q < 0.24:
                x = "(?:%s|zz)" % x
            elif q < 0.27:
                x = rng.choice(["\\w?", ".?", "[a-z]?", "\\S"])
            out.append(x)
        return "".join(out) + re.escape(p[40:])
    s = piece()
    r = rng.random()
    if r < 0.15:
        s = s + "|" + piece()
    elif r < 0.25:
        s = piece() + ".*" + s
    elif r < 0.3:
        s = "^.*" + s
    if "|" not in s and rng.random() < 0.3:
        s += "$"
    if rng.random() < 0.1:              # blanks and the like stand for themselves
        s = "(?:%s|%s)" % (s, rng.choice(["my dir", "sp ace", "#1", "a #b", " ", "#"]))
    if rng.random() < 0.25:             # more groups than a small match vector holds
        s = "()" * rng.choice([9, 10, 30, 69, 70, 75]) + "(" + s + ")"
    return s


def filter_opts(rng, tree):
    o = base_opts(rng)
    sizes = [c[0] for c in tree["contents"]]
    if rng.random() < 0.35:
        o["m"] = max(0, rng.choice(sizes) + rng.choice([-1, 0, 0, 1]))
    if rng.random() < 0.35:
        o["M"] = max(0, rng.choice(sizes) + rng.choice([-1, 0, 0, 1]))
    if rng.random() < 0.3:
        o["e"] = rng.choice([rng.choice(RX), gen_rx(rng, tree)])
    if rng.random() < 0.3:
        o["w"] = rng.choice([rng.choice(RX), gen_rx(rng, tree)])
    if rng.random() < 0.35:
        o["i"] = [rng.choice([os.path.basename(e[1]) for e in tree["entries"]] or ["zz"]) for _ in range(rng.choice([1, 2, 4]))] + rng.choice([[], ["zz"], ["d1"]])
        if rng.random() < 0.2:          # a long list, in which the names that matter may be anywhere
            pad = ["%s%d" % (rng.choice(["n", "x" * 40, "y" * 70, "zz", ".q"]), k) for k in range(rng.choice([20, 40, 70, 140, 300, 1500]))]
            o["i"] += pad
            rng.shuffle(o["i"])
        o["i"] = [x for x in o["i"] if "," not in x and x]
        if rng.random() < 0.15:         # nothing between two commas
            o["i"].insert(rng.randrange(len(o["i"]) + 1), "")
        if rng.random() < 0.2:
            o["i_at"] = rng.randrange(len(o["i"]) + 1)
    if rng.random() < 0.15:
        over = [[k, rng.choice({"e": [".", "^", "a"], "w": ["zz", "^$"], "m": ["5G", 3], "M": [1, "7K"], "j": [1, 200], "x": [0, "9T"]}[k])] for k in "ewmMjx" if k in o]
        if over:
            o["earlier"] = over
    for k, p in (("a", 0.5), ("R", 0.25), ("c", 0.3), ("f", 0.4)):
        if rng.random() < p:
            o[k] = True
    return o


class C04(CliProp):
    id = "C04"
    rule = ("random trees with hidden names, symbolic links (to files, directories, ancestors, nothing, themselves), fifos and hard links, under random "
            "combinations of -m -M -e -w -c -i -a -R -f; the report must be the exact grouping of the files that a reference traversal selects; "
            "non-trivial: the filters leave something out and at least one group remains")
    n_quick, n_thorough = 10000, 80000

    def setup(self, b):
        super().setup(b)
        self.dev = b.link("ftwinf", ["fsfault.c"], "plain", main=True)

    def gen(self, rng, i, tier):
        names = NAMES
        if i % 9 == 4:                  # names with line ends (JSON reports), long names
            names = ["n\nl", "e\n", "\nb", "a.txt\n", "x1\n.txt", "a", "x1", "a.txt", "b.TXT", "c\r", "UPPER\n"]
        elif i % 9 == 5:
            names = ["L" * k + c for k in (62, 63, 64, 65, 126, 127, 128, 200, 250) for c in "ab"] + ["L" * 62 + "ac", "L", "a", "b"]
        tree = gen_tree(rng, nfiles=rng.choice([3, 8, 14, 25, 40]), hidden=rng.choice([0, 0.2]), links=rng.choice([0, 0.15, 0.3]), names=names,
                        dirs=DIRS + ["d\ne", "d\n"] if i % 9 == 4 else DIRS)
        if i % 9 == 4:
            return {"tree": tree, "args": ["@abs"], "opts": dict(filter_opts(rng, tree), J=True), "asan": i % 8 == 0}
        opts = None
        if i % 9 == 6:                  # deep, with links back to any of the directories above
            d = []
            for k in range(rng.choice([5, 10, 20, 34])):
                d.append(rng.choice(["d1", "q", "r%d" % k]))
                here = "/".join(d)
                if rng.random() < 0.5:
                    tree["entries"].append(["f", here + "/f%d" % rng.randrange(3), rng.randrange(len(tree["contents"]))])
            for j in range(rng.choice([1, 1, 2])):
                tree["entries"].append(["l", here + "/up%d" % j, "../" * rng.randrange(len(d)) + "."])
            opts = filter_opts(rng, tree)
            opts["f"] = True
            opts.pop("R", None)
            return {"tree": tree, "args": gen_args(rng, tree), "opts": opts, "asan": i % 8 == 0}
        if i % 45 == 8:                 # what decides may be at the end of a long path
            lengthen(rng, tree)
            opts = filter_opts(rng, tree)
            opts.pop("f", None)
            ends = [os.path.basename(e[1]) for e in tree["entries"]] or ["a"]
            opts[rng.choice("ew")] = rng.choice(["^.*", "", ""]) + rng.choice(["", "/"]) + re.escape(rng.choice(ends)[-60:]) + rng.choice(["$", "$", ""])
            opts.pop("earlier", None)
        elif rng.random() < 0.1:
            giants = add_giants(rng, tree)
            opts = filter_opts(rng, tree)
            opts.pop("f", None)         # a giant seen by two ways would be read
            for k in "mM":
                if giants and rng.random() < 0.5:
                    opts[k] = max(0, rng.choice(sorted(giants)) + rng.choice([-1, 0, 0, 1]))
        attributes(rng, tree)
        case = {"tree": tree, "args": gen_args(rng, tree), "opts": opts or filter_opts(rng, tree), "asan": i % 8 == 0}
        if i % 9 == 7:
            case["devices"] = True
            case["asan"] = False
        return case

    def check(self, case, work):
        cwd, args = place(case, work)
        if case["opts"].get("J") and case["args"] != ["@abs"]:
            raise Invalid()
        # explicit arguments that are links are looked at as such
        if case.get("devices"):         # every directory on a file system of its own
            want, found, _ = expect_run(self, case, work, cwd, args, case["opts"], binary=self.dev, env=dict(base_env(), FSFAULT="devices 0 0 *"))
        else:
            want, found, _ = expect_run(self, case, work, cwd, args, case["opts"])
        total = sum(1 for e in case["tree"]["entries"] if e[0] in ("f", "h"))
        tags = ["-" + k for k in case["opts"]]
        return Result(bool(want) and len(found) < total or (case["opts"].get("f") and bool(want)), tags)


class C05(CliProp):
    id = "C05"
    rule = ("random trees with priority paths, separators and -d; the exact bytes of every group are checked: one size line of the right value, the "
            "paths joined by the separator with nothing else, prioritized ones first, an empty line at the end, each path once; non-trivial: a group "
            "with prioritized and other members, a separator other than newline, or a size line")
    n_quick, n_thorough = 7000, 56000

    def gen(self, rng, i, tier):
        if i == 5 or i % 100 == 50:                             # sizes in all units
            sizes = sorted({rng.choice([(1 << e) + rng.choice([-1, 0, 1, 51, 52, (1 << e) // 20]), rng.randrange(1 << e, 2 << e)])
                            for e in ([30, rng.randrange(10, 27)] if i == 5 else [rng.randrange(10, 27) for _ in range(3)])})
            tree = {"dirs": [""], "contents": [[5, 1, []]], "twins": True, "entries": [["s", "%s%d" % (x, k), n] for k, n in enumerate(sizes) for x in "ab"]}
            return {"tree": tree, "args": ["t"], "opts": {"d": True}, "asan": False}
        tree = gen_tree(rng, nfiles=rng.choice([3, 8, 14, 25, 40]), contents=gen_contents(rng, n=rng.choice([1, 2, 3])))
        unusual(rng, tree, 0, 0.1)
        attributes(rng, tree)
        o = base_opts(rng)
        args = gen_args(rng, tree)
        if i % 20 == 13 and tree["dirs"][1:]:       # a directory whose name begins like another's
            d = rng.choice(tree["dirs"][1:])
            for e in [e for e in tree["entries"] if e[0] == "f" and e[1].startswith(d + "/")]:
                tree["entries"].append(["f", d + rng.choice(["x", "1", " "]) + e[1][len(d):], e[2]])
            o["p"] = "t/" + d + "/" + rng.choice(["", "", "/"])
            args = ["t"]
        elif rng.random() < 0.7:
            pre = {"t": "t", "t/": "t", "@dot": ".", "@abs": "@abs"}.get(args[0], "t")
            p = pre
            d = rng.choice(tree["dirs"])
            if d and rng.random() < 0.8:
                p += "/" + d
            if rng.random() < 0.2 and tree["entries"]:
                p = pre + "/" + rng.choice(tree["entries"])[1]
            if rng.random() < 0.15:
                p = p[:-1]
            o["p"] = p or "t"
        if rng.random() < 0.6:
            o["s"] = rng.choice(["|", ":", ";", "\t", "#", "\x01", "||", "\\n", "@", "!", "\udcff", "\udc80|", "\x7f"])
        if rng.random() < 0.4:
            o["d"] = True
        if rng.random() < 0.3:
            o["c"] = True
            if "p" in o and rng.random() < 0.5:
                o["p"] = o["p"].swapcase() if o["p"] != "@abs" else o["p"]
        return {"tree": tree, "args": args, "opts": o, "asan": i % 8 == 0, "tty": i % 8 == 1}

    def on_terminal(self, case, cwd, args, opts, groups, sep):
        """On a terminal, the same report with color codes in it."""
        try:
            master, slave = os.openpty()
            tty.setraw(slave)
        except OSError:
            return
        out = []

        def drain():
            while True:
                try:
                    b = os.read(master, 65536)
                except OSError:
                    return
                if not b:
                    return
                out.append(b)
        th = threading.Thread(target=drain)
        th.start()
        r = run([self.binary(case)] + [enc(x) if isinstance(x, str) else x for x in argv_of(opts) + list(args)], cwd=cwd, timeout=40, preexec=lambda: os.dup2(slave, 1))
        os.close(slave)
        th.join(20)
        os.close(master)
        text = b"".join(out)
        if r.crashed() or r.rc != 0:
            raise Fail("on a terminal: exit %s %s" % (r.rc, r.crashed() or ""))
        codes = re.findall(rb"\x1b\[[0-9;]*m", text)
        if groups and not codes:
            raise Fail("no colors on a terminal: %r" % text[:200])
        if codes and codes[-1] not in (b"\x1b[0m", b"\x1b[m"):
            raise Fail("the colors are not reset at the end: %r" % text[-100:])
        for g in text.split(b"\n\n"):
            c = re.findall(rb"\x1b\[[0-9;]*m", g)
            if c and c[-1] not in (b"\x1b[0m", b"\x1b[m"):
                raise Fail("the colors are not reset after a group: %r" % g[-100:])
        if opts.get("d"):
            for m in re.finditer(rb"(?:\A|\n\n)((?:\x1b\[[0-9;]*m)+)Size: [^\n]*\n", text):
                c = re.findall(rb"\x1b\[[0-9;]*m", m.group(0))
                if c[-1] not in (b"\x1b[0m", b"\x1b[m"):
                    raise Fail("the colors are not reset after a size: %r" % m.group(0))
        seen = parse_text(re.sub(rb"\x1b\[[0-9;]*m", b"", text), sep, opts.get("d", False))
        compare_groups(canon(p for _, p in seen), canon(p for _, p in groups), "on a terminal")
        if sorted(s or b"" for s, _ in seen) != sorted(s or b"" for s, _ in groups):
            raise Fail("other size lines on a terminal: %r" % text[:300])

    def check(self, case, work):
        cwd, args = place(case, work)
        opts = dict(case["opts"])
        if opts.get("p", "").startswith("@abs"):
            opts["p"] = os.path.join(work, "t") + opts["p"][4:]
        sep = enc(opts["s"])[:1] if opts.get("s") else b"\n"
        found = collect(cwd, args, Opts(opts))
        if any(sep in p or b"\n" in p for p, _, _ in found):
            raise Invalid()
        want, found, r = expect_run(self, case, work, cwd, args, opts)
        stats = {p: st for p, _, st in found}
        prio_mixed = 0
        pre = enc(opts["p"]) if opts.get("p") else None
        groups = parse_text(r.out, sep, opts.get("d", False))
        for size, paths in groups:
            if len(set(paths)) != len(paths):
                raise Fail("a path is listed twice in a group: %r" % paths)
            if pre is not None:
                flags = [(p.lower().startswith(pre.lower()) if opts.get("c") else p.startswith(pre)) for p in paths]
                if flags != sorted(flags, reverse=True):
                    raise Fail("files under the priority path are not listed first: %r with -p %r" % (paths, pre))
                prio_mixed += len(set(flags)) > 1
            if opts.get("d"):
                m = re.fullmatch(rb"Size: (.*)", size)
                if not m:
                    raise Fail("size line: %r" % size)
                check_human(m.group(1).decode(), stats[paths[0]].st_size)
        if case.get("tty") and found and b"\x1b" not in r.out:
            self.on_terminal(case, cwd, args, opts, groups, sep)
        tags = ["-" + k for k in opts] + (["terminal"] if case.get("tty") else [])
        return Result(bool(groups) and (prio_mixed > 0 or sep != b"\n" or bool(opts.get("d"))), tags + (["mixed-priority"] if prio_mixed else []))


UNITS = {"": 1, "B": 1, "K": 1 << 10, "KB": 1 << 10, "KiB": 1 << 10, "M": 1 << 20, "MB": 1 << 20, "MiB": 1 << 20, "G": 1 << 30, "GB": 1 << 30,
         "GiB": 1 << 30, "T": 1 << 40, "TB": 1 << 40, "TiB": 1 << 40}


def check_human(text, n):
    """The printed size has to be within its own rounding of the real one."""
    m = re.fullmatch(r"([0-9]+)(\.([0-9]+))? ?([A-Za-z]*)", text)
    if not m or m.group(4) not in UNITS:
        raise Fail("size %r for %d bytes is not a number with a unit" % (text, n))
    unit = UNITS[m.group(4)]
    val = float(m.group(1) + (m.group(2) or "")) * unit
    digits = len(m.group(3) or "")
    tol = unit * 10.0 ** -digits * 0.5000001 if unit > 1 else 0
    if abs(val - n) > tol * (1 + 1e-9) + n * 1e-12:
        raise Fail("size %r for %d bytes" % (text, n))


PROPS = [C01, C02, C03, C04, C05]
