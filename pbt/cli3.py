"""Properties of the ftwin command: faults, permissions, images, archives."""
import bz2
import errno
import fcntl
import gzip
import io
import json
import lzma
import os
import random
import re
import resource
import select
import signal
import stat
import subprocess
import tarfile
import tempfile
import threading
import time
import zipfile

from .cli import (CliProp, Opts, argv_of, build_tree, canon, collect, compare_groups, content, enc, ftwin, gen_contents, gen_tree, group, parse_text, place)
from .core import WRAP_POOL, Fail, Invalid, Prop, Result, base_env, rmtree, run


def classes(found):
    """contents -> printed paths"""
    by = {}
    for p, rp, st in found:
        with open(rp, "rb") as fh:
            by.setdefault(fh.read(), []).append(p)
    return by


def sound(groups, found):
    """Every reported group has at least two distinct members, all considered files of equal contents, and no file is in two groups."""
    body = {}
    for p, rp, st in found:
        with open(rp, "rb") as fh:
            body[p] = fh.read()
    seen = set()
    for g in groups:
        if len(g) < 2:
            raise Fail("a group with %d member" % len(g))
        for p in g:
            if p not in body:
                raise Fail("%r is reported but was not to be considered" % p)
            if p in seen:
                raise Fail("%r is reported twice" % p)
            seen.add(p)
            if body[p] != body[g[0]]:
                raise Fail("%r and %r are reported as equal but differ" % (g[0], p))


def complete(groups, found, affected, skip_sizes=()):
    """Unaffected files of equal contents are in one group."""
    where = {p: k for k, g in enumerate(groups) for p in g}
    missing = []
    for data, ps in classes(found).items():
        ok = [p for p in ps if p not in affected]
        if len(ok) > 1 and len({where.get(p, -1) for p in ok} | ({-1} if where.get(ok[0], -1) == -1 else set())) != 1 or (len(ok) > 1 and ok[0] not in where):
            missing.append((len(data), ok))
    return missing


ERRS = [errno.EIO, errno.EACCES, errno.ENOENT, errno.EMFILE, errno.ENOMEM, errno.ESTALE, errno.ELOOP, errno.ENAMETOOLONG, errno.EOVERFLOW, errno.EPERM, errno.ENFILE, errno.EINVAL, errno.ENOTDIR, errno.ENXIO]


def canon_report(out, as_json):
    """The groups of a complete report, or None."""
    try:
        if as_json:
            return canon([enc(d["path"]) for d in g["duplicates"]] for g in json.loads(out))
        return canon(p for _, p in parse_text(out))
    except (ValueError, Fail):
        return None


class C12(CliProp):
    id = "C12"
    level = "fault_enumeration"
    rule = ("random trees in which chosen files and directories fail: opening, reading (from the start or from an offset on), examining, listing (at once or after some entries), mapping, creating a "
            "thread, writing the report, a single read or opening among all; plus faults that have to be invisible (failing memory maps, interrupted and short reads, directory entries without type). "
            "Whatever fails, no file may be reported as equal to one that differs, all unaffected equal files are still grouped, and ftwin ends by itself; "
            "non-trivial: the fault hits a file that has an equal or equally long one")
    n_quick, n_thorough = 9000, 72000

    def setup(self, b):
        self.bin = b.link("ftwinf", ["fsfault.c"], "plain", main=True)
        self.asan = b.link("ftwinf", ["fsfault.c", "wrap_pool.c"], "asan", main=True, ldflags=WRAP_POOL)

    def gen(self, rng, i, tier):
        contents = gen_contents(rng, n=rng.choice([1, 2, 3]), sizes=[1, 10, 100, 4096, 5000, 65536, 65537, 131072, 140000])
        tree = gen_tree(rng, nfiles=rng.choice([4, 8, 14, 25]), contents=contents, names=["a", "b", "c", "d", "e.txt", "f", "g", "h"], hard=0)
        kind = rng.choice(["benign"] * 2 + ["hard"] * 8 + ["once"] * 2 + ["pthread"] * 2 + ["full", "limit", "leak"])
        if i % 25 == 7:
            kind = rng.choice(["gap", "gap", "closed"])
        files = [e[1] for e in tree["entries"] if e[0] == "f"]
        dirs = [d for d in tree["dirs"] if d]
        faults = []
        if kind == "benign":
            for _ in range(rng.choice([1, 1, 2, 3])):
                faults.append(rng.choice([["mmap", errno.ENOMEM, 0, "*"], ["mmap", errno.ENODEV, 0, "*"], ["short", rng.choice([1, 7, 100, 4095, 65535]), 0, "*"],
                                          ["eintr", rng.choice([2, 3, 5]), 0, "*"], ["dtype", 0, 0, "*"],
                                          ["once-mmap", rng.choice([errno.ENOMEM, errno.EAGAIN, errno.EPERM]), rng.randint(1, 8), "*"],
                                          ["mmap", rng.choice([errno.ENOMEM, errno.ENODEV, errno.EACCES]), 0, rng.choice(files or ["*"])]]))
        elif kind == "hard":
            for _ in range(rng.choice([1, 1, 2, 4])):
                e = rng.choice(ERRS)
                if dirs and rng.random() < 0.3:
                    faults.append([rng.choice(["opendir", "readdir", "stat"]), e, rng.choice([0, 1, 2, 3, 5]), rng.choice(dirs)])
                elif files:
                    f = rng.choice(files)
                    q = rng.random()
                    if q < 0.35:
                        faults.append(["open", e, 0, f])
                    elif q < 0.5:
                        faults.append(["stat", e, 0, f])
                    else:
                        faults.append(["read", errno.EIO, rng.choice([0, 1, 10, 100, 4096, 65536, 65537]), f])
                        faults.append(["mmap", errno.ENOMEM, 0, f])
        elif kind == "once":
            faults.append(["once-" + rng.choice(["open", "read"]), rng.choice([errno.EIO, errno.EMFILE, errno.EACCES]), rng.randint(1, 20), "*"])
            faults.append(["mmap", errno.ENOMEM, 0, "*"])
        elif kind == "leak":          # more failures than descriptors
            tree = {"dirs": [""], "contents": [], "entries": []}
            for k in range(rng.choice([20, 45])):
                tree["contents"].append([50 + 7 * k, k, []])
                tree["entries"] += [["f", "%s%d" % (x, k), k] for x in "ab"]
                if k % 5:
                    f = "%s%d" % (rng.choice("ab"), k)
                    q = rng.randrange(3)
                    if q:
                        faults.append(["open", rng.choice(ERRS), 0, f])
                    else:
                        faults += [["read", errno.EIO, rng.choice([0, 10]), f], ["mmap", errno.ENOMEM, 0, f]]
            faults = faults[:60]
        elif kind == "gap":           # a long report
            tree = {"dirs": [""], "contents": [], "entries": []}
            for k in range(rng.choice([40, 80])):
                tree["contents"].append([rng.choice([100, 5000, 30000]) + k, k, []])
                tree["entries"] += [["f", "%s%d" % (x * rng.choice([1, 100, 200]), k), k] for x in "ab"]
        elif kind == "pthread":
            faults.append(["pthread", errno.EAGAIN, rng.randint(1, 5), "*"])
        o = {"j": rng.choice([1, 1, 2, 4, 8])}
        if rng.random() < 0.5:
            o["x"] = rng.choice([0, 0, 100, 65536])
        for k, q in (("v", 0.3), ("n", 0.1), ("o", 0.1)):
            if rng.random() < q:
                o[k] = True
        extra = {"wait": rng.choice([0, 0, 1, 3])} if kind == "gap" else {"size": rng.choice([1, 1, 2, 2, 3, 0, -1, rng.randrange(1, 200), rng.randrange(1, 10000)])} if kind == "limit" else {}
        return {**extra, "tree": tree, "kind": kind, "faults": faults, "opts": o, "json": rng.random() < 0.35, "follow": rng.random() < 0.2, "asan": i % 6 == 0}

    def check(self, case, work):
        root = os.path.join(work, "t")
        os.mkdir(root)
        build_tree(root, case["tree"])
        opts = dict(case["opts"])
        if opts.get("j", 1) < 1:
            raise Invalid()
        if case.get("follow"):
            opts["f"] = True
        argv = argv_of(opts)
        top = b"t"
        if case["json"]:
            argv.append("-J")
            top = enc(root)
        found = collect(work, [top], Opts(opts))
        lines = ["watch 0 0 " + root]
        affected = set()
        for k, a, b, p in case["faults"]:
            if p != "*":
                full = os.path.join(root, p)
                if not os.path.lexists(full) or not p:
                    raise Invalid()
                lines.append("%s %d %d %s" % (k, a, b, full))
                pre = top + b"/" + enc(p)
                affected |= {x for x, _, _ in found if x == pre or x.startswith(pre + b"/")}
            elif k in ("short", "eintr") and a < 1:
                raise Invalid()
            else:
                lines.append("%s %d %d *" % (k, a, b))
        allowed = {"benign": ("mmap", "once-mmap", "short", "eintr", "dtype"), "hard": ("open", "read", "stat", "opendir", "readdir", "mmap"), "once": ("once-open", "once-read", "mmap"),
                   "pthread": ("pthread",), "full": (), "limit": (), "gap": (), "closed": (), "leak": ("open", "read", "mmap")}.get(case["kind"])
        if allowed is None or any(f[0] not in allowed or (f[3] == "*") != (case["kind"] not in ("hard", "leak")) and (case["kind"], f[0]) != ("benign", "mmap") for f in case["faults"]):
            raise Invalid()
        for k, a, b, p in case["faults"]:          # hard errors only
            if k in ("open", "read", "stat", "opendir", "readdir", "pthread", "mmap") and a < 1 or k.startswith("once") and a < 1:
                raise Invalid()
        env = base_env({"FSFAULT": "\n".join(lines) + "\n"})
        if not found:
            raise Invalid()
        kind = case["kind"]
        binary = self.binary(case)
        if kind == "gap":
            return self.gap(case, work, binary, argv)
        if kind in ("full", "closed"):
            want = canon(g for _, g in group(found))
            p = subprocess.Popen([binary] + argv + ["t"], stdout=open("/dev/full", "wb"), stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, cwd=work, env=base_env(), start_new_session=True,
                                 preexec_fn=(lambda: os.close(1)) if kind == "closed" else None)
            try:
                rc = p.wait(40)
            except subprocess.TimeoutExpired:
                p.kill()
                raise Fail("still running after the time limit")
            if rc < 0:
                raise Fail("killed by signal %d" % -rc)
            if (want or case["json"]) and rc == 0:
                raise Fail("standard output could not be written, but exit 0")
            return Result(bool(want), [kind])
        if kind == "limit":
            return self.limited(case, work, binary, argv)

        def few_files():
            resource.setrlimit(resource.RLIMIT_NOFILE, (20 + opts["j"], 20 + opts["j"]))
        if kind == "leak" and (len(lines) > 62 or any(e[0] != "f" or "/" in e[1] for e in case["tree"]["entries"])):
            raise Invalid()
        r = ftwin(binary, work, argv, ["t"], env=env, preexec=few_files if kind == "leak" else None)
        if r.rc not in (0, 255):
            raise Fail("exit %s: %r" % (r.rc, r.err[-300:]))
        if case["json"] and r.out:
            try:
                groups = [[enc(d["path"]) for d in g["duplicates"]] for g in json.loads(r.out)]
            except ValueError:
                raise Fail("not a JSON document: %r" % r.out[:200])
        else:
            groups = [p for _, p in parse_text(r.out)]
        sound(groups, found)
        sizes = [st.st_size for _, _, st in found]
        tags = [kind] + sorted({f[0] for f in case["faults"]}) + (["json"] if case["json"] else [])
        if kind == "benign":
            if r.rc != 0:
                raise Fail("exit %s under faults that have to be invisible: %r" % (r.rc, r.err[-300:]))
            compare_groups(canon(groups), canon(g for _, g in group(found)), "faults %s" % case["faults"])
            return Result(bool(groups), tags)
        if kind == "pthread":
            if r.rc == 0:
                compare_groups(canon(groups), canon(g for _, g in group(found)))
            return Result(True, tags)
        missing = complete(groups, found, affected)
        if kind == "once":
            if len({m[0] for m in missing}) > 1:
                raise Fail("one fault (%s) and equal files of %d sizes are not reported: %s" % (case["faults"], len({m[0] for m in missing}), missing[:2]))
            return Result(len(sizes) > len(set(sizes)), tags)
        if missing:
            raise Fail("faults %s: equal, unaffected files are not grouped (exit %s): %s" % (case["faults"], r.rc, missing[:2]))
        hit = {st.st_size for p, _, st in found if p in affected}
        return Result(any(sizes.count(s) > 1 for s in hit), tags)


    def gap(self, case, work, binary, argv):
        """Standard output refuses some of the report while the reader is not ready."""
        full = ftwin(binary, work, argv, ["t"])
        if full.rc != 0 or not full.out:
            raise Invalid()
        r, w = os.pipe()
        fcntl.fcntl(w, fcntl.F_SETPIPE_SZ, 4096)
        os.set_blocking(w, False)
        p = subprocess.Popen([binary] + argv + ["t"], stdout=w, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, cwd=work, env=base_env(), start_new_session=True)
        os.close(w)
        timer = threading.Timer(40, p.kill)
        timer.start()
        out = b""
        with os.fdopen(r, "rb", 0) as fh:
            select.select([fh], [], [])
            time.sleep(case["wait"] / 1000)
            while True:
                b = fh.read(65536)
                if not b:
                    break
                out += b
        rc = p.wait()
        timer.cancel()
        if rc < 0:
            raise Fail("killed by signal %d" % -rc)
        if rc == 0 and canon_report(out, case["json"]) != canon_report(full.out, case["json"]):
            raise Fail("%d of %d bytes of the report were written, but exit 0" % (len(out), len(full.out)))
        return Result(rc != 0, ["gap"] + (["gap-failed"] if rc else []))

    def limited(self, case, work, binary, argv):
        """Standard output takes all but the last bytes of the report, or exactly all of it."""
        full = ftwin(binary, work, argv, ["t"])
        if full.rc != 0 or not full.out:
            raise Invalid()
        miss = case["size"]
        if miss > len(full.out):
            miss = 1 + miss % len(full.out)
        room = len(full.out) - miss

        def limit():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (room, room))
        out = os.path.join(work, "report")
        with open(out, "wb") as fh:
            p = subprocess.Popen([binary] + argv + ["t"], stdout=fh, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, cwd=work, env=base_env(), start_new_session=True, preexec_fn=limit)
        try:
            rc = p.wait(40)
        except subprocess.TimeoutExpired:
            p.kill()
            raise Fail("still running after the time limit")
        if rc < 0:
            raise Fail("killed by signal %d" % -rc)
        if miss > 0 and rc == 0:
            raise Fail("the last %d bytes of the report could not be written, but exit 0" % miss)
        if miss <= 0 and (rc != 0 or os.path.getsize(out) != len(full.out)):
            raise Fail("exit %d, %d of %d bytes written" % (rc, os.path.getsize(out), len(full.out)))
        return Result(miss > 0, ["limit"])


# --------------------------------------------------------------------------- permissions

class C13(CliProp):
    id = "C13"
    rule = ("random trees whose files and directories have random owners, groups and modes, scanned by an unprivileged user with random supplementary groups; the report must be the exact grouping "
            "of the files that user may read, and nothing about the others; non-trivial: at least one file is out of reach and at least one group is reported")
    n_quick, n_thorough = 6500, 52000
    NOBODY = 65534

    def setup(self, b):
        import pwd
        import shutil
        from . import core
        try:
            pwd.getpwuid(self.NOBODY)
        except KeyError:
            self.NOBODY = 1
        self.UIDS = [self.NOBODY] * 3 + [54321, 70001, 4000000001]        # some without an entry in the password database
        dst = os.path.join(core.SCRATCH, "bin")
        os.mkdir(dst)
        self.bins = []
        for v in ("plain", "asan"):
            out = os.path.join(dst, v)
            shutil.copy(b.ftwin(v), out)
            os.chmod(out, 0o755)
            self.bins.append(out)
        os.chmod(dst, 0o755)
        self.usable = True
        try:
            r = run([self.bins[0], "-V"], preexec=self.drop([1000], self.NOBODY))
            self.usable = r.rc == 0
        except (OSError, subprocess.SubprocessError):
            self.usable = False

    def drop(self, groups, uid, gids=(65534, 65534)):
        def f():
            os.setgroups(groups)
            os.setresgid(gids[0], gids[1], gids[1])
            os.setuid(uid)
        return f

    def reachable(self, work, paths, become):
        """Which of the paths a process with these credentials can list its way to and open for reading."""
        import pickle
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                become()
                os.chdir(work)
                listable, ok = {}, []
                for p, top in paths:
                    d, good = os.path.dirname(p), True
                    while good and len(d) >= len(top):
                        if d not in listable:
                            try:
                                os.listdir(d)
                                listable[d] = True
                            except OSError:
                                listable[d] = False
                        good, d = listable[d], os.path.dirname(d)
                    if good:
                        try:
                            os.close(os.open(p, os.O_RDONLY))
                            ok.append(p)
                        except OSError:
                            pass
                with os.fdopen(w, "wb") as fh:
                    pickle.dump(ok, fh)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
        if os.waitpid(pid, 0)[1] != 0:
            raise Invalid()
        return set(pickle.loads(data))

    GIDS = [0, 65534, 1000, 1001, 7000, 7001, 70000, 4000000000, 4464, 66536, 7256]      # some with equal low bytes

    def gen(self, rng, i, tier):
        follow = rng.random() < 0.3
        tree = gen_tree(rng, nfiles=rng.choice([6, 14, 25, 40]), contents=gen_contents(rng, n=rng.choice([1, 2])), hard=0, links=0.2 if follow else 0)
        attrs = []
        modes = [0o444, 0o400, 0o040, 0o004, 0o000, 0o644, 0o600, 0o640, 0o200, 0o111, 0o044, 0o404, 0o440, 0o377, 0o733, 0o337]
        dmodes = [0o755, 0o755, 0o755, 0o700, 0o711, 0o744, 0o000, 0o070, 0o007, 0o550, 0o505, 0o055, 0o750, 0o740, 0o705, 0o710]
        for e in tree["entries"]:
            owner = rng.choice([0, "me", "me", 1234])
            attrs.append([owner, rng.choice(self.GIDS), rng.choice(dmodes) if e[0] == "d" else rng.choice(modes)])
        return {"tree": tree, "attrs": attrs, "groups": rng.sample(self.GIDS[1:], rng.choice([0, 1, 2, 4])), "asan": i % 8 == 0, "opts": {"j": rng.choice([1, 4]), **({"f": True} if follow else {})},
                "egid": rng.choice([65534, 65534, 65534, 7000, 1001]), "split": rng.random() < 0.25,
                "many": rng.choice([0, 0, 0, 20, 40, 251, 254, 300]), "uid": rng.choice(self.UIDS)}

    def check(self, case, work):
        if not self.usable or len(case["attrs"]) != len(case["tree"]["entries"]):
            raise Invalid()
        me = case["uid"]
        if me not in self.UIDS or case["many"] < 0:
            raise Invalid()
        os.chmod(work, 0o755)
        root = os.path.join(work, "t")
        os.mkdir(root)
        build_tree(root, case["tree"])
        os.chmod(root, 0o755)
        groups = list(case["groups"]) + list(range(20000, 20000 + case["many"]))
        egid = case.get("egid", 65534)
        if not 0 < egid < 1 << 31:
            raise Invalid()
        mine = set(groups) | {egid}
        for e, (owner, gid, mode) in sorted(zip(case["tree"]["entries"], case["attrs"]), key=lambda x: -x[0][1].count("/")):
            p = os.path.join(enc(root), enc(e[1]))
            uid = me if owner == "me" else owner
            try:
                os.chown(p, uid, gid, follow_symlinks=False)
                if not os.path.islink(p):
                    os.chmod(p, mode)
            except OSError:
                raise Invalid()

        def may(p, bit):
            st = os.lstat(p)
            m = st.st_mode
            if st.st_uid == me:
                return bool(m & (bit << 6))
            if st.st_gid in mine:
                return bool(m & (bit << 3))
            return bool(m & bit)
        args = [b"t"]
        if case.get("split"):         # every entry of the top directory as an argument of its own; one that can be entered but not listed is an error
            args = [b"t/" + n for n in sorted(os.listdir(enc(root))) if not os.path.islink(os.path.join(enc(root), n))]
            args = [a for a in args if not os.path.isdir(os.path.join(enc(work), a)) or may(os.path.join(enc(work), a), 4) or not may(os.path.join(enc(work), a), 1)]
            if not args:
                raise Invalid()
        become = self.drop(groups, me, (egid if case.get("asan") else 65534, egid))        # sanitizers do not work in set-group-id processes
        all_, tops = [], []
        for a in args:
            x = collect(work, [a], Opts(case["opts"]))
            all_ += x
            tops += [a] * len(x)
        can = self.reachable(work, [(p, a) for (p, _, _), a in zip(all_, tops)], become)
        found, total = [x for x in all_ if x[0] in can], len(all_)
        r = ftwin(self.bins[1] if case.get("asan") else self.bins[0], work, argv_of(case["opts"]), args, preexec=become)
        want = canon(g for _, g in group(found))
        if r.rc == 0:
            compare_groups(canon(p for _, p in parse_text(r.out)), want)
        elif want or r.out:
            raise Fail("exit %s: %r; groups to report: %d" % (r.rc, r.err[-300:], len(want)))
        elif r.rc != 255:
            raise Fail("exit %s" % r.rc)
        return Result(bool(want) and len(found) < total, ["groups-%d" % min(len(mine), 5)] + (["denied"] if len(found) < total else []))


# --------------------------------------------------------------------------- images

LEVELS = {"1": 0.2, "2": 0.3, "3": 0.5, "4": 0.6, "5": 0.7}


IMG_EXTRA = [["-v"], ["-a"], ["-o"], ["-m", "10"], ["-d"], ["-c"], ["-r"], ["-n"], ["-f"], ["-j", "3"], ["-j", "1"], ["-x", "5"], ["-p", "t/d"], ["-i", "zz,im"], ["-e", "qqq"], ["-M", "100M"]]


class C27(CliProp):
    id = "C27"
    rule = ("collections of generated images (families of noisy, rescaled and re-encoded variants of a few patterns, in GIF, PNG and JPEG) mixed with broken images and other files, scanned in image mode at "
            "every threshold level; the pairs (first path, other path) of all printed groups must be, once each, exactly the pairs whose libpuzzle distance is below the threshold; "
            "non-trivial: some pairs are similar and some are not")
    n_quick, n_thorough = 2000, 16000

    def setup(self, b):
        super().setup(b)
        self.img = b.link("imgdrv", ["imgdrv.c"])

    def gen(self, rng, i, tier):
        ims = []
        wide, tall = [40, 64, 80], [40, 64, 90]
        if i % 20 == 5:                 # up to the largest size that is looked at
            wide = [300, 499, 501, 1200, 2100, 3100, 4999, 5000]
            if rng.random() < 0.5:
                wide, tall = tall, wide
        for _ in range(rng.choice([1, 2, 3])):
            seed = rng.randrange(1000)
            for _ in range(rng.choice([140, 270]) if i % 400 == 26 else rng.choice([17, 35, 60]) if i % 20 == 6 else rng.choice([1, 2, 3, 5])):
                ims.append([rng.choice(["", "d/", "d/e/"]), seed, rng.choice(wide), rng.choice(tall), rng.choice([0, 0, 5, 20, 60, 120, 200]), rng.choice(["png", "jpg", "gif", "jpeg", "PNG", "JPG", "Gif"])])
                if len(ims) > 1 and i % 2:
                    ims[-1][5] = ims[-2][5]
        rng.shuffle(ims)
        bad = [[rng.choice(["", "d/"]), rng.choice(["png", "jpg", "gif"]), rng.randrange(16)] for _ in range(rng.choice([0, 0, 1, 2, 3]))]
        other = rng.choice([0, 0, 2])
        return {"images": ims, "bad": bad, "other": other, "level": rng.choice(["1", "2", "3", "4", "5", None]), "sep": rng.choice([None, None, ":", "|"]),
                "order": rng.random() < 0.5, "extra": [x for x in IMG_EXTRA if rng.random() < 0.12], "asan": i % 9 == 0}

    def check(self, case, work):
        root = work + "/t"
        os.makedirs(root + "/d/e")
        make, names = [], []
        for k, (d, seed, w, h, noise, ext) in enumerate(case["images"]):
            if d not in ("", "d/", "d/e/") or w < 20 or h < 20 or ext.lower() not in ("png", "jpg", "jpeg", "gif") or noise < 0:
                raise Invalid()
            n = "t/%sim%d.%s" % (d, k if len(case["images"]) % 2 else k // 3, ext)          # equal names in several directories
            if n in names:
                n = "t/%sim%d.%s" % (d, k + 1000, ext)
            names.append(n)
            make += [str(seed), str(w), str(h), str(noise), ext.lower(), n]
        for k, (d, ext, kind) in enumerate(case["bad"]):
            if d not in ("", "d/") or ext not in ("png", "jpg", "gif"):
                raise Invalid()
            with open("%s/t/%sbad%d.%s" % (work, d, k, ext), "wb") as fh:
                fh.write([b"", b"not an image at all", b"\x89PNG\r\n\x1a\n" + b"\0" * 40, b"GIF89a" + b"\xff" * 60][kind % 4] * (1 + kind // 4 * (60 if kind < 12 else 5000)))
        for k in range(case["other"]):
            with open("%s/t/text%d.txt" % (work, k), "wb") as fh:
                fh.write(b"same")
        if not names:
            raise Invalid()
        r = run([self.img, "make"] + make, cwd=work)
        if r.rc != 0:
            raise Invalid()
        r = run([self.img, "dist"] + names, cwd=work)
        if r.rc != 0:
            raise Invalid()
        below = {}
        bad = set()
        limit = LEVELS[case["level"] or "1"]
        for line in r.out.decode().split("\n")[:-1]:
            f = line.split()
            if f[0] == "bad":
                bad.add(int(f[1]))
            else:
                i, j = int(f[0]), int(f[1])
                below.setdefault((min(i, j), max(i, j)), []).append(float(f[2]) < limit)
        must = {k for k, v in below.items() if all(v)}
        may = {k for k, v in below.items() if any(v)}
        if any(x not in IMG_EXTRA for x in case["extra"]):
            raise Invalid()
        opts = ["-I"] + sum(case["extra"], [])
        if case["level"]:
            opts = opts + ["-T", case["level"]] if case["order"] else ["--image-threshold=" + case["level"]] + opts
        sep = b"\n"
        if case["sep"]:
            opts += ["-s", case["sep"]]
            sep = enc(case["sep"])
        r = ftwin(self.binary(case), work, opts, ["t"], timeout=80)
        if r.rc != 0:
            raise Fail("exit %s: %r" % (r.rc, r.err[-300:]))
        idx = {enc(n): k for k, n in enumerate(names)}
        seen = set()
        for _, ps in parse_text(r.out, sep):
            for p in ps:
                if p not in idx:
                    raise Fail("%r is not one of the images" % p)
            if len(ps) < 2:
                raise Fail("a group with one image: %r" % ps)
            for q in ps[1:]:
                pair = (min(idx[ps[0]], idx[q]), max(idx[ps[0]], idx[q]))
                if pair in seen:
                    raise Fail("the pair %s is reported twice" % [names[x] for x in pair])
                seen.add(pair)
        wrong = [[names[x] for x in p] for p in sorted(seen - may)]
        lost = [[names[x] for x in p] for p in sorted(must - seen)]
        if wrong or lost:
            raise Fail("threshold %s: reported but not similar %s; similar but not reported %s" % (limit, wrong[:4], lost[:4]))
        return Result(bool(must) and len(must) < len(below), ["level-%s" % case["level"]] + (["unreadable"] if bad or case["bad"] else []), max(1, len(below)))


# --------------------------------------------------------------------------- archives

def pack(kind, members):
    """members: [(name, bytes, type)] -> archive bytes"""
    buf = io.BytesIO()
    if kind == "zip":
        with zipfile.ZipFile(buf, "w", zipfile.ZIP_DEFLATED) as z:
            for k, (n, data, typ) in enumerate(members):
                info = zipfile.ZipInfo(n + ("/" if typ == "d" else ""), (2020, 1, 2, 3, 4, 6))
                info.compress_type = zipfile.ZIP_DEFLATED if k % 2 else zipfile.ZIP_STORED
                info.external_attr = (0o40755 if typ == "d" else 0o100644) << 16
                z.writestr(info, b"" if typ == "d" else data)
        return buf.getvalue()
    if kind.startswith("sparse"):
        return pack_sparse(kind, members)
    fmt = {"ustar": tarfile.USTAR_FORMAT, "gnu": tarfile.GNU_FORMAT, "pax": tarfile.PAX_FORMAT}[kind.split("+")[0]]
    with tarfile.open(fileobj=buf, mode="w", format=fmt) as t:
        for n, data, typ in members:
            info = tarfile.TarInfo(n)
            info.mtime = 1600000000
            if typ == "d":
                info.type = tarfile.DIRTYPE
                info.mode = 0o755
                t.addfile(info)
            elif typ == "h":
                info.type = tarfile.LNKTYPE
                info.linkname = next(m[0] for m in members if m[2] == "f")
                t.addfile(info)
            else:
                info.size = len(data)
                info.mode = 0o644
                t.addfile(info, io.BytesIO(data))
    raw = buf.getvalue()
    comp = kind.split("+")[1] if "+" in kind else ""
    return {"": lambda x: x, "gz": lambda x: gzip.compress(x, mtime=0), "bz2": bz2.compress, "xz": lzma.compress}[comp](raw)


def pack_sparse(kind, members):
    """Like pack(), by tar, which leaves the holes out."""
    if len({os.path.normpath(n) for n, _, _ in members}) < len(members):
        raise ValueError()
    d = tempfile.mkdtemp(prefix="c28")
    try:
        for n, data, typ in members:
            p = os.path.join(d, n)
            os.makedirs(p if typ == "d" else os.path.dirname(p), exist_ok=True)
            if typ == "f":
                with open(p, "wb") as fh:
                    for o in range(0, len(data), 4096):
                        if data[o:o + 4096].strip(b"\0"):
                            fh.seek(o)
                            fh.write(data[o:o + 4096])
                    fh.truncate(len(data))
        fmt = {"sparse-gnu": ["--format=gnu"], "sparse-pax": ["--format=posix"], "sparse-pax0": ["--format=posix", "--sparse-version=0.1"]}[kind]
        r = run(["tar", "-C", d, "-c", "-S", "--no-recursion", "--owner=0", "--group=0", "--mtime=@1600000000"] + fmt + ["--"] + [n for n, _, _ in members])
        if r.rc != 0:
            raise ValueError()
        return r.out
    except OSError:
        raise ValueError()
    finally:
        rmtree(d)


def holed(data, seed):
    """The data with ranges of zeros, which tar can leave out."""
    rng = random.Random(seed)
    b = bytearray(data)
    o = 0
    while o < len(b):
        n = rng.choice([1, 4096, 4096, 8192, 40960])
        if rng.random() < 0.6:
            b[o:o + n] = bytes(min(n, len(b) - o))
        o += n
    return bytes(b)


NEAR = ["longer", "shorter", "case", "base", "below", "dot", "twice", "first"]


def near_name(n, how):
    return {"longer": n + "x", "shorter": n[:-1], "case": n.swapcase(), "base": n.rsplit("/", 1)[-1], "below": "d/" + n, "dot": n[2:] if n.startswith("./") else "./" + n,
            "twice": n + n, "first": n.split("/")[0]}[how]


class C28(Prop):
    id = "C28"
    rule = ("random archives (ustar, GNU and pax tar, plain or compressed with gzip, bzip2 and xz, sparse, and zip) with members of many sizes, nested names and directories, from which members are extracted; each "
            "extracted file has the exact contents of its member; a missing member, a cut or foreign archive, or a failing write gives either the exact contents or nothing; and no temporary file or open descriptor "
            "is left behind; non-trivial: a member after the first one is extracted, or an extraction fails after its file was created")
    n_quick, n_thorough = 4000, 32000
    assumptions = ("regular members with ASCII names; libarchive is trusted to read intact archives; damaged archives are cut short or replaced, not altered inside (the formats have no checksum that would show it)",)

    def setup(self, b):
        self.plain = b.link("filedrvf", ["filedrv.c", "fsfault.c"])
        self.asan = b.link("filedrvf", ["filedrv.c", "fsfault.c", "wrap_pool.c"], "asan", ldflags=WRAP_POOL)

    def gen(self, rng, i, tier):
        if i % 500 == 33:              # data that is further away than 32 bits can tell
            size = (1 << 32) + rng.randrange(1, 1 << 30)
            return {"far": size, "at": sorted({rng.choice([0, size - 5, 1 << 32, (1 << 31) - 2, 1 << 31, rng.randrange(size - 10), size - rng.randrange(10, 99999)]) for _ in range(3)}),
                    "kind": rng.choice(["sparse-gnu", "sparse-pax", "sparse-pax0"])}
        members = []
        used = set()
        many = i % 50 == 21
        for k in range(rng.choice([200, 500]) if many else rng.choice([1, 2, 4, 8])):
            n = rng.choice(["", "", "d/", "d/e/", "./", "long" * 20 + "/", "very long name " * 14 + "/"]) + rng.choice(["a", "b", "c.txt", "file", "x y", "n" * 90, "a.b", "A", "a.b.c"])
            if many:
                n += str(k)
            if n in used:
                continue
            used.add(n)
            typ = rng.choice(["d", "f", "f", "f", "f", "f", "f", "f", "f", "f", "f", "f", "h"])
            members.append([n, rng.choice([0, 1, 100, 511, 512, 513, 10239, 10240, 10241, 20480, 65536, 70000, 200000]) if not many else rng.choice([0, 1, 700]), rng.randrange(20), typ])
        if i % 50 == 22:
            members[-1][1:] = [rng.randrange(1 << 20, 6 << 20), 1, "f"]
        damage = None
        r = rng.random()
        if r < 0.25:
            damage = ["cut", rng.random()]
        elif r < 0.3:
            damage = ["garbage", rng.randrange(1000)]
        elif r < 0.33:
            damage = ["gone"]
        return {"kind": rng.choice(["ustar", "gnu", "pax", "ustar+gz", "gnu+bz2", "pax+xz", "gnu+gz", "zip", "zip", "sparse-gnu", "sparse-pax", "sparse-pax0"]), "members": members, "damage": damage,
                "ask": [rng.randrange(len(members) + 1) if rng.random() < 0.8 else [rng.randrange(len(members)), rng.choice(NEAR)] for _ in range(rng.choice([1, 2, 4]))], "asan": i % 6 == 0,
                "fault": rng.choice([None] * 7 + [[rng.choice(["once-write", "from-write"]), rng.choice([errno.ENOSPC, errno.EIO, errno.EFBIG]), rng.choice([1, 1, 2, 3, 5, 9])], ["short-write", rng.choice([1, 100, 5000]), 0]])}

    def far(self, case, work):
        size, at = case["far"], sorted(case["at"])
        if not 10 < size < 6 << 30 or not at or at[0] < 0 or at[-1] > size - 5 or any(y - x < 6 for x, y in zip(at, at[1:])):
            raise Invalid()

        def runs(p):
            """The non-zero bytes of a file and its length."""
            out, o = {}, 0
            with open(p, "rb") as fh:
                n = os.fstat(fh.fileno()).st_size
                while o < n:
                    try:
                        o = os.lseek(fh.fileno(), o, os.SEEK_DATA)
                    except OSError:
                        break
                    e = os.lseek(fh.fileno(), o, os.SEEK_HOLE)
                    if e - o > 1 << 28:
                        raise Invalid()
                    for m in re.finditer(rb"[^\0]+", os.pread(fh.fileno(), e - o, o)):
                        out[o + m.start()] = m.group()
                    o = e
            return out, n
        src = work + "/big"
        with open(src, "wb") as fh:
            fh.truncate(size)
            for k, o in enumerate(at):
                fh.seek(o)
                fh.write(b"here%d" % (k % 10))
        want = runs(src)
        fmt = {"sparse-gnu": ["--format=gnu"], "sparse-pax": ["--format=posix"], "sparse-pax0": ["--format=posix", "--sparse-version=0.1"]}.get(case["kind"])
        if not fmt or run(["tar", "-C", work, "-c", "-S", "-f", work + "/ar"] + fmt + ["big"]).rc != 0 or os.path.getsize(work + "/ar") > 1 << 24:
            raise Invalid()
        log = work + "/log"
        r = run([self.plain], ("u %s/ar\tbig\n" % work).encode(), cwd=work, timeout=60, env=base_env({"FSLOG": log}))
        p = enc(r.out.decode("utf-8", "replace").strip())
        with open(log, "rb") as fh:
            made = fh.read()
        try:
            if b" " + p + b"\n" not in made or not os.path.isfile(p):
                raise Fail("a member of %d bytes with data at %s: %r" % (size, at, r.out[:100]))
            got = runs(p)
        finally:
            for x in re.findall(rb"^\S+ (/(?:tmp|var/tmp|dev/shm)/[^/\n]+)$", made, re.M):
                if os.path.isfile(x):
                    os.unlink(x)
        if got != want:
            raise Fail("a member of %d bytes with data at %s: the file has %d bytes and data at %s" % (size, at, got[1], sorted(got[0])[:8]))
        return Result(True, [case["kind"], "above 4 GiB"])

    def check(self, case, work):
        if case.get("far"):
            return self.far(case, work)
        ms = []
        for n, size, seed, typ in case["members"]:
            if not n or n.startswith("/") or ".." in n.split("/") or n in [m[0] for m in ms] or size < 0 or typ not in ("d", "f", "h"):
                raise Invalid()
            if typ == "h":             # a further name of the first file
                first = next((m for m in ms if m[2] == "f"), None)
                if first and not case["kind"].startswith(("zip", "sparse")):
                    ms.append((n, first[1], "h"))
                    continue
                typ = "f"
            data = content([size, seed, []])
            ms.append((n, holed(data, seed) if case["kind"].startswith("sparse") else data, typ))
        fault = case.get("fault")
        if fault and (fault[0] not in ("once-write", "from-write", "short-write") or fault[1] < 1):
            raise Invalid()
        try:
            data = pack(case["kind"], ms)
        except (ValueError, KeyError):
            raise Invalid()
        path = work + "/ar"
        dmg = case["damage"]
        if dmg:
            if dmg[0] == "cut":
                data = data[:int(len(data) * dmg[1])]
            elif dmg[0] == "garbage":
                data = random.Random(dmg[1]).randbytes(3000)
        if not dmg or dmg[0] != "gone":
            with open(path, "wb") as fh:
                fh.write(data)
        script = ["d"]
        asked = []
        for k in case["ask"]:
            if isinstance(k, list):       # a name that is almost that of a member
                if len(k) != 2 or k[1] not in NEAR or not 0 <= k[0] < len(ms):
                    raise Invalid()
                name = near_name(ms[k[0]][0], k[1])
                k = next((j for j, m in enumerate(ms) if m[0].rstrip("/") == name.rstrip("/")), len(ms))
                if not name or k < len(ms) and ms[k][0] != name:
                    continue
            else:
                name = ms[k][0] if k < len(ms) else "no/such/member"
            m = ms[k] if k < len(ms) else None
            if m and m[2] == "d":
                continue
            asked.append((k, m))
            script.append("u %s\t%s" % (path, name))
        if not asked:
            raise Invalid()
        script.append("d")
        log = work + "/log"
        r = run([self.asan if case.get("asan") else self.plain], ("\n".join(script) + "\n").encode(), cwd=work, timeout=60, env=base_env(dict({"FSLOG": log}, **({"FSFAULT": "%s %d %d *" % tuple(fault)} if fault else {}))))
        made = []
        if os.path.exists(log):
            with open(log, "rb") as fh:
                made = [x for x in re.findall(rb"^\S+ (/.*)$", fh.read(), re.M) if not x.startswith((b"/dev/", b"/proc/", enc(work)))]
        lines = r.out.decode("utf-8", "replace").split("\n")[:-1]
        got = []
        for p in lines[1:1 + len(asked)]:
            if enc(p) in made or p.startswith(work + "/"):
                try:
                    with open(p, "rb") as fh:
                        got.append(fh.read())
                    os.unlink(p)
                except OSError as e:
                    got.append("cannot be read: %s" % e)
            else:
                got.append(None if p == "none" else "unexpected answer %r" % p)
        left = sorted({p for p in made if os.path.lexists(p)})
        for p in left:
            if re.match(rb"/(tmp|var/tmp|dev/shm)/[^/]+$", p) and os.path.isfile(p):
                os.unlink(p)
        if r.crashed() or r.rc != 0:
            raise Fail("the driver: %s" % (r.crashed() or "exit %s" % r.rc))
        if len(lines) != len(script):
            raise Fail("%d answers to %d operations" % (len(lines), len(script)))
        deep = False
        for (k, m), g in zip(asked, got):
            what = "%s of a %s archive (damage: %s, fault: %s)" % (m[0][-40:] if m else "a missing member", case["kind"], dmg, fault)
            if isinstance(g, str):
                raise Fail("%s: %s" % (what, g))
            if m is None:
                if g is not None:
                    raise Fail("%s: something was extracted" % what)
            elif g is None:
                if not dmg and not (fault and fault[0] in ("once-write", "from-write")) and m[2] != "h":
                    raise Fail("%s: not extracted" % what)
            elif g != m[1]:
                raise Fail("%s: %d bytes instead of %d, or other contents" % (what, len(g), len(m[1])))
            deep |= m is not None and (k > 0 or g is None)
        if lines[0] != lines[-1]:
            raise Fail("%s open descriptors before, %s after %d extractions (%s, damage %s)" % (lines[0], lines[-1], len(asked), case["kind"], dmg))
        if left:
            raise Fail("files left behind: %s" % left)
        return Result(deep, [case["kind"], dmg[0] if dmg else "intact"] + (["failed"] if None in got else []) + ([fault[0]] if fault else []))


PROPS = [C12, C13, C27, C28]
