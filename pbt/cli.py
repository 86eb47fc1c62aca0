"""Trees, the reference model of the ftwin command, and the parsing of its output."""
import hashlib
import json
import os
import random
import re
import resource
import stat
import struct
import tempfile

from .collide import twin_names, twin_sizes
from .core import Fail, Invalid, Jit, Prop, Result, base_env, run

# --------------------------------------------------------------------------- contents

_streams = {}


def stream(seed, n):
    s = _streams.get(seed)
    if s is None or len(s) < n:
        s = random.Random("content %d" % seed).randbytes(max(n, 70000))
        _streams[seed] = s
    return s


# The constants which XXH3 mixes with the first bytes of its input
XXH3_SECRET = bytes.fromhex("b8fe6c3923a44bbe7c01812cf721ad1cded46de9839097db7240a4a4b7b3671fcb79e64eccc0e578825ad07dccff7221b8084674f743248e"
                            "e03590e6813a264c3c2852bb91c300cb")
TWIN_SIZE = 241              # from this size on, different contents of equal hash are easy to make


def same_hash(b, lane, k):
    """Changes b so that all k give different contents with one XXH3 hash.

    Above 240 bytes, XXH3 adds up (word) and (low half * high half of (word ^ secret)) for the same word of all stripes of 64 bytes. Words whose
    high half equals that of the secret make the product zero, so that only the sum of two such words counts."""
    for stripe, low in ((0, 0x10000000 + k), (1, 0x70000000 - k)):
        o = 8 * lane + 8 * stripe
        b[64 * stripe + 8 * lane:64 * stripe + 8 * lane + 8] = struct.pack("<I", low) + XXH3_SECRET[o + 4:o + 8]


def content(c):
    """c = [size, seed, [[position, xor], ...]], and [word, k] for one of several contents of the same hash"""
    size, seed = c[0], c[1]
    b = bytearray(stream(seed, size)[:size])
    if len(c) > 3:
        lane, k = c[3]
        if size < TWIN_SIZE or not 0 <= lane < 8 or not 0 <= k < 1 << 24:
            raise Invalid()
        same_hash(b, lane, k)
    for pos, x in c[2]:
        if size:
            b[pos % size] ^= (x & 0xFF) or 1
    return bytes(b)


SIZES = [0, 1, 2, 3, 7, 16, 17, 63, 64, 100, 128, 129, 240, 241, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 10000]
BIG_SIZES = [16384, 65535, 65536, 65537, 131071, 131072, 131073, 200000]


def gen_contents(rng, n=None, sizes=None, big=0.1):
    """Size classes with several near-identical members each."""
    out = []
    for _ in range(n or rng.choice([1, 2, 3, 5])):
        size = rng.choice(sizes) if sizes else (rng.choice(BIG_SIZES) if rng.random() < big else rng.choice(SIZES))
        seed = rng.randrange(4)
        out.append([size, seed, []])
        if size >= TWIN_SIZE and rng.random() < 0.25:
            lane = rng.randrange(8)
            out.pop()
            out += [[size, seed, [], [lane, k]] for k in rng.sample([0, 1, 2, 255, 256, 65536], rng.choice([2, 3, 5]))]
        for _ in range(rng.choice([0, 1, 1, 2, 4])):
            kind = rng.random()
            if kind < 0.7:
                pos = rng.choice([0, size - 1, size // 2, rng.randrange(size + 1), 65535, 65536, 4095, 4096])
                out.append([size, seed, [[max(0, pos), 1 << rng.randrange(8)]]])
            elif kind < 0.85:
                out.append([size, seed + 10, []])
            else:
                out.append([max(0, size + rng.choice([-1, 1])), seed, []])
    return out


NAMES = ["a", "b", "c", "x1", "x2", "file", "a.txt", "b.TXT", "c.log", "d.jpg", "sp ace", "é", "日本", "-dash", "x,y", "q'uote", 'dq"', "back\\slash",
         "semi;colon", "star*", "[br]", "UPPER", "upper", "longer-name-with-more-characters.data", "%s%n", "a.b.c", "tab\tx"]
DIRS = ["d1", "d2", "sub", "deep", "photos", "D1", "my dir", "ü"]


def gen_tree(rng, nfiles=None, names=NAMES, dirs=DIRS, hidden=0.0, links=0.0, hard=0.05, contents=None, top=3):
    contents = contents or gen_contents(rng)
    dlist = [""]
    for _ in range(rng.choice([0, 1, 3, 6])):
        parent = rng.choice(dlist)
        nm = rng.choice(dirs)
        if hidden and rng.random() < hidden:
            nm = rng.choice([".", ".", ".", "..", "..."]) + nm
        p = (parent + "/" if parent else "") + nm
        if p not in dlist and p.count("/") < 5:
            dlist.append(p)
    entries = [["d", d] for d in dlist[1:]]
    used = set(dlist)
    files = []
    n = nfiles if nfiles is not None else rng.choice([1, 2, 3, 5, 8, 14, 25, 40])
    for _ in range(n):
        nm = rng.choice(names) if rng.random() < 0.7 else rng.choice(names) + str(rng.randrange(30))
        if hidden and rng.random() < hidden:
            nm = rng.choice([".", ".", ".", "..", "..."]) + nm
        d = rng.choice(dlist)
        p = (d + "/" if d else "") + nm
        if p in used:
            continue
        used.add(p)
        r = rng.random()
        if files and r < hard:
            entries.append(["h", p, rng.choice(files)])
        elif r < hard + links:
            kind = rng.random()
            if kind < 0.45 and files:
                tgt = rng.choice(files)
            elif kind < 0.8:
                tgt = rng.choice(dlist)
            elif kind < 0.9:
                tgt = "missing/thing"
            else:
                tgt = p            # itself
            up = "../" * p.count("/")
            entries.append(["l", p, (up + tgt) or "."])
        elif r < hard + links + 0.01:
            entries.append(["p", p])
        else:
            entries.append(["f", p, rng.randrange(len(contents))])
            files.append(p)
    return {"contents": contents, "entries": entries, "dirs": dlist}


def enc(p):
    """Names are stored in cases as text with surrogate escapes."""
    return p.encode("utf-8", "surrogateescape")


def contained(name):
    """A name below the root of a tree; shrinking must never make a case leave its scratch directory."""
    if not isinstance(name, str) or "\0" in name or any(x in ("", ".", "..") for x in name.split("/")):
        raise Invalid()


def contained_link(name, target):
    """A relative link target that stays below the root."""
    if not isinstance(target, str) or not target or target.startswith("/") or "\0" in target:
        raise Invalid()
    depth = name.count("/")
    for x in target.split("/"):
        depth += -1 if x == ".." else 0 if x in ("", ".") else 1
        if depth < 0:
            raise Invalid()


def build_tree(root, tree):
    rb = enc(root)
    cache = {}
    giants = [e[2] for e in tree["entries"] if e[0] == "s"]
    if (len(set(giants)) != len(giants) or any(x < 1 << 31 for x in giants)) and not tree.get("twins") or any(x > 1 << 33 for x in giants if tree.get("twins")):
        raise Invalid()
    for e in tree["entries"]:
        contained(e[1])
        if e[0] in ("h", "m"):
            contained(e[2])
        elif e[0] == "l":
            contained_link(e[1], e[2])
    for e in tree["entries"]:
        p = os.path.join(rb, enc(e[1]))
        parent = os.path.dirname(p)
        try:
            os.makedirs(parent, exist_ok=True)
            if e[0] == "d":
                os.makedirs(p, exist_ok=True)
            elif e[0] == "f":
                if not 0 <= e[2] < len(tree["contents"]):
                    raise Invalid()
                if e[2] not in cache:
                    cache[e[2]] = content(tree["contents"][e[2]])
                with open(p, "xb") as fh:
                    fh.write(cache[e[2]])
            elif e[0] == "b":            # explicit bytes, as latin-1 text
                with open(p, "xb") as fh:
                    fh.write(e[2].encode("latin-1"))
            elif e[0] == "l":
                os.symlink(enc(e[2]), p)
            elif e[0] == "h":
                os.link(os.path.join(rb, enc(e[2])), p)
            elif e[0] == "m":            # many hard links to an earlier file
                if not 0 <= e[3] <= 100000:
                    raise Invalid()
                src = os.path.join(rb, enc(e[2]))
                for k in range(e[3]):
                    os.link(src, p + b"%d" % k)
            elif e[0] == "p":
                os.mkfifo(p)
            elif e[0] == "s":            # sparse file
                if not 0 <= e[2] <= 1 << 42:
                    raise Invalid()
                with open(p, "xb") as fh:
                    fh.truncate(e[2])
                    for pos, byte in e[3] if len(e) > 3 else ():
                        if not (0 <= pos < e[2] and 0 <= byte < 256):
                            raise Invalid()
                        fh.seek(pos)
                        fh.write(bytes([byte]))
            else:
                raise Invalid()
        except (OSError, ValueError):
            raise Invalid()
    for e in tree["entries"]:
        if e[0] in ("f", "b") and len(e) > 3 and e[3] is not None:
            os.utime(os.path.join(rb, enc(e[1])), ns=(e[3], e[3]))
    stamp, modes = tree.get("stamp"), tree.get("modes")
    if stamp is not None or modes:
        if stamp is not None and not (isinstance(stamp, int) and 0 <= stamp < 1 << 62) or modes and not (isinstance(modes, list) and all(isinstance(m, int) and 0 <= m < 0o10000 for m in modes)):
            raise Invalid()
        for k, e in enumerate([e for e in tree["entries"] if e[0] in ("d", "f", "b")]):
            p = os.path.join(rb, enc(e[1]))
            if modes and all_powerful():
                os.chmod(p, modes[k % len(modes)])
            if stamp is not None:
                os.utime(p, ns=(stamp, stamp))


_powerful = []


def all_powerful():
    """Whether permissions do not stop this process (root)."""
    if not _powerful:
        ok = False
        if os.geteuid() == 0:
            with tempfile.TemporaryDirectory() as d:
                q = os.path.join(d, "x")
                os.mkdir(q, 0)
                try:
                    open(os.path.join(q, "y"), "wb").close()
                    os.chmod(os.path.join(q, "y"), 0)
                    open(os.path.join(q, "y"), "rb").close()
                    ok = True
                except OSError:
                    pass
        _powerful.append(ok)
    return _powerful[0]


# --------------------------------------------------------------------------- gitignore, written from gitignore(5)

def wild(p, t):
    """Git's wildmatch with pathname semantics, on bytes."""
    memo = {}

    def m(i, j):
        key = (i, j)
        if key in memo:
            return memo[key]
        memo[key] = r = m2(i, j)
        return r

    def m2(i, j):
        while i < len(p):
            c = p[i:i + 1]
            if c == b"*":
                return star(i, j)
            if j == len(t):
                return False
            ch = t[j:j + 1]
            if c == b"?":
                if ch == b"/":
                    return False
                i += 1
            elif c == b"[":
                r = char_class(p, i, ch)
                if r is None or not r[0] or ch == b"/":
                    return False
                i = r[1]
            elif c == b"\\" and i + 1 < len(p):
                if p[i + 1:i + 2] != ch:
                    return False
                i += 2
            elif c == ch:
                i += 1
            else:
                return False
            j += 1
        return j == len(t)

    def star(i, j):
        k = i
        while p[k:k + 1] == b"*":
            k += 1
        whole = k - i == 2 and (i == 0 or p[i - 1:i] == b"/") and (k == len(p) or p[k:k + 1] == b"/")
        if whole:
            if k == len(p):
                return True
            # "**/": zero or more whole directories
            if m(k + 1, j):
                return True
            return any(t[x:x + 1] == b"/" and m(k + 1, x + 1) for x in range(j, len(t)))
        x = j
        while True:
            if m(k, x):
                return True
            if x >= len(t) or t[x:x + 1] == b"/":
                return False
            x += 1
    return m(0, 0)


def _ascii(f):
    return lambda c: c < 128 and f(chr(c))


POSIX = {"alpha": _ascii(str.isalpha), "digit": _ascii(str.isdigit), "alnum": _ascii(str.isalnum), "upper": _ascii(str.isupper), "lower": _ascii(str.islower),
         "space": _ascii(lambda c: c in " \t\n\v\f\r"), "blank": _ascii(lambda c: c in " \t"), "xdigit": _ascii(lambda c: c in "0123456789abcdefABCDEF"),
         "punct": _ascii(lambda c: "!" <= c <= "~" and not c.isalnum()), "cntrl": _ascii(lambda c: c < " " or c == "\x7f"), "graph": _ascii(lambda c: "!" <= c <= "~"),
         "print": _ascii(lambda c: " " <= c <= "~")}


def char_class(p, i, ch):
    """(matches, index after the class), or None if it is not closed."""
    k = i + 1
    neg = p[k:k + 1] in (b"!", b"^")
    if neg:
        k += 1
    ok = False
    first = True
    while True:
        if k >= len(p):
            return None
        c = p[k:k + 1]
        if c == b"]" and not first:
            break
        first = False
        if c == b"[" and p[k + 1:k + 2] == b":":
            end = p.find(b"]", k + 2)
            if end < 0:
                return None
            if end > k + 2 and p[end - 1:end] == b":":
                name = p[k + 2:end - 1].decode("latin-1")
                if name not in POSIX:
                    return None
                ok |= POSIX[name](ch[0])
                k = end + 1
                continue
        if c == b"\\" and k + 1 < len(p):
            k += 1
            c = p[k:k + 1]
        lo = c
        k += 1
        if p[k:k + 1] == b"-" and p[k + 1:k + 2] not in (b"]", b""):
            k += 1
            if p[k:k + 1] == b"\\":
                k += 1
            hi = p[k:k + 1]
            k += 1
            if lo <= ch <= hi:
                ok = True
        elif lo == ch:
            ok = True
    return ok != neg, k + 1


class Pattern:
    def __init__(self, line):
        self.neg = line.startswith(b"!")
        if self.neg:
            line = line[1:]
        self.dir_only = line.endswith(b"/")
        if self.dir_only:
            line = line[:-1]
        self.anchored = b"/" in line
        if line.startswith(b"/"):
            line = line[1:]
        self.p = line

    def match(self, rel, is_dir):
        if self.dir_only and not is_dir:
            return False
        return wild(self.p, rel if self.anchored else rel.rsplit(b"/", 1)[-1])


def parse_ignore(data):
    out = []
    for line in data.split(b"\n"):
        if line.endswith(b"\r"):
            line = line[:-1]
        line = line.lstrip(b" \t")          # ftwin's own: leading blanks do not count
        if not line or line.startswith(b"#"):
            continue
        while line.endswith(b" ") and (len(line) - 1 - len(line[:-1].rstrip(b"\\"))) % 2 == 0:
            line = line[:-1]
        if line in (b"", b"!", b"/", b"!/"):
            continue
        out.append(Pattern(line))
    return out


DEFAULT_IGNORES = [".git/", ".hg/", ".svn/", "build/", "dist/", "out/", "target/", "bin/", "*.o", "*.class", "*.pyc", "*.pyo", "node_modules/",
                   "vendor/", ".venv/", ".DS_Store", "Thumbs.db", "*.swp", "*~", ".idea/", ".vscode/"]
_defaults = [Pattern(x.encode()) for x in DEFAULT_IGNORES]


def ignored(ctxs, path, is_dir):
    """ctxs: list of (base directory, patterns), outermost first; the innermost that says something decides."""
    for base, pats in reversed(ctxs):
        rel = path
        if base is not None:
            rel = path[len(base):].lstrip(b"/")
        res = None
        for p in pats:
            if p.match(rel, is_dir):
                res = not p.neg
        if res is not None:
            return res
    return False


# --------------------------------------------------------------------------- the model

class Opts:
    def __init__(self, o):
        self.hidden = o.get("a", False)
        self.recurse = not o.get("R", False)
        self.follow = o.get("f", False)
        self.icase = o.get("c", False)
        self.min = o.get("m", 0)
        self.max = o.get("M", 0)
        self.names = [enc(x) for x in o.get("i", [])]
        self.e = self.rx(o.get("e"))
        self.w = self.rx(o.get("w"))
        self.p = enc(o["p"]) if o.get("p") else None

    def rx(self, s):
        if s is None:
            return None
        try:
            return re.compile(re.sub(rb"(?<!\\)\$", rb"\\Z", enc(s)), re.DOTALL | (re.IGNORECASE if self.icase else 0))
        except re.error:
            raise Invalid()


def argv_of(o, absroot=None):
    """Command-line options of a case (without files)."""
    out = []
    if "j" in o and not 1 <= int(o["j"]) <= 256:
        raise Invalid()
    if o.get("s", None) == "":
        raise Invalid()
    for k in ("a", "c", "d", "n", "f", "o", "r", "R", "t", "v", "J", "I"):
        if o.get(k):
            out.append("-" + k)
    for k, v in o.get("earlier", []):   # overridden by what follows
        if k not in "mMjxspew" or k not in o or o[k] is None:
            raise Invalid()
        out += ["-" + k, str(v)]
    for k in ("m", "M", "j", "x", "s", "p", "T"):
        if k in o and o[k] is not None:
            out += ["-" + k, str(o[k])]
    for k in ("e", "w"):
        if o.get(k) is not None:
            out += ["-" + k, o[k]]
    if o.get("i"):
        n = o.get("i_at", len(o["i"]))
        out += ["-i", ",".join(o["i"][:n])]
        if n < len(o["i"]):
            out += ["-i", ",".join(o["i"][n:])]
    return out


def collect(cwd, args, o, allow_missing=False):
    """The files ftwin has to consider: list of (printed path, real path)."""
    found = []
    cwdb = enc(cwd)

    def real(p):
        return p if p.startswith(b"/") else os.path.join(cwdb, p)

    def visit(path, ctxs, anc, top):
        try:
            st = os.stat(real(path)) if o.follow else os.lstat(real(path))
        except OSError:
            if o.follow:
                try:
                    os.lstat(real(path))
                    return             # a broken link
                except OSError:
                    pass
            if top:
                raise Invalid("missing argument")
            return
        is_dir = stat.S_ISDIR(st.st_mode)
        if ignored(ctxs, path, is_dir):
            return
        if is_dir:
            key = (st.st_dev, st.st_ino)
            if key in anc:
                return
            here = ctxs
            gi = path.rstrip(b"/") + b"/.gitignore" if path.strip(b"/") else b"/.gitignore"
            try:
                if stat.S_ISREG(os.stat(real(gi)).st_mode):
                    with open(real(gi), "rb") as fh:
                        here = ctxs + [(path, parse_ignore(fh.read()))]
            except OSError:
                pass
            try:
                names = os.listdir(real(path))
            except OSError:
                return
            for nm in names:
                if nm in o.names or (nm.startswith(b".") and not o.hidden):
                    continue
                full = path + (b"" if path.endswith(b"/") else b"/") + nm
                try:
                    ls = os.lstat(real(full))
                except OSError:
                    continue
                isd = stat.S_ISDIR(ls.st_mode)
                if stat.S_ISLNK(ls.st_mode) and o.follow:
                    try:
                        isd = stat.S_ISDIR(os.stat(real(full)).st_mode)
                    except OSError:
                        isd = False
                if not o.recurse and isd:
                    continue
                if o.e and o.e.search(full):
                    continue
                if o.w and not isd and not o.w.search(full):
                    continue
                visit(full, here, anc | {key}, False)
        elif stat.S_ISREG(st.st_mode):
            if st.st_size >= o.min and (o.max == 0 or st.st_size <= o.max):
                found.append((path, real(path), st))
    for a in args:
        visit(a, [(None, _defaults)], frozenset(), True)
    return found


def sparse(path, size):
    """What tells a file that is mostly holes from others: its size and its bytes that are not zero."""
    h = hashlib.sha256(b"%d" % size)
    fd = os.open(path, os.O_RDONLY)
    try:
        at = 0
        while at < size:
            try:
                at = os.lseek(fd, at, os.SEEK_DATA) & ~4095
            except OSError:
                break
            end = os.lseek(fd, at, os.SEEK_HOLE)
            while at < end:
                b = os.pread(fd, min(end - at, (1 << 20) - at % (1 << 20)), at)
                for k in range(0, len(b) if b.strip(b"\0") else 0, 4096):
                    page = b[k:k + 4096]
                    if page.strip(b"\0"):
                        h.update(b"%d:" % (at + k) + page)
                at += len(b)
        return h.digest()
    finally:
        os.close(fd)


def group(found):
    by, sizes = {}, {}
    for printed, realp, st in found:
        sizes[st.st_size] = sizes.get(st.st_size, 0) + 1
    for printed, realp, st in found:
        if sizes[st.st_size] > 1:
            if st.st_size > 1 << 24:
                by.setdefault(sparse(realp, st.st_size), []).append(printed)
                continue
            with open(realp, "rb") as fh:
                by.setdefault(fh.read(), []).append(printed)
    return [(k, v) for k, v in by.items() if len(v) > 1]


def add_giants(rng, tree):
    """Sparse files whose sizes are those of other files plus a power of two; no two of them are equal, so none is ever read."""
    sizes = [c[0] for c in tree["contents"]] + [0, 1]
    used = {e[1] for e in tree["entries"]}
    seen = set()
    for k in range(rng.choice([1, 2, 4])):
        size = rng.choice(sizes) + rng.choice([1 << 31, 1 << 32, 1 << 32, 3 << 32, 1 << 33, 1 << 40])
        d = rng.choice(tree["dirs"])
        p = (d + "/" if d else "") + "giant%d" % k
        if size not in seen and p not in used:
            seen.add(size)
            tree["entries"].append(["s", p, size])
    return seen


def add_colliding(rng, tree):
    """Sparse files of different sizes with the same hash.  Returns names with the same hash, some of them in the tree."""
    for k, size in enumerate(twin_sizes(rng, rng.choice([9, 20, 60]))):
        d = rng.choice(tree["dirs"])
        tree["entries"].append(["s", (d + "/" if d else "") + "same hash %d" % k, size])
    names = [t.decode("utf-8", "surrogateescape") for t in twin_names(rng, rng.choice([9, 16]), bytes(set(range(33, 256)) - set(b"/,.")))]
    used = {e[1] for e in tree["entries"]}
    files = [e for e in tree["entries"] if e[0] == "f"]
    for n in names:
        d = rng.choice(tree["dirs"])
        p = (d + "/" if d else "") + n
        if files and p not in used and rng.random() < 0.5:
            tree["entries"].append(["f", p, rng.choice(files)[2]])
    return names


def lengthen(rng, tree):
    """Replaces one directory of the tree by a chain of long names (or puts all of it below one)."""
    d = rng.choice(tree["dirs"])
    total = rng.choice([300, 1000, 2000, 3000])
    chain = []
    while sum(len(x) + 1 for x in chain) < total:
        chain.append(rng.choice("lmn") * rng.choice([1, 60, 200, 255]))
    new = "/".join(chain)

    def m(p):
        if not d:
            return new + "/" + p
        return new + p[len(d):] if p == d or p.startswith(d + "/") else p
    tree["entries"] = [[e[0], m(e[1])] + [m(x) if e[0] == "h" else x for x in e[2:]] for e in tree["entries"]]
    tree["dirs"] = [m(x) if x else x for x in tree["dirs"]]


def canon(groups):
    return sorted(tuple(sorted(g)) for g in groups)


# --------------------------------------------------------------------------- running

def parse_text(out, sep=b"\n", sized=False):
    """Groups of a text report, exactly as printed: [(size line or None, [paths])]."""
    if out == b"":
        return []
    if not out.endswith(b"\n\n"):
        raise Fail("the report does not end with an empty line: %r" % out[-80:])
    res = []
    if sep == b"\n":
        for blk in out[:-2].split(b"\n\n"):
            lines = blk.split(b"\n")
            size = lines.pop(0) if sized else None
            res.append((size, lines))
    else:
        for blk in out[:-2].split(b"\n\n"):
            size = None
            if sized:
                if b"\n" not in blk:
                    raise Fail("no size line in %r" % blk[:200])
                size, blk = blk.split(b"\n", 1)
            res.append((size, blk.split(sep)))
    return res


def parse_json(out):
    """The groups of a JSON report; C03 looks at the rest of it."""
    try:
        return [[d["path"].encode("utf-8") for d in g["duplicates"]] for g in json.loads(out.decode("utf-8"))]
    except (ValueError, KeyError, TypeError, AttributeError) as e:
        raise Fail("the JSON report cannot be read: %s: %r" % (e, out[:200]))


def little_memory():
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))


def ftwin(binary, cwd, opts, args, timeout=40, env=None, preexec=None):
    argv = [binary] + [enc(x) if isinstance(x, str) else x for x in opts] + [enc(x) if isinstance(x, str) else x for x in args]
    r = run(argv, b"", timeout=timeout, cwd=cwd, env=env, preexec=preexec)
    why = r.crashed()
    if why:
        raise Fail("ftwin %s: %s" % (b" ".join(x if isinstance(x, bytes) else x.encode() for x in argv[1:])[:300].decode("utf-8", "replace"), why))
    return r


def show_groups(gs, n=4):
    return str([[x.decode("utf-8", "replace") for x in g] for g in gs[:n]])[:700] + (" ..." if len(gs) > n else "")


def compare_groups(got, want, what=""):
    if got != want:
        g, w = set(got), set(want)
        raise Fail("%s%sreported but not expected: %s; expected but not reported: %s" % (
            what, ": " if what else "", show_groups(sorted(g - w)) if g - w else ("none" if len(got) == len(g) else "a group twice"), show_groups(sorted(w - g)) if w - g else "none"))


class CliProp(Prop):
    asan_every = 6

    def setup(self, b):
        self.bin = b.ftwin("plain")
        self.asan = b.ftwin("asan")
        self.jit = b.ftwin("jit")

    def binary(self, case):
        if case.get("jit"):
            return Jit(self.jit, case["jit"])
        return self.asan if case.get("asan") else self.bin

    def sample(self, case):
        c = dict(case)
        if "tree" in c:
            t = c["tree"]
            c["tree"] = {"contents": [[x[0], x[1], x[2][:3]] + x[3:] for x in t["contents"][:6]], "entries": [e if len(str(e)) < 200 else e[:2] for e in t["entries"][:14]],
                         "n": len(t["entries"])}
        return c


def gen_args(rng, tree, style=None):
    """Non-overlapping arguments: the whole tree, or several of its top-level parts."""
    style = style or rng.choice(["root", "root", "dot", "abs", "parts", "parts", "slash"])
    if style == "root":
        return ["t"]
    if style == "slash":
        return ["t/"]
    if style == "dot":
        return ["@dot"]
    if style == "abs":
        return ["@abs"]
    tops = []
    for e in tree["entries"]:
        top = e[1].split("/")[0]
        if top not in tops:
            tops.append(top)
    if not tops:
        return ["t"]
    rng.shuffle(tops)
    k = rng.randint(1, len(tops))
    return ["t/" + x for x in tops[:k]]


def place(case, work):
    """Builds the tree below work/t; returns (cwd, arguments as bytes)."""
    root = os.path.join(work, "t")
    os.mkdir(root)
    build_tree(root, case["tree"])
    cwd = work
    args = []
    for a in case["args"]:
        if a == "@dot":
            cwd = root
            args.append(b".")
        elif a == "@abs":
            args.append(enc(root))
        else:
            if a != "t" and not a.startswith("t/") or ".." in a.split("/"):
                raise Invalid()
            args.append(enc(a))
    if not args or (cwd != work and len(args) > 1):
        raise Invalid()
    seen = set()
    for a in args:
        rp = os.path.realpath(os.path.join(enc(cwd), a))
        if not os.path.lexists(os.path.join(enc(cwd), a)):
            raise Invalid()
        key = os.path.normpath(os.path.join(enc(cwd), a))
        if any(key == s or key.startswith(s + b"/") or s.startswith(key + b"/") for s in seen):
            raise Invalid()
        seen.add(key)
    return cwd, args


def expect_run(prop, case, work, cwd, args, opts, extra=(), binary=None, env=None, preexec=None):
    """Runs ftwin in text mode and compares the groups with the model.  Returns (groups expected, files considered, run)."""
    o = Opts(opts)
    found = collect(cwd, args, o)
    r = ftwin(binary or prop.binary(case), cwd, argv_of(opts) + list(extra), args, env=env, preexec=preexec)
    if not found:
        if r.rc == 0 or r.out:
            raise Fail("no file to consider, but exit %s and output %r" % (r.rc, r.out[:200]))
        return [], found, r
    if r.rc != 0:
        raise Fail("exit %s: %r" % (r.rc, r.err[-400:]))
    sep = enc(opts["s"])[:1] if opts.get("s") else b"\n"
    if opts.get("J"):
        got = canon(parse_json(r.out))
    else:
        if any(b"\n" in p or sep in p for p, _, _ in found):
            raise Invalid()
        got = canon(p for _, p in parse_text(r.out, sep, opts.get("d", False)))
    want = canon(g for _, g in group(found))
    compare_groups(got, want)
    return want, found, r
