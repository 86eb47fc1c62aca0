"""Properties of the ftwin command: ignore rules, robustness, contents, options, side effects, images."""
import errno
import json
import os
import random
import re
import stat

from .cli import (BIG_SIZES, DEFAULT_IGNORES, POSIX, SIZES, CliProp, Opts, argv_of, build_tree, canon, collect, compare_groups, contained, content, enc, expect_run, ftwin, gen_args,
                  gen_contents, gen_tree, group, parse_json, parse_text, place)
from .core import Fail, Invalid, Result, base_env, run

# --------------------------------------------------------------------------- ignore rules

IG_NAMES = ["a", "b", "ab", "abc", "a.txt", "b.txt", "a.log", "foo", "foobar", "bar", "x1", "x2", "a b", "#h", "!n", "a-z", "é", "A", "[x]", "a*b", "q?", "o.o", "t~", "tr ", "bs\\", "bs\\ ", "bs"]
IG_DIRS = ["d", "e", "foo", "src", "a", "build", "sub", "out"]


def gen_pattern(rng, rels):
    rel = rng.choice(rels)
    parts = rel.split("/")
    r = rng.random()
    if r < 0.4:
        parts = parts[-1:]
    elif r < 0.6:
        k = rng.randrange(len(parts))
        parts = parts[k:]
    elif r < 0.7:
        parts = parts[:rng.randint(1, len(parts))]
    out = []
    for p in parts:
        q = rng.random()
        if q < 0.12:
            p = "*"
        elif q < 0.22:
            p = "**"
        elif q < 0.34 and p:
            k = rng.randrange(len(p))
            p = p[:k] + "*" + p[rng.randint(k, len(p)):]
        elif q < 0.42 and p:
            k = rng.randrange(len(p))
            p = p[:k] + "?" + p[k + 1:]
        elif q < 0.52 and p:
            k = rng.randrange(len(p))
            c = p[k]
            if rng.random() < 0.4:
                p = p[:k] + gen_class(rng, c) + p[k + 1:]
            elif c.isascii() and c.isalnum():
                p = p[:k] + rng.choice(["[%s]" % c, "[a-%s]" % c if c >= "a" else "[%s]" % c, "[!%s]" % c, "[^q]", "[%s-z]" % c if c <= "z" else "[%s]" % c, "[]%s]" % c, "[%s-]" % c, "[\\%s]" % c]) + p[k + 1:]
        elif q < 0.57:
            p = re.sub(r"([*?\[\]\\#!a])", r"\\\1", p)
        elif q < 0.6:
            p = "*" + p
        elif q < 0.63:
            p = p + "*"
        out.append(p)
    s = "/".join(out)
    if len(out) > 1 and rng.random() < 0.2:
        # A wildcard where the path has a slash: it must not match it.
        at = [k for k, c in enumerate(s) if c == "/"]
        k = rng.choice(at)
        s = s[:k] + rng.choice(["?", "?", "*", "[!x]", "[^q]", "**", "?*", "\\/"]) + s[k + 1:]
        if "/" not in s and rng.random() < 0.8:
            s = "/" + s
    if rng.random() < 0.1:
        s = "**/" + s
    if rng.random() < 0.06:
        s = s + "/**"
    if rng.random() < 0.15:
        s = "/" + s
    if rng.random() < 0.2:
        s = s + "/"
    if s.startswith("#") and rng.random() < 0.8:
        s = "\\" + s
    if s.startswith("!"):
        s = "\\" + s
    if rng.random() < 0.25:
        s = "!" + s
    if s.endswith("\\") and (len(s) - len(s.rstrip("\\"))) % 2:
        s += "\\" + rng.choice(["", " ", "  "])
    elif "\\ " in s[-3:] and rng.random() < 0.9:
        s = s.rstrip("\\ ") + rng.choice(["\\\\\\ ", "\\\\ ", "\\ ", "\\\\\\  "])
    elif s.endswith(" ") and rng.random() < 0.7:
        s = s[:-1] + "\\ "
    elif rng.random() < 0.05:
        s += "  "
    return s


def gen_class(rng, c):
    """A bracket expression of several elements, often one that matches c."""
    out = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        out.append(rng.choice([c, c, "\\" + c, rng.choice("ab.*?!^$+(){}|-#1 "), rng.choice("*?.") + c, "a-z", "0-9", "A-Z", "!-~", "[:%s:]" % rng.choice(sorted(POSIX)), "[:alpha:]", "[:alnum:]",
                               "[", "\\]", "\\\\", "-"]))
    return "[" + rng.choice(["", "", "!", "^"]) + rng.choice(["", "", "", "]"]) + "".join(out) + "]"


def ok_classes(s):
    """Outside the claim: ranges that are empty or end in a named class, unknown names, equivalence classes."""
    i = 0
    while i < len(s):
        if s[i] == "\\":
            i += 2
            continue
        if s[i] != "[":
            i += 1
            continue
        i += 1
        if s[i:i + 1] in ("!", "^"):
            i += 1
        start, prev = i, None
        while i < len(s) and (s[i] != "]" or i == start):
            m = re.match(r"\[:([a-z]+):\]", s[i:])
            if m:
                if m.group(1) not in POSIX:
                    return False
                i += m.end()
                prev = None
                if s[i:i + 1] == "-" and s[i + 1:i + 2] != "]":
                    return False
                continue
            if s[i] == "[" and s[i + 1:i + 2] in (":", ".", "="):
                return False
            dash = s[i] == "-"
            if s[i] == "\\":
                i += 1
            c = s[i:i + 1]
            i += 1
            if dash and prev is not None and s[i:i + 1] not in ("]", ""):
                if s[i] == "[":
                    return False
                if s[i] == "\\":
                    i += 1
                if not s[i:i + 1] or s[i].encode("utf-8", "surrogateescape") < prev.encode("utf-8", "surrogateescape") or not (s[i] + prev).isascii():
                    return False
                i += 1
                prev = None
            else:
                prev = c
        i += 1
    return True


def near_default(x):
    out = [x, x + "x", "x" + x, x.upper(), x.swapcase(), x[:-1], x[1:], x + ".txt", x.replace(".", "x", 1), x.replace(".", "..", 1)]
    return [y for y in out if y not in ("", ".", "..", ".gitignore")]


def longer(rng, p):
    """Lines of hundreds or thousands of bytes with the meaning of p, or with none."""
    n = rng.choice([100, 240, 260, 500, 1000, 1030, 2000, 2050, 4000]) - len(p)
    if n <= 4 or p.endswith(" ") or p.endswith("\\"):
        return p
    r = rng.random()
    if r < 0.4:
        return "#" + rng.choice([" ", "x", "/"]) * n + rng.choice(["", " ", "/"]) + p
    if r < 0.6:
        return p + " " * n
    k = [j for j, c in enumerate(p) if c.isascii() and c.isalnum() and "[" not in p and (j == 0 or p[j - 1] != "\\")]
    if k and r < 0.9:
        j = rng.choice(k)
        return p[:j] + "[" + rng.choice(["Q", "QR", "%"]) * (n // 2) + p[j] + "]" + p[j + 1:]
    return "Q" * n + p


def ok_pattern(s):
    """Outside the claim: a lone backslash at the end, blanks after the exclamation mark, more stars than two in a row, unusual class syntax."""
    t = s.rstrip(" ")
    n = len(t) - len(t.rstrip("\\"))
    if s.endswith(" ") and n % 2 == 1:
        n = 0
    return n % 2 == 0 and not s.startswith("! ") and "***" not in s and len(s) < 4090 and ok_classes(s)


class C06(CliProp):
    id = "C06"
    rule = ("random trees with several .gitignore files whose patterns are derived from the paths of the tree (wildcards, classes, **, anchoring, directory-only, "
            "negation, escapes, comments, CRLF, trailing blanks) and with names that the default rules cover; the report must be the grouping of the files that a "
            "reference implementation of the gitignore rules keeps; non-trivial: a rule of a .gitignore file leaves out a file and some are left")
    n_quick, n_thorough = 9000, 90000

    def gen(self, rng, i, tier):
        contents = [[8, 1, []]] if rng.random() < 0.8 else [[8, 1, []], [8, 1, [[0, 1]]]]
        names = IG_NAMES if rng.random() < 0.8 else IG_NAMES + ["x.o", "y.pyc", "Thumbs.db", "z.swp", "w~", "build", "target", "node_modules", "B.O", "o", "xo"]
        dirs, nl = IG_DIRS, i % 12 == 5
        if nl:                          # names with line ends (JSON reports)
            names = ["n\nl", "a\n", "\nb", "a.txt\n", "x1\n.txt", "a", "x1", "a.txt", "c\r", "c", "ab"]
            dirs = IG_DIRS + ["d\ne", "foo\n"]
        elif i % 12 == 6:               # the default rules, and names that just miss them
            names = [y for x in DEFAULT_IGNORES for y in near_default(x.strip("/").replace("*", rng.choice(["x", "", "a.b", "."])))]
            dirs = names + IG_DIRS
            names = names + IG_NAMES
        elif i % 12 == 7:
            names = ["c\r", "c", "c\r\r", "L" * 200, "L" * 249 + "a", "L" * 250, "M" * 130, "a", "ab"]
            dirs = IG_DIRS + ["L" * 250, "M" * 200]
        tree = gen_tree(rng, nfiles=rng.choice([6, 14, 25, 40]), names=names, dirs=dirs, hidden=rng.choice([0, 0, 0.1]), contents=contents,
                        links=rng.choice([0, 0, 0.1]))
        many = i % 50 == 21
        deep = i % 50 == 22
        if deep:                # deep, with an ignore file on most levels
            d = ""
            for k in range(rng.choice([8, 20, 40])):
                d = (d + "/" if d else "") + rng.choice(["d", "e", "foo", "a"])
                tree["dirs"].append(d)
                tree["entries"] += [["f", "%s/%s%d" % (d, rng.choice(["a", "x", "b.txt"]), k % 3), 0], ["f", d + "/y", 0]]
            tree["entries"] = [e for j, e in enumerate(tree["entries"]) if e[1] not in [x[1] for x in tree["entries"][:j]]]
        rels = [e[1] for e in tree["entries"]] or ["a"]
        for d in tree["dirs"]:
            if rng.random() < (0.9 if d == "" else 0.8 if deep else 0.35):
                below = [r[len(d) + 1 if d else 0:] for r in rels if r.startswith(d + "/" if d else "")] or ["zz"]
                lines = []
                for _ in range(rng.choice([60, 300, 600, 1100]) if many else rng.choice([1, 1, 2, 3, 5, 9])):
                    q = rng.random()
                    if q < 0.06:
                        lines.append("# comment")
                    elif q < 0.1:
                        lines.append(rng.choice(["", "   ", "!", "/"]))
                    else:
                        p = gen_pattern(rng, below if rng.random() < 0.8 else rels)
                        if rng.random() < (0.3 if i % 12 == 7 else 0.01):
                            p = longer(rng, p)
                        if ok_pattern(p) and "\n" not in p:
                            lines.append(p)
                if deep and (d == "" or rng.random() < 0.05):       # rules for what is many levels below
                    lines.append(rng.choice(["y", "x0", "**/a1", "b.txt2", "!y", "a[02]", "x?"]))
                elif deep and rng.random() < 0.8:
                    lines = [rng.choice(["nothing", "# no rule", "/zz", "q/"])]
                eol = rng.choice(["\n", "\n", "\n", "\r\n"])
                data = eol.join(lines) + rng.choice([eol, eol, ""])
                tree["entries"].append(["b", (d + "/" if d else "") + ".gitignore", data.encode("utf-8", "surrogateescape").decode("latin-1")])
        o = {}
        for k, p in (("a", 0.4), ("f", 0.15), ("R", 0.05)):
            if rng.random() < p:
                o[k] = True
        if i % 12 == 6 and rng.random() < 0.8:
            o["a"] = True
        if nl:
            return {"tree": tree, "args": ["@abs"], "opts": dict(o, J=True), "asan": i % 8 == 0}
        return {"tree": tree, "args": gen_args(rng, tree, rng.choice(["root", "root", "slash", "dot", "abs", "parts"])), "opts": o, "asan": i % 8 == 0}

    def check(self, case, work):
        if case["opts"].get("J") and case["args"] != ["@abs"]:
            raise Invalid()
        for e in case["tree"]["entries"]:
            if e[0] == "b":
                for line in e[2].encode("latin-1").decode("utf-8", "surrogateescape").replace("\r\n", "\n").split("\n"):
                    if not ok_pattern(line):
                        raise Invalid()
        cwd, args = place(case, work)
        want, found, _ = expect_run(self, case, work, cwd, args, case["opts"])
        # without the .gitignore files
        n = len(found)
        for e in case["tree"]["entries"]:
            if e[0] == "b":
                os.unlink(os.path.join(enc(work), b"t", enc(e[1])))
        m = len([1 for p, _, _ in collect(cwd, args, Opts(case["opts"]))])
        return Result(n < m - (1 if case["opts"].get("a") else 0) and n >= 2, ["ignored"] if n < m else [])


# --------------------------------------------------------------------------- robustness

def rand_name(rng):
    n = rng.choice([1, 1, 2, 3, 5, 12, 60, 250])
    alpha = rng.choice([bytes(range(1, 256)), b"ab.*?[]!#\\/-~ ", b"\xff\xfe\xc3\x28a", b"\n\r\t\x1b %s%n'\"", b"aA.jpgJPG"])
    b = bytes(rng.choice(alpha) for _ in range(n)).replace(b"/", b"_").replace(b"\0", b"_")
    if b in (b".", b".."):
        b = b"x"
    return b.decode("utf-8", "surrogateescape")


def rand_ignore(rng):
    out = bytearray()
    for _ in range(rng.choice([1, 3, 10])):
        kind = rng.random()
        stars = 0
        line = bytearray()
        if kind < 0.4:
            alpha = b"ab.*?[]!#\\/-^ \t\r$(){}+|"
            for _ in range(rng.choice([0, 1, 3, 8, 20])):
                c = rng.choice(alpha)
                stars += c == 42
                line.append(c if c != 42 or stars < 5 else 97)
        elif kind < 0.6:
            line += bytes(rng.randrange(256) for _ in range(rng.choice([1, 5, 40]))).replace(b"*", b"x")
        elif kind < 0.8:
            unit = rng.choice([b"a", b"/", b"[", b"]", b"\\", b"?", b"(", b".", b"!", b"[a-", b"[!a]", b"**/", b" ", b"\xff", b"$", b"*", b"[]", b"*?", b"x*"])
            k = rng.choice([10, 100, 500, 1000, 1300, 4094, 4096, 5000])
            line += unit * (min(k, 6) if unit == b"**/" else max(1, k // len(unit)))
            if b"*" in unit and unit != b"**/":     # no name gets as far as the stars
                line = b"/no-such-name" + line[:400]
        else:
            line += rng.choice([b"!", b"/", b"//", b"!/", b"\\", b"[", b"[]", b"[!", b"[^]", b"[]-]", b"**", b"***", b"/**", b"**/", b"a/**/b", b"\\ ", b"!!", b"#", b"\xef\xbb\xbfa",
                               b"[[:alpha:]]", b"[z-a]", b"a\\", b"\0", b"a\0b"])
        out += line + rng.choice([b"\n", b"\n", b"\r\n", b"\r"])
    if rng.random() < 0.3 and out:
        del out[-1:]
    return out.decode("latin-1")


RAND_RX = ["", "(", ")", "[", "a**", "(?<n>a)\\k<n>", "\\", "(?i)X", "[[:alpha:]]+", "(a|b)*c", "x{2,1}", "(?#", "\\x{110000}", "^.*$", "(((((a)))))", "\\1", "(?P<q>.)(?P=q)", "\\Q*\\E", "\\C",
           ".{0,500}z", "(?=a)", "(?<=b)c", "é", "\\p{L}", "(*UTF8)a", "(?R)", "(?1)(a)", "a" * 300]
RAND_VAL = ["", "0", "1", "-1", "+1", " 1", "1K", "1k", "1 K", "1.5M", "0x10", "9223372036854775807", "9223372036854775808", "99999999999999999999999", "8E", "1e3", "nan", "inf", "K", "1KB",
            "1GiB", "-9223372036854775808", "256", "257", "16", "\u00e9", "1" * 100, "0.0000001", "1TT", "8388608T", "8388607T"]


class C07(CliProp):
    id = "C07"
    rule = ("trees with arbitrary byte names (control and non-UTF-8 bytes, 255-byte components, deep or overlong paths, links of all kinds), .gitignore files of arbitrary bytes, and "
            "arbitrary values for every option, run in a build with address and undefined-behaviour checks; ftwin must end with status 0, 1 or 255 and, when "
            "JSON output is asked for and it succeeds, print one JSON array whose groups have equal contents; non-trivial: it got past the options (status 0)")
    n_quick, n_thorough = 8000, 100000
    assumptions = ("gcc's address and undefined-behaviour sanitizers see the memory errors; alignment checks are off",)

    def gen(self, rng, i, tier):
        contents = gen_contents(rng, n=2, sizes=[0, 1, 5, 100])
        pool = [rand_name(rng) for _ in range(12)]
        tree = gen_tree(rng, nfiles=rng.choice([2, 6, 14]), names=pool, dirs=[rand_name(rng) for _ in range(5)], hidden=0.1, links=0.2, contents=contents)
        if rng.random() < 0.12:
            step = rng.choice(["d", "x" * 200, "é" * 60])
            tree["deep"] = [step, rng.choice([5, 30, 200]) if len(step) < 10 else rng.choice([5, 18, 22, 25])]
        for d in tree["dirs"]:
            if rng.random() < 0.5:
                tree["entries"].append(["b", (d + "/" if d else "") + ".gitignore", rand_ignore(rng)])
        opts = []
        if "deep" in tree and rng.random() < 0.4:      # groups in groups, once per character of a long path
            n = rng.choice([1, 2, 4, 8, 20])
            opts += [rng.choice(["-e", "-w"]), "^" + rng.choice(["(", "(?:"]) * n + rng.choice([".|\\n", "[^q]|q", "x|d|t|f|/"]) + ")" * n + rng.choice(["*$", "*zz", "+", "*?zz$"])]
        for _ in range(rng.choice([0, 1, 2, 4, 7])):
            k = rng.choice("acdnfoRrvJtJaf" if rng.random() < 0.6 else "mMxjeweiwpsT")
            if k in "acdnfoRrvJt":
                opts.append("-" + k)
            elif k in "ew":
                opts += ["-" + k, rng.choice(RAND_RX) if rng.random() < 0.7 else rand_name(rng)]
            elif k in "mMxj":
                v = rng.choice(RAND_VAL)
                if k == "j" and v in ("256",):
                    v = "64"
                opts += ["-" + k, v]
            elif k == "i":
                opts += ["-i", ",".join(rng.choice(pool) for _ in range(rng.choice([1, 2, 30]))) + rng.choice(["", ",", ",,,"])]
            elif k == "p":
                opts += ["-p", rng.choice(["t", "t/", "", "/", "t/" + rng.choice(pool), "x" * 5000])]
            elif k == "s":
                opts += ["-s", rng.choice(["", "\t", "%", "\udcff", "é", "ab"])]
            else:
                opts += ["-T", rng.choice(["1", "5", "0", "", "9"])]
        return {"tree": tree, "opts": opts, "args": rng.choice([["t"], ["t"], ["t/"], ["t", "t"], ["t/."], ["t", "missing"], ["", "t"], ["t//"], ["t/../t"]]),
                "asan": i % 4 != 3}

    def check(self, case, work):
        root = os.path.join(work, "t")
        os.mkdir(root)
        build_tree(root, case["tree"])
        deep = case["tree"].get("deep")
        for a in case["args"]:
            if a.startswith("/") or a.startswith(".."):
                raise Invalid()
        if deep:
            contained(deep[0] or "d")
            if "/" in deep[0]:
                raise Invalid()
            fds = [os.open(root, os.O_RDONLY)]
            try:
                for k in range(deep[1]):
                    os.mkdir(enc(deep[0]) or b"d", dir_fd=fds[-1])
                    fds.append(os.open(enc(deep[0]) or b"d", os.O_RDONLY, dir_fd=fds[-1]))
                    if k % 3 == 0:
                        f = os.open(b"f", os.O_WRONLY | os.O_CREAT, dir_fd=fds[-1])
                        os.write(f, b"deep")
                        os.close(f)
            except OSError:
                raise Invalid()
            finally:
                for f in fds:
                    os.close(f)
        if any("\0" in x for x in case["opts"] + case["args"]):
            raise Invalid()
        r = ftwin(self.binary(case), work, case["opts"], case["args"], timeout=60)
        if r.rc not in (0, 1, 255):
            raise Fail("exit %s: %r" % (r.rc, r.err[-300:]))
        if r.rc == 0 and "-J" in case["opts"]:
            try:
                js = json.loads(r.out.decode("utf-8"))
            except (ValueError, UnicodeDecodeError) as e:
                raise Fail("JSON report: %s: %r" % (e, r.out[:300]))
            for g in js:
                seen = set()
                for d in g["duplicates"]:
                    if "path" in d:           # see the known finding of C03
                        try:
                            with open(enc(d["path"]), "rb") as fh:
                                seen.add(fh.read())
                        except OSError as e:
                            raise Fail("reported path: %s" % e)
                if len(seen) > 1:
                    raise Fail("a group with different contents: %s" % [d.get("path") for d in g["duplicates"]])
        return Result(r.rc == 0, ["exit-%d" % r.rc] + (["json"] if "-J" in case["opts"] and r.rc == 0 else []))


# --------------------------------------------------------------------------- comparison and hashing of contents

CMP_SIZES = [1, 2, 3, 15, 16, 17, 127, 128, 129, 240, 241, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768,
             32769, 65535, 65536, 65537, 98304, 131071, 131072, 131073, 196608, 200001, 262143, 262144, 262145, 327680, 1000000]


class C08(CliProp):
    id = "C08"
    rule = ("pairs of files of the same size, equal or differing in one to three bits anywhere (first, last, and around every power-of-two boundary), compared and hashed through the "
            "public functions with limits that select memory mapping or buffered reading, with reads that are short or interrupted and maps that fail; equality must be exact in every mode, and the hash must be the XXH3-128 of the "
            "contents in every mode; a pair above 4 GiB (sparse) is included; non-trivial: a difference of a single bit")
    n_quick, n_thorough = 2500, 40000

    def setup(self, b):
        self.plain = b.link("filedrv08", ["filedrv.c", "fsfault.c"])
        self.asan = b.link("filedrv08", ["filedrv.c", "fsfault.c", "wrap_pool.c"], "asan", ldflags=__import__("pbt.core").core.WRAP_POOL)
        from .cli1 import xxh
        self.h = xxh()

    def gen(self, rng, i, tier):
        if i in (3, 4) or (tier == "thorough" and i % 4000 in (11, 12)):
            return {"huge": (1 << 32) + rng.choice([1, 70, 65536 + 9]), "at": rng.choice(["last", "wrap", "none"]) if i > 4 else "last", "mapped": i % 2 == 0, "asan": False}
        if i % 100 == 17:
            size = rng.choice([1 << 20, 4 << 20, 16 << 20, 32 << 20, 50 << 20, 64 << 20]) + rng.choice([-1, 0, 1, 77, rng.randrange(1 << 20)])
            where = [rng.choice([0, size - 1, size // 2, rng.randrange(size), rng.randrange(size), rng.randrange(64) * (size >> 6), (rng.randrange(1, 64) << 20) % size]) for _ in range(2)]
            return {"mid": size, "seed": rng.randrange(1 << 20), "diffs": sorted(set(where))[:rng.choice([0, 1, 1, 1, 2])], "ex": rng.sample([0, 65536, size, size + 1, 50 << 20, 1 << 40], 3),
                    "asan": False}
        size = rng.choice(CMP_SIZES) if rng.random() < 0.8 else rng.randrange(1, 300000)
        pairs = []
        for _ in range(rng.choice([2, 5])):
            diffs = []
            for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
                r = rng.random()
                if r < 0.25:
                    pos = rng.choice([0, size - 1])
                elif r < 0.7:
                    pos = (rng.choice([64, 128, 256, 1024, 4096, 8192, 16384, 32768, 65536]) * rng.randrange(1, 20) + rng.choice([-1, 0, 1])) % size
                else:
                    pos = rng.randrange(size)
                diffs.append([pos, 1 << rng.randrange(8)])
            ex = rng.sample([0, 1, size - 1, size, size + 1, size + 4096, 65536, 1 << 31, 1 << 40], 3)
            pairs.append([diffs, ex])
        faults = []
        if rng.random() < 0.4:
            for _ in range(rng.choice([1, 1, 2])):
                faults.append(rng.choice([["short", rng.choice([n for n in (1, 7, 100, 1000, 4095, 4096, 65535) if n > size // 3000]), 0, "*"], ["eintr", rng.choice([2, 3, 5]), 0, "*"],
                                          ["mmap", errno.ENOMEM, 0, "*"], ["once-mmap", errno.ENODEV, rng.randint(1, 6), "*"]]))
        return {"size": size, "seed": rng.randrange(50), "pairs": pairs, "faults": faults, "asan": i % 5 == 0}

    def check(self, case, work):
        drv = self.asan if case.get("asan") else self.plain
        if case.get("huge"):
            return self.huge(case, work, drv)
        if case.get("mid"):
            return self.mid(case, work, drv)
        size = case["size"]
        if size < 1:
            raise Invalid()
        base = content([size, case["seed"], []])
        script, expect = [], []
        with open(work + "/a", "wb") as fh:
            fh.write(base)
        single = False
        for k, (diffs, exs) in enumerate(case["pairs"]):
            b = bytearray(base)
            for pos, x in diffs:
                if not 0 <= pos < size or not 0 < x < 256:
                    raise Invalid()
                b[pos] ^= x
            b = bytes(b)
            with open("%s/b%d" % (work, k), "wb") as fh:
                fh.write(b)
            single |= sum(bin(x ^ y).count("1") for x, y in zip(b, base)) == 1 if len(diffs) == 1 else False
            for e in exs:
                if e < 0:
                    raise Invalid()
                script.append("c %d %d %s/a %s/b%d" % (size, e, work, work, k))
                expect.append(("0 %d" % (b != base), "comparison, limit %d, differences %s" % (e, diffs)))
                script.append("s %d %d %s/b%d" % (size, e, work, k))
                expect.append(("0 " + self.h(b) if self.h else None, "hash, limit %d" % e))
        env = None
        if case.get("faults"):
            for f in case["faults"]:
                if f[0] not in ("short", "eintr", "mmap", "once-mmap") or f[1] < 1 or f[0] == "eintr" and f[1] < 2:
                    raise Invalid()
            env = base_env({"FSFAULT": "\n".join(["watch 0 0 %s/a" % work] + ["%s %d %d %s" % tuple(f) for f in case["faults"]]) + "\n"})
        r = run([drv], ("\n".join(script) + "\n").encode(), cwd=work, timeout=60, env=env)
        if r.crashed() or r.rc != 0:
            raise Fail("the driver: %s" % (r.crashed() or "exit %d" % r.rc))
        lines = r.out.decode().split("\n")[:-1]
        if len(lines) != len(expect):
            raise Fail("%d answers to %d operations" % (len(lines), len(expect)))
        byfile = {}
        for op, line, (want, what) in zip(script, lines, expect):
            if want is None:
                want = byfile.setdefault(op.split()[-1], line)
            if line != want:
                raise Fail("size %d: %s: %r instead of %r" % (size, what, line, want))
        tags = [t for t, c in (("mapped", any(size < e for _, ex in case["pairs"] for e in ex)), ("buffered", any(size >= e for _, ex in case["pairs"] for e in ex))) if c]
        return Result(single, tags + sorted({f[0] for f in case.get("faults", [])}), len(script))

    def mid(self, case, work, drv):
        """Files of megabytes: mostly holes, with a few bytes here and there."""
        size = case["mid"]
        if not 1 <= size <= 80 << 20 or any(not 0 <= p < size for p in case["diffs"]):
            raise Invalid()
        rng = random.Random(case["seed"])
        a = bytearray(size)
        for _ in range(50):
            a[rng.randrange(size)] = rng.randrange(256)
        b = bytearray(a)
        for p in case["diffs"]:
            b[p] ^= 1 << rng.randrange(8)
        for n, data in (("a", a), ("b", b)):
            with open(work + "/" + n, "wb") as fh:
                fh.write(data)
        script = ["%s %d %d %s" % (k, size, e, f) for e in case["ex"] for k, f in (("c", "a b"), ("s", "a"), ("s", "b"))]
        r = run([drv], ("\n".join(script) + "\n").encode(), cwd=work, timeout=120)
        if r.crashed() or r.rc != 0:
            raise Fail("the driver: %s" % (r.crashed() or "exit %d" % r.rc))
        lines = r.out.decode().split("\n")[:-1]
        ha, hb = (self.h(bytes(x)) if self.h else None for x in (a, b))
        want = ["0 %d" % (a != b), "0 %s" % ha, "0 %s" % hb] * len(case["ex"])
        for op, line, w in zip(script, lines, want):
            if line != w and "None" not in w:
                raise Fail("%s (differences at %s): %r instead of %r" % (op, case["diffs"], line, w))
        if len(lines) != len(script):
            raise Fail("%d answers to %d operations" % (len(lines), len(script)))
        return Result(len(case["diffs"]) == 1, ["megabytes"], len(script))

    def huge(self, case, work, drv):
        size = case["huge"]
        if size < 2 or size > 5 << 30:
            raise Invalid()
        for n in "ab":
            with open(work + "/" + n, "wb") as fh:
                fh.truncate(size)
        diff = case["at"] != "none"
        if diff:
            with open(work + "/b", "r+b") as fh:
                fh.seek(size - 1 if case["at"] == "last" else min(1 << 32, size - 1))
                fh.write(b"x")
        lim = size + 1 if case.get("mapped") else 0
        r = run([drv], ("c %d %d a b\ns %d %d a\n" % (size, lim, size, lim)).encode(), cwd=work, timeout=300, env=base_env({"FSFAULT": "watch 0 0 %s/a\nsparse-map 0 0 *\n" % work}))
        if r.timeout:
            raise Invalid()
        out = r.out.split(b"\n")
        mode = "mapped" if lim else "buffered"
        if out[0] != b"0 %d" % diff:
            raise Fail("files of %d bytes, %s, difference %s: %r %s" % (size, mode, case["at"], r.out, r.crashed() or ""))
        if self.h:
            want = b"0 " + self.h(bytes(1 << 20), size >> 20, bytes(size & ((1 << 20) - 1))).encode()
            if out[1] != want:
                raise Fail("hash of %d zero bytes, %s: %r instead of %r" % (size, mode, out[1], want))
        return Result(diff, ["above 4 GiB " + mode])


# --------------------------------------------------------------------------- options

LONG = {"a": "hidden", "c": "case-unsensitive", "d": "display-size", "n": "dry-run", "e": "regex-ignore-file", "f": "follow-symlink", "i": "ignore-list", "m": "minimal-length",
        "M": "max-size", "o": "optimize-memory", "p": "priority-path", "r": "recurse-subdir", "R": "no-recurse", "s": "separator", "t": "tar-cmp", "j": "threads", "v": "verbose",
        "w": "whitelist-regex-file", "x": "excessive-size", "T": "image-threshold", "h": "help", "V": "version", "J": "json", "I": "image-cmp"}


def spell(rng, items):
    """A command line for [(letter, value or None)], in a random spelling."""
    out = []
    flags = ""
    for k, v in items:
        style = rng.random()
        if v is None:
            if style < 0.35:
                flags += k
                continue
            if flags:
                out.append("-" + flags)
                flags = ""
            out.append("--" + LONG[k] if style < 0.7 else "-" + k)
        elif style < 0.25:
            out += ["-" + flags + k, v]
            flags = ""
        elif style < 0.5 and v:
            out.append("-" + flags + k + v)
            flags = ""
        else:
            if flags:
                out.append("-" + flags)
                flags = ""
            out += ["--" + LONG[k] + "=" + v] if style < 0.75 else ["--" + LONG[k], v]
    if flags:
        out.append("-" + flags)
    return out


BAD = [["-m", "abc"], ["-m", "-1"], ["-M", "K"], ["-x", "x"], ["-m", ""], ["-j", "0"], ["-j", "257"], ["-j", "5x"], ["-j", "-3"], ["-j", "abc"], ["-T", "9"], ["-T", "0"], ["-T", "x"], ["-T", "+1"], ["-T", " 1"], ["-T", "-1"], ["-T", "a1"], ["-T", ""], ["-j", ""],
       ["-j", "5 "], ["-j", "0x5"], ["-j", "1e1"], ["-j", "4.0"], ["-j", "3,"], ["-j", "2K"], ["-j", "--4"], ["-m", "5Q"], ["-M", "5x"], ["-x", "1,5"], ["-m", "K5"], ["--image-threshold=6"],
       ["-Z"], ["--nope"], ["--hidde"], ["--minimal-lengt=3"], ["-aZ"], ["--max-size=99999999999T"], ["--threads=1000"], ["-M", "9223372036854775808"]]
BAD_RX = ["(", "[", "*a", "a(b", "(?<x", "a{2,1}", "\\"]


def bad_number(rng):
    """An option with a number that is no valid value of it, among them some that are one modulo a power of two."""
    k = rng.choice("jjmMx")
    r = rng.choice([1, 2, 8, 255, rng.randrange(1, 1 << 16)])
    big = rng.choice([1 << 16, 1 << 31, 1 << 32, 1 << 33, 1 << 63, 1 << 64, 10 ** 20, 10 ** 40]) if k == "j" else rng.choice([1 << 63, 1 << 64, 10 ** 20, 10 ** 40])
    v = rng.choice(["%d" % (big + r), "%d" % (big + r), "-%d" % r, "-%d" % (big - r)] + ([] if k == "j" else ["%dT" % ((1 << 43) + r), "%dK" % ((1 << 54) + r)]))
    return rng.choice([["-" + k, v], ["-" + k + v], ["--%s=%s" % (LONG[k], v)]])


def is_bad(opt):
    if opt in BAD:
        return True
    try:
        long = {v: k for k, v in LONG.items()}
        if len(opt) == 2:
            k, v = opt[0][1:], opt[1]
        elif opt[0].startswith("--"):
            k, v = opt[0][2:].split("=", 1)
            k = long[k]
        else:
            k, v = opt[0][1], opt[0][2:]
        m = re.fullmatch(r"(-?[0-9]{1,60})([KT]?)", v)
        n = int(m.group(1)) * {"": 1, "K": 1024, "T": 1 << 40}[m.group(2)]
        return n < 0 or n >= 1 << 63 if k in ("m", "M", "x") else k == "j" and not m.group(2) and not 1 <= n <= 256
    except (AttributeError, KeyError, ValueError, IndexError, TypeError):
        return False


class C10(CliProp):
    id = "C10"
    rule = ("random option sets, repeated with other values, spelled as short, joined, attached, long and long-with-equals forms, with or without the -- marker; the report must be what the "
            "model gives for the last value of each option; invalid values, unknown options and regexes that do not compile must give a nonzero status and no report, help and version "
            "status 0 and no report, whichever comes first; non-trivial: a group is reported and an option changed the result, or a refusal after other options")
    n_quick, n_thorough = 9000, 72000

    def gen(self, rng, i, tier):
        tree = gen_tree(rng, nfiles=rng.choice([3, 8, 14, 25]), hidden=rng.choice([0, 0.2]), links=rng.choice([0, 0.15]), contents=gen_contents(rng, n=rng.choice([1, 2, 3])))
        from .cli1 import RX
        items = []
        sizes = [c[0] for c in tree["contents"]]
        for _ in range(rng.choice([1, 2, 4, 7])):
            k = rng.choice("acdnforRvtmMexwipsjTJ")
            if k in "acdnforRvtJ":
                items.append([k, None])
            elif k in "mM":
                n = max(0, rng.choice(sizes) + rng.choice([-1, 0, 1]))
                items.append([k, rng.choice([str(n), str(n), str(n) + "B", "1K", "0", "1KB", "2k"])])
            elif k == "x":
                items.append([k, rng.choice(["0", "100", "64K", "1M", "1G"])])
            elif k in "ew":
                items.append([k, rng.choice(RX)])
            elif k == "i":
                items.append([k, ",".join(x for x in [os.path.basename(rng.choice(tree["entries"])[1]) if tree["entries"] else "zz" for _ in range(rng.choice([1, 2]))] if "," not in x) or "zz"])
            elif k == "p":
                items.append([k, "t/" + rng.choice(tree["dirs"])])
            elif k == "s":
                items.append([k, rng.choice(["|", ":", ";", "\t", "#", "="])])
            elif k == "j":
                items.append([k, str(rng.choice([1, 2, 9, 256]))])
            else:
                items.append([k, rng.choice("12345")])
        end = None
        r = rng.random()
        if r < 0.2:
            end = ["bad", rng.choice([rng.choice(BAD), bad_number(rng)]), rng.randrange(len(items) + 1)]
        elif r < 0.26:
            end = ["info", rng.choice([["-h"], ["--help"], ["-V"], ["--version"]]), rng.randrange(len(items) + 1)]
        elif r < 0.32:
            items = [x for x in items if x[0] not in "ew"]
            end = ["rx", [rng.choice(["-e", "-w", "--regex-ignore-file"]), rng.choice(BAD_RX)], len(items)]
        elif r < 0.35:
            end = ["both", [rng.choice(BAD), rng.choice([["-h"], ["--version"]])], rng.randrange(2)]
        elif r < 0.38:
            end = ["nofile", None, 0]
        elif r < 0.41:
            end = ["noarg", rng.choice(["-m", "-e", "--threads", "-s", "--ignore-list", "-am"]), 0]
        elif r < 0.45:
            end = ["missing", rng.choice(["gone", "t/no such file", "gone/deep/er", "./gone", "t/../gone", "gone/"]), rng.randrange(2)]
        return {"tree": tree, "items": items, "spell": rng.randrange(1 << 30), "end": end, "marker": rng.random() < 0.4, "asan": i % 8 == 0}

    def check(self, case, work):
        rng = random.Random(case["spell"])
        items = [(k, v) for k, v in case["items"]]
        for k, v in items:
            if k not in LONG or k in "hVI" or (v is None) != (k in "acdnforRvtJ"):
                raise Invalid()
            if v is not None and (not v or (k in "j" and not (v.isdigit() and 1 <= int(v) <= 256)) or (k == "T" and v not in "12345") or (k in "mMx" and not re.fullmatch(r"[0-9]+([KkMG]B?|B)?", v)) or
                                  (k == "i" and any(not x for x in v.split(",")))):
                raise Invalid()
        args = ["t"]
        end = case["end"]
        b = self.binary(case)
        root = os.path.join(work, "t")
        os.mkdir(root)
        build_tree(root, case["tree"])

        def refused(argv, codes, what):
            r = ftwin(b, work, argv, [])
            if r.rc not in codes:
                raise Fail("%s: %s: exit %s" % (what, argv, r.rc))
            for line in r.out.split(b"\n"):
                if line.startswith((b"t/", b"Size: ", b"[")) or b'"path"' in line:
                    raise Fail("%s: %s: a report was printed: %r" % (what, argv, line[:200]))
            if 0 not in codes and not (r.out + r.err).strip():
                raise Fail("%s: %s: refused without a word" % (what, argv))
            return r
        if end:
            kind = end[0]
            if (kind == "bad" and not is_bad(end[1]) or kind == "info" and end[1] not in (["-h"], ["--help"], ["-V"], ["--version"]) or
                    kind == "rx" and (end[1][0] not in ("-e", "-w", "--regex-ignore-file") or end[1][1] not in BAD_RX or end[2] != len(items)) or
                    kind == "both" and (not is_bad(end[1][0]) or end[1][1] not in (["-h"], ["--version"])) or
                    kind == "noarg" and end[1] not in ("-m", "-e", "--threads", "-s", "--ignore-list", "-am")):
                raise Invalid()
            if kind in ("bad", "info", "rx"):
                cut = end[2] if isinstance(end[2], int) else 0
                pre, post = spell(rng, items[:cut]), spell(rng, items[cut:])
                r = refused(pre + list(end[1]) + post + ["t"], (0,) if kind == "info" else tuple(range(1, 256)), kind)
                if kind == "info" and not r.out.strip():
                    raise Fail("%s printed nothing" % end[1])
                if kind == "info" and end[1] in (["-h"], ["--help"]):
                    for n in LONG.values():
                        if b"--" + n.encode() not in r.out:
                            raise Fail("%s does not mention --%s" % (end[1], n))
            elif kind == "both":
                bad, info = end[1]
                seq = [bad, info] if end[2] == 0 else [info, bad]
                refused(spell(rng, items) + seq[0] + seq[1] + ["t"], tuple(range(1, 256)) if end[2] == 0 else (0,), "the first of %s" % seq)
            elif kind == "nofile":
                refused(spell(rng, items), tuple(range(1, 256)), "no file given")
            elif kind == "noarg":
                refused(spell(rng, items) + [end[1]], tuple(range(1, 256)), "missing argument")
            elif kind == "missing":
                if not re.fullmatch(r"[a-z ./]+", end[1]) or os.path.exists(os.path.join(work, end[1])):
                    raise Invalid()
                refused(spell(rng, items) + (["t", end[1]] if end[2] else [end[1], "t"]), tuple(range(1, 256)), "an argument that does not exist")
            else:
                raise Invalid()
            return Result(len(items) >= 1, [kind])
        opts = {}
        for k, v in items:
            if k in "rR":
                opts["R"] = k == "R"
            elif k == "i":
                opts.setdefault("i", []).extend(v.split(","))
            elif k in "mM":
                m = re.fullmatch(r"([0-9]+)([A-Za-z]*)", v)
                opts[k] = int(m.group(1)) * {"": 1, "B": 1, "K": 1024, "KB": 1024, "M": 1 << 20, "MB": 1 << 20, "G": 1 << 30, "GB": 1 << 30}[m.group(2).upper()]
            else:
                opts[k] = True if v is None else v
        o = Opts(opts)
        top = [enc(root) if opts.get("J") else b"t"]
        found = collect(work, top, o)
        argv = spell(rng, items) + (["--"] if case["marker"] else [])
        r = ftwin(b, work, argv, args)
        if not found:
            if r.rc == 0 or r.out:
                raise Fail("%s: no file to consider, but exit %s and output %r" % (argv, r.rc, r.out[:200]))
            return Result(False, ["nothing"])
        if r.rc != 0:
            raise Fail("%s: exit %s: %r" % (argv, r.rc, r.err[-300:]))
        sep = enc(opts["s"])[:1] if opts.get("s") else b"\n"
        if opts.get("J"):
            groups = [(b"Size: ", g) for g in parse_json(r.out)]
        elif any(sep in p for p, _, _ in found):
            raise Invalid()
        else:
            groups = parse_text(r.out, sep, opts.get("d", False))
        want = canon(g for _, g in group(found))
        compare_groups(canon(p for _, p in groups), want, " ".join(argv))
        if opts.get("d") and not all(s and s.startswith(b"Size: ") for s, _ in groups):
            raise Fail("%s: no size line" % argv)
        if o.p and not opts.get("J"):
            for _, ps in groups:
                fl = [p.lower().startswith(o.p.lower()) if o.icase else p.startswith(o.p) for p in ps]
                if fl != sorted(fl, reverse=True):
                    raise Fail("%s: files under the priority path are not first: %r" % (argv, ps))
        plain = canon(g for _, g in group(collect(work, top, Opts({}))))
        return Result(bool(want) and (plain != want or bool(opts.get("J")) or sep != b"\n" or bool(o.p) or bool(opts.get("d"))), ["report"])


# --------------------------------------------------------------------------- no side effects

def snapshot(root):
    out = {}
    rb = enc(root)
    for d, dirs, files in os.walk(rb):
        for n in [b""] + dirs + files:
            p = os.path.join(d, n) if n else d
            st = os.lstat(p)
            body = None
            if stat.S_ISREG(st.st_mode):
                with open(p, "rb") as fh:
                    body = hash(fh.read())
            elif stat.S_ISLNK(st.st_mode):
                body = os.readlink(p)
            out[p[len(rb):]] = (st.st_mode, st.st_uid, st.st_gid, st.st_ino, st.st_nlink, st.st_size, st.st_mtime_ns, st.st_ctime_ns, body)
    return out


class C11(CliProp):
    id = "C11"
    rule = ("random trees, options of every kind (text, JSON, image mode, archives, dry run, verbose, refused options) and working, home and temporary directories inside a scratch area; names, types, "
            "modes, owners, contents, inode numbers, modification and change times of everything in it must be the same before and after, and no file created "
            "elsewhere may remain; non-trivial: ftwin ended normally with a report")
    n_quick, n_thorough = 6000, 48000

    def setup(self, b):
        self.bin = b.link("ftwinf", ["fsfault.c"], "plain", main=True)

    def gen(self, rng, i, tier):
        tree = gen_tree(rng, hidden=rng.choice([0, 0.1]), links=rng.choice([0, 0.15]), names=["a", "b", "c.jpg", "d.png", "e.tar", "f.zip", "g.txt", "x", "y", "z.tar.gz"],
                        contents=gen_contents(rng, n=rng.choice([1, 2, 3]), sizes=[0, 1, 10, 100, 4096, 70000]))
        for d in tree["dirs"]:
            if rng.random() < 0.15:
                tree["entries"].append(["b", (d + "/" if d else "") + ".gitignore", rng.choice(["zz", "zz\n", "*.tmp\r\nq/", "", "\n", "# c\n\n!b", "c.jpg\n", " x \n\n\n"])])
        opts = []
        for _ in range(rng.choice([0, 1, 2, 4])):
            opts += rng.choice([["-J"], ["-n"], ["-v"], ["-a"], ["-f"], ["-d"], ["-o"], ["-t"], ["-I"], ["-c"], ["-R"], ["-x", "0"], ["-j", "3"], ["-m", "1"], ["-M", "1K"], ["-e", "a$"],
                                ["-p", "t/d1"], ["-s", ":"], ["-t", "-v"], ["-I", "-T", "5"]])
        if rng.random() < 0.06:
            opts.append(rng.choice(["-h", "-V", "--nope"]))
        return {"tree": tree, "opts": opts, "args": gen_args(rng, tree), "modes": rng.choice([None, None, 0o444, 0o640, 0o600])}

    def check(self, case, work):
        import time
        area = work + "/area"
        for d in ("", "/home", "/tmp"):
            os.mkdir(area + d)
        cwd, args = place(case, area)
        if case["modes"]:
            for e in case["tree"]["entries"]:
                if e[0] == "f":
                    os.chmod(os.path.join(enc(area), b"t", enc(e[1])), case["modes"])
        time.sleep(0.012)                 # file times have a coarse clock
        before = snapshot(area)
        log = work + "/log"
        r = ftwin(self.bin, cwd, case["opts"], args, env=base_env({"HOME": area + "/home", "TMPDIR": area + "/tmp", "FSLOG": log}))
        after = snapshot(area)
        if before != after:
            diff = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
            raise Fail("ftwin %s changed %s: %s -> %s" % (" ".join(case["opts"]), [x.decode("utf-8", "replace") for x in diff[:4]], before.get(diff[0]), after.get(diff[0])))
        try:
            with open(log, "rb") as fh:
                touched = [x.split(b" ", 1)[1] for x in fh.read().split(b"\n") if b" " in x]
        except OSError:
            touched = []
        for p in touched:
            if not p.startswith((b"/dev/", b"/proc/")) and os.path.lexists(p):
                raise Fail("ftwin %s created or changed %r" % (" ".join(case["opts"]), p))
        return Result(r.rc == 0 and len(r.out) > 3, ["exit-%s" % r.rc])


PROPS = [C06, C07, C08, C10, C11]
