"""Rewrites the table of planted bugs at the end of DESIGN.md (not used by any check)."""
import json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = {"c06-question-slash", "c08-short-read-ends", "c12-second-map", "c24-nul-path", "c27-first-bad"}
extra = os.path.join(here, "tools", "missed.txt")
if os.path.exists(extra):
    missed |= set(open(extra).read().split())
rows = ["<!-- seeds -->", "| change | what it breaks | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    n = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    rows.append("| %s | %s | %s | %s quick%s |" % (n, m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), m["property"], " (missed at first)" if n in missed else ""))
p = os.path.join(here, "DESIGN.md"); t = open(p).read()
i = t.find("SEEDTABLE") if "SEEDTABLE" in t else t.find("<!-- seeds -->")
open(p, "w").write(t[:i] + "\n".join(rows) + "\n")
