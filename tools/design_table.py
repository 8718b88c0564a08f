#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = set("""fetched-ordered-key-skips-expiry statistics-range-stops-at-duplicate callback-taken-from-caller
access-callback-taken-from-caller rvalue-assign-copies wrap-placeholder stats-constructor-resets-monitored""".split())
by = {}
for d in sorted(os.listdir(here + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (here, d)))
    by.setdefault(m["property"], []).append(d + ("*" if d in missed else ""))
t = "<!-- table -->\n| property | planted bugs |\n|---|---|\n" + "".join("| %s | %s |\n" % (p, ", ".join(by[p])) for p in sorted(by)) + "<!-- end -->"
p = here + "/DESIGN.md"
s = open(p).read()
s = s.replace("@@TABLE@@", "<!-- table --><!-- end -->")
s = re.sub(r"<!-- table -->.*?<!-- end -->", lambda m: t, s, flags=re.S)
open(p, "w").write(s)
