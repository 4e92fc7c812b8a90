#!/usr/bin/env python3
"""Rewrites section 7 of DESIGN.md (bounds per harness) from the harness sources, and section 6 (seeded bugs) from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
docs = {}
for f in sorted(glob.glob(V + "/harness/*/*.go")):
    for m in re.finditer(r"((?://[^\n]*\n)+)func (Verif_(C\d\d)_\w+)\(\)", open(f).read()):
        d = " ".join(l[2:].strip() for l in m.group(1).strip().split("\n"))
        docs.setdefault(m.group(3), []).append("* `%s` (%s): %s" % (m.group(2)[6:], os.path.relpath(f, V), re.sub(r"^Verif_\w+:? ?", "", d)))
out = ["## 7. Harnesses and bounds", ""]
for k in sorted(docs):
    out += ["### " + k, ""] + docs[k] + [""]
res = {}
p = V + "/tools/seed_results.json"
if os.path.exists(p):
    res = json.load(open(p))
seeds = ["## 6. Planted bugs", "", "`seeded/<id>`: patch, demonstration and what it needs to manifest; the last column is the verdict of the quick check of its property on the tree with the patch.", "",
         "| id | property | what it breaks | caught |", "|-|-|-|-|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    seeds.append("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "\\|"), res.get(i, "?")))
txt = open(V + "/DESIGN.md").read().split("## 6. Planted bugs")[0].rstrip() + "\n\n"
open(V + "/DESIGN.md", "w").write(txt + "\n".join(seeds) + "\n\n" + "\n".join(out))
