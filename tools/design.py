#!/usr/bin/env python3
"""Puts DESIGN.md together (see its head)."""
import ast, glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from props import PROPS
from claims import CLAIMS, NA


def main():
    out = [open(V + "/tools/design_head.md").read()]
    for p in PROPS:
        i = p["id"]
        out.append("### %s %s\n" % (i, p["title"]))
        if i not in CLAIMS:
            out.append("Not claimed: %s\n" % NA.get(i, "work in progress."))
            continue
        f = glob.glob(V + "/checks/%s_*.py" % i.lower())[0]
        d = (ast.get_docstring(ast.parse(open(f).read())) or "").split("\n")
        d[0] = d[0][d[0].find(":") + 1:].strip() if d[0].startswith(i) else d[0]
        d = "\n".join(x.rstrip() for x in d).strip()
        tech, note = CLAIMS[i]
        out.append("*%s.* %s\n" % (os.path.basename(f), d[:1].upper() + d[1:]))
        out.append("Method: %s. %s\n" % (tech.rstrip("."), note))
        ev = "%s/tools/counts.json" % V
        c = json.load(open(ev)).get(i) if os.path.exists(ev) else None
        if c:
            out.append("Quick: %s states, %s transitions, about %d s. %s\n" % (f"{c['states']:,}", f"{c['transitions']:,}", c["wall"],
                       ("Families: " + ", ".join("%s %s" % (k, f"{v:,}") for k, v in c["fam"].items()) + ".") if c["fam"] else ""))
    rows = ["| change | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
    caught = json.load(open(V + "/tools/caught.json"))
    for f in sorted(glob.glob(V + "/seeded/*/meta.json")) + sorted(glob.glob(V + "/seeded_pl/*/meta.json")):
        m = json.load(open(f))
        n = f.split("/")[-2]
        rows.append("| %s | %s | %s | %s | %s |" % (n, m["property"], m["needs"], m["what_it_breaks"], caught.get(n, "?")))
    out.append(open(V + "/tools/design_tail.md").read().replace("@@PLANTS@@", "\n".join(rows)))
    open(V + "/DESIGN.md", "w").write("\n".join(out))


def counts():
    r = {}
    for f in sorted(glob.glob(V + "/evidence/*.json")):
        e = json.load(open(f))
        if e.get("tier") != "quick":
            continue
        c = e["coverage"]
        fam = {}
        for k in ("cases_by_family", "programs_by_family", "units_by_family", "lines_by_family"):
            fam.update(c.get(k) or {})
        r[e["property"]] = {"states": c["states"], "transitions": c["transitions"], "wall": round(e["wall_s"]), "fam": fam}
    json.dump(r, open(V + "/tools/counts.json", "w"), indent=1, sort_keys=True)


if __name__ == "__main__":
    if "-c" in sys.argv:
        counts()
    main()
