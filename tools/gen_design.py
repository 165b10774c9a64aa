"""Writes DESIGN.md: the text below, the bounds and assumptions the harnesses
declare, the planted bugs with what catches them, and the findings."""
import ast
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = open(os.path.join(ROOT, "tools", "design_head.md")).read()
TAIL = open(os.path.join(ROOT, "tools", "design_tail.md")).read()

HOW = {}
text = open(os.path.join(ROOT, "tools", "design_properties.md")).read()
for part in text.split("\n## ")[1:]:
    ident, body = part.split("\n", 1)
    HOW[ident.strip()] = body.strip()


def declared(ident):
    path = os.path.join(ROOT, "harness", ident.lower() + ".py")
    found = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and \
                getattr(node.targets[0], "id", None) in ("BOUNDS", "ASSUMES"):
            found[node.targets[0].id] = ast.literal_eval(node.value)
    return found.get("BOUNDS", ""), found.get("ASSUMES", [])


def main():
    out = [HEAD.rstrip(), "", "## The properties, one by one", ""]
    for l in open(os.path.join(ROOT, "properties.jsonl")):
        p = json.loads(l)
        bounds, assumes = declared(p["id"])
        out += ["### %s %s" % (p["id"], p["title"]), "", HOW[p["id"]], "",
                "*Bounds*: %s." % bounds, ""]
        if assumes:
            out += ["*Assumes*: %s." % "; ".join(assumes), ""]
    out += ["## Planted bugs and what catches them", "",
            "Every one is in `seeded/<id>/` with a demonstration; each is "
            "caught by the check of its own property (exit 1, a VIOLATION "
            "line with a counterexample that the real code confirmed).", "",
            "| bug | caught by | what it breaks | what it needs |",
            "|---|---|---|---|"]
    for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*"))):
        m = json.load(open(os.path.join(d, "meta.json")))
        out.append("| %s | %s | %s | %s |" % (
            os.path.basename(d), m["property"],
            m["what_it_breaks"].replace("|", "\\|"),
            m["needs"].replace("|", "\\|")))
    out += ["", "## Defects found in txstatsd", "",
            "All were reported by a check with a counterexample the real code "
            "confirmed, and each was repaired by one `fix:` commit; the check "
            "reports it again on the tree before the commit.", ""]
    for f in json.load(open(os.path.join(ROOT, "known_findings.json")))["fixed"]:
        out.append("- " + f.replace("fixed: property=", "").replace("|", "\\|"))
    out += ["", TAIL.rstrip(), ""]
    open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))


main()
