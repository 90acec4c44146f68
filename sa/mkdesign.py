"""Assemble DESIGN.md from design_head.md, the registry, the rules the checks report (evidence/) and seeded/."""
import json
import os

from . import props

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    out = [open(os.path.join(ROOT, "design_head.md")).read().rstrip(), "", "## Properties", ""]
    for p in sorted(props.PROPS, key=lambda p: p["id"]):
        ev = os.path.join(ROOT, "evidence", p["id"] + ".json")
        if not os.path.exists(ev):
            continue
        e = json.load(open(ev))["coverage"]
        out += [f"### {p['id']} {p['title']}", "", p["statement"], "", f"*Technique*: {p['technique']}.", "", "*Rules applied to every abstract path:*", ""]
        out += [f"- {r}" for r in e["rules"]]
        out += ["", f"*Scope*: {p['text']} On the current tree: {e['functions_analysed']} functions, {e['abstract_paths']} abstract paths, {e['obligations']} obligations. "
                f"Bounds and trust: {p['note']}", "", f"*Why tests cannot settle it*: {p['why']}", ""]
    out += ["## Not applicable to static analysis", ""]
    for p in props.NOT_APPLICABLE:
        out += [f"- **{p['id']} {p['title']}**: {p['reason']}"]
    out += ["", "## Defects found in hamilton", ""]
    for k in json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]:
        out += ["- " + (k["entry"] if k["status"] == "fixed" else f"known: property={k['property']} `{k['key']}`: {k.get('what', k.get('entry', ''))}")]
    out += ["", "## Planted bugs", "", "In seeded/ (run by vcheck) and seeded_more/ (the same format; kept apart so that a full vcheck stays short).", "", "| bug | property | needs | caught by |", "|---|---|---|---|"]
    res = {}
    f = os.path.join(ROOT, "seeded_results.json")
    if os.path.exists(f):
        res = json.load(open(f))
    where = {s: d for d in ("seeded", "seeded_more") if os.path.isdir(os.path.join(ROOT, d)) for s in os.listdir(os.path.join(ROOT, d))}
    for s in sorted(where):
        m = json.load(open(os.path.join(ROOT, where[s], s, "meta.json")))
        out += [f"| {s} | {m['property']} | {m['needs']} | {res.get(s, '?')} |"]
    out += [open(os.path.join(ROOT, "design_tail.md")).read().rstrip(), ""]
    with open(os.path.join(ROOT, "DESIGN.md"), "w") as fh:
        fh.write("\n".join(out))
    print("DESIGN.md", len(out), "lines")


if __name__ == "__main__":
    main()
