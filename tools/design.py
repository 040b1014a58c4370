"""Write DESIGN.md from tools/design_body.md, tools/design_props.json, the modules, KNOWN_FINDINGS.txt and seeded/"""
import ast, glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
notes = json.load(open(R + "/tools/design_props.json"))
out = [open(R + "/tools/design_body.md").read(), "## Properties\n"]
for p in props:
    d = {}
    for n in ast.parse(open("{}/mc/props/{}.py".format(R, p["id"].lower())).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("LEVEL", "TECHNIQUE", "RULE", "ASSUMPTIONS"):
            d[n.targets[0].id] = ast.literal_eval(n.value)
    n = notes[p["id"]]
    out.append("### {} {}\n".format(p["id"], p["title"]))
    out.append("- *Method* ({}): {}.\n- *Space*: {}.\n- *Oracle*: {}\n- *Why beyond tests*: {}\n- *Assumptions, bounds*: {}.\n- *Cost* (8 cores): quick {}, thorough {}.\n".format(
        d["LEVEL"], d["TECHNIQUE"], d["RULE"], n["oracle"], n["why"], "; ".join(d["ASSUMPTIONS"]), n["quick"], n["thorough"]))
out.append(open(R + "/tools/design_tail.md").read())
out.append("\n## Genuine defects repaired in /repo\n\nAll found by the checks of the given property (failing inputs against the original code), each repaired in its own `fix:` commit; there are no open findings.\n\n| property | commit | what failed |\n|---|---|---|")
for l in open(R + "/KNOWN_FINDINGS.txt"):
    if l.startswith("fixed:"):
        _, a, c, w = l.split(None, 3)
        out.append("| {} | {} | {} |".format(a.split("=")[1], c, w.strip()))
res = json.load(open(R + "/tools/seeded_results.json"))
out.append("\n## Seeded changes and what catches them\n\nEach was written from the text of a property and the code; all compile and pass the 100 tests. "
           "\"caught by\": checks that report a violation in the quick tier (the check of the property is always run, others where tried). "
           "\"strengthened\" marks changes that the check missed when the change was written.\n\n| change | needs | caught by |\n|---|---|---|")
for f in sorted(glob.glob(R + "/seeded/*/meta.json")):
    i = f.split("/")[-2]; m = json.load(open(f)); r = res.get(i, {})
    out.append("| {} | {} | {}{} |".format(i, m["needs"].replace("|", "/"), ", ".join(r.get("caught", [])) or "(none)", " (strengthened)" if r.get("strengthened") else ""))
open(R + "/DESIGN.md", "w").write("\n".join(out) + "\n")
