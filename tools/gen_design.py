"""Writes /verif/DESIGN.md: the fixed parts, and the table of properties from the checks, seeds and findings as they are."""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = V + "/tools/"
out = [open(T + "design_head.md").read()]
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
seeds = {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
cost = json.load(open(T + "cost.json")) if os.path.exists(T + "cost.json") else {}
for f in glob.glob(V + "/evidence/*.json"):
    e = json.load(open(f))
    if e.get("tier") == "quick":
        c = e.get("coverage", {})
        cost[e["property"]] = dict(paths=c.get("states"), wall=round(e.get("wall_s", e.get("wall_seconds", 0)) or 0))
json.dump(cost, open(T + "cost.json", "w"), indent=1, sort_keys=True)
out.append("## 2. The properties and how each is decided\n\n\"Units\" are the harnesses of a check (in `checks/<id>.py`), each a symbolic exploration of its own.\n\n")
NA = {}
for q in json.load(open(V + "/MANIFEST.json"))["not_applicable"]:
    NA[q["property"]] = q["reason"]
for q in props:
    i = q["id"]
    out.append("### %s %s\n\n" % (i, q["title"]))
    if i in NA:
        out.append("Not applicable: %s.\n\n" % NA[i].rstrip("."))
        continue
    tree = ast.parse(open(V + "/checks/%s.py" % i.lower()).read())
    meta, units = {}, []
    for n in tree.body:
        if isinstance(n, ast.Assign):
            try:
                meta[getattr(n.targets[0], "id", None)] = ast.literal_eval(n.value)
            except ValueError:
                pass
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "unit":
                    units.append((ast.literal_eval(d.args[0]) if isinstance(d.args[0], ast.Constant) else n.name, (ast.get_docstring(n) or "").split("\n")[0]))
    doc = (ast.get_docstring(tree) or "").split("\n", 1)
    if len(doc) > 1 and doc[1].strip():
        out.append(doc[1].strip() + "\n\n")
    out.append("* Code: %s\n" % "; ".join("%s (%s)" % (m["name"], m["where"]) for m in q["anchors"]["mechanism"]))
    out.append("* Method: %s.\n" % meta.get("TECHNIQUE", "symbolic execution of the real Python source with z3 deciding every branch and assertion").rstrip("."))
    out.append("* What is symbolic: %s\n" % meta["LEVEL_NOTE"])
    out.append("* Bounds: %s.\n" % meta["BOUNDS"].rstrip("."))
    out.append("* Outside: %s.\n" % meta["OUTSIDE"].rstrip("."))
    if meta.get("ASSUMPTIONS"):
        out.append("* Assumes: %s.\n" % "; ".join(a.rstrip(".") for a in meta["ASSUMPTIONS"]))
    out.append("* Units: %s.\n" % "; ".join(n + (" (%s)" % d.rstrip(".") if d else "") for n, d in units))
    if i in cost:
        out.append("* Cost (quick): %s paths, about %s s.\n" % (cost[i]["paths"], cost[i]["wall"]))
    out.append("* Beyond the tests: %s.\n" % q["why_tests_cant"].rstrip("."))
    if seeds.get(i):
        out.append("* Planted bugs caught: %s.\n" % ", ".join(s for s, _ in seeds[i]))
    out.append("\n")
fixes = []
for l in open(V + "/known-findings.txt"):
    if l.startswith("fixed:"):
        _, p, commit, what = l.split(None, 3)
        fixes.append("* %s (%s): %s.\n" % (p.split("=")[1], commit, what.strip().rstrip(".")))
out.append(open(T + "design_tail.md").read().replace("@@FIXES@@\n", "".join(sorted(fixes))).rstrip("\n") + "\n\n")
out.append("## 5. Planted bugs\n\nEach is validated (builds, the stable tests pass, its demonstration passes without and fails with it) with `tools/mkseed.py`, and\ncaught by the quick check of its property (`tools/mkseed.py --check`).\n\n| id | property | needs | breaks |\n|---|---|---|---|\n")
for i in sorted(seeds):
    for s, m in seeds[i]:
        out.append("| %s | %s | %s | %s |\n" % (s, i, m["needs"].replace("|", "\\|"), m["what_it_breaks"].replace("|", "\\|")))
open(V + "/DESIGN.md", "w").write("".join(out))
