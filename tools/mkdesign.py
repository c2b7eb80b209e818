"""Write DESIGN.md: head + one section per property (from properties.jsonl and the checks) + planted bugs."""
import ast
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = lambda *p: os.path.join(V, *p)
ns = {}
exec(open(R("tools", "notes.py")).read(), ns)
props = [json.loads(l) for l in open(R("properties.jsonl"))]
out = [open(R("tools", "design_head.md")).read(), "## 5. Property by property\n"]


def lit(n):
    try:
        return ast.literal_eval(n)
    except ValueError:
        return ast.unparse(n)


for p in props:
    t = ast.parse(open(R("checks", p["id"] + ".py")).read())
    kw, fams = {}, []
    for n in ast.walk(t):
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") == "Check":
            kw = {k.arg: lit(k.value) for k in n.keywords}
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "attr", "") == "family":
                    k = {x.arg: lit(x.value) for x in d.keywords}
                    fams.append((lit(d.args[0]), k.get("quick"), k.get("thorough"), (ast.get_docstring(n) or "").split("\n")[0]))
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append("*Deciding method.* %s.\n" % ns["TECH"].get(p["id"], ns["DEFAULT_TECH"]))
    out.append("*What runs and against what.* %s\n" % kw.get("rule"))
    out.append("*Families (quick/thorough cases).* " + "; ".join(
        "`%s` %s/%s%s" % (f, q, th, " - " + d.rstrip(".") if d else "") for f, q, th, d in fams) + ".\n")
    if kw.get("require"):
        out.append("*Must have been observed.* " + ", ".join(kw["require"]) + ".\n")
    if kw.get("assumptions"):
        out.append("*Bounds and assumptions.* " + "; ".join(kw["assumptions"]) + ".\n")
    out.append("*Beyond the tests.* %s\n" % p["why_tests_cant"])
out.append("## 6. Planted bugs\n")
out.append("Each `seeded/<id>` breaks one property, builds, passes the stable tests and comes with a demonstration. The last column "
           "is the result of the quick check of that property on a tree with the patch (`tools/seeded_results.json`, "
           "written by hand-run experiments; no check reads `seeded/`).\n")
out.append(open(R("tools", "design_seeded.md")).read())
res = json.load(open(R("tools", "seeded_results.json")))
out.append("| id | property | needs | breaks | quick check |\n|---|---|---|---|---|")
for d in sorted(glob.glob(R("seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    i = os.path.basename(d)
    out.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["needs"], m["what_it_breaks"], res.get(i, "?")))
open(R("DESIGN.md"), "w").write("\n".join(out) + "\n")
print(len(out))
