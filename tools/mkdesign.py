"""writes DESIGN.md from tools/design.in, the checks and the planted bugs"""
import glob, importlib, json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
os.chdir(R)
COST = dict(l.split() for l in open("tools/cost.txt") if l.strip())
out = []
for l in open("properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    m = importlib.import_module("checks." + i.lower())
    fam = ", ".join("%s %d/%d" % (f.name, f.quick, f.thorough) for f in m.FAMILIES)
    anch = "; ".join("%s (%s)" % (a["name"], a["where"]) for a in p["anchors"]["mechanism"])
    out.append("### %s — %s\n\n*Quantified over* %s.\n\n*Method.* %s. %s\n\n*Bounds and assumptions.* %s.\n\n*Families (quick/thorough cases):* %s. *Cost of quick:* about %s s.%s\n\n*Beyond the tests.* %s\n\n*Anchored in* %s.\n" % (
        i, p["title"], p["quantifier"]["text"], m.TECHNIQUE[0].upper() + m.TECHNIQUE[1:], m.RULE, "; ".join(m.ASSUMPTIONS), fam, COST.get(i, "?"),
        " *Standing probes:* %s." % ", ".join(getattr(m, "PROBES", [])) if getattr(m, "PROBES", None) else "", p["why_tests_cant"], anch))
rows = ["| id | change | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    d = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (f.split("/")[1], d["what_it_breaks"].replace("|", "\\|"), d["needs"].replace("|", "\\|"), d.get("caught", d["property"])))
t = open("tools/design.in").read().replace("@@PROPS@@", "\n".join(out)).replace("@@SEEDED@@", "\n".join(rows))
open("DESIGN.md", "w").write(t)
