"""prints the tables of DESIGN.md: bounds per property (from the checks' attributes) and seeded changes (from their meta.json)"""
import glob, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from irsym import checks
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| property | decided | bounds | assumptions |\n|---|---|---|---|")
esc = lambda s: s.replace("|", "/").replace("\n", " ")
for k in sorted(checks.REGISTRY):
    c = checks.REGISTRY[k]
    print(f"| {k} | {esc(c.what)} | {esc(c.bounds)} | {esc('; '.join(c.assumptions)) or '–'} |")
print("\n@@\n| change | property = check that catches it | needs |\n|---|---|---|")
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    j = json.load(open(m))
    print(f"| {os.path.basename(os.path.dirname(m))} | {j['property']} | {esc(j['needs'])} |")
