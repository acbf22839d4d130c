"""Prints the table of planted bugs in DESIGN.md from seeded/*/meta.json; run by hand, no check uses it."""
import glob, json, os
rows = []
for f in glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded", "*", "meta.json")):
    m = json.load(open(f))
    rows.append((m["property"], os.path.basename(os.path.dirname(f)), m["needs"]))
print("| property (its check catches it) | planted bug | needs |\n|---|---|---|")
for r in sorted(rows):
    print("| %s | %s | %s |" % r)
