"""DESIGN.md = tools/design/*.md + table of planted bugs"""
import glob, json, os
here = os.path.dirname(os.path.abspath(__file__))
parts = [open(f).read() for f in sorted(glob.glob(os.path.join(here, "design", "*.md")))]
rows = []
for d in sorted(glob.glob(os.path.join(here, "..", "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"],
                                     m["what_it_breaks"].replace("|", "/").replace("\n", " ")))
table = "| change | caught by | what it breaks |\n|---|---|---|\n" + "\n".join(rows) + "\n"
open(os.path.join(here, "..", "DESIGN.md"), "w").write("".join(parts) + table)
