"""Rewrites the table of planted bugs in DESIGN.md (section 5) from seeded/*/meta.json."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"].replace("\n", " ").replace("|", "/")))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
s = re.sub(r"All \d+ changes under", "All %d changes under" % len(rows), s)
s = re.sub(r"(\| change \| caught by \| needs \|\n\|---\|---\|---\|\n)(\|.*\n)+", lambda m: m.group(1) + "\n".join(rows) + "\n", s)
open(p, "w").write(s)
