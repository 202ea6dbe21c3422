#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from its parts."""
import json, os, re, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique, note, na=None, observe=None):
    P.append((id, title, statement, qtext, why, mech, technique, note, na))
exec(open(os.path.join(ROOT, "meta", "table.py")).read())
rd = lambda n: open(os.path.join(ROOT, n)).read()
seeded = {}
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    seeded.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m["what_it_breaks"], m.get("caught", True)))
out = [rd("meta/design_head.md").rstrip() + "\n\n## The properties\n"]
for id, title, st, q, why, mech, tech, note, na in sorted(P):
    if na: continue
    out.append("### %s %s\n" % (id, title))
    out.append(st + "\n")
    out.append("- *Over*: %s.\n- *Why not tests*: %s\n- *Method*: %s." % (q, why, tech))
    src = ""
    for f in ["checker/%s.go" % id.lower()]:
        if os.path.exists(os.path.join(ROOT, f)): src += rd(f)
    rules = [json.loads('"%s"' % r) for r in re.findall(r'c\.Rule\("((?:[^"\\]|\\.)*)"\)', src)]
    if rules:
        out.append("- *Rules*:")
        for r in rules:
            n, _, t = r.partition(": "); out.append("  - **%s**: %s" % (n, t))
    out.append("- *Where*: %s." % "; ".join("%s - %s" % m for m in mech))
    for a in re.findall(r'c\.Assume\("((?:[^"\\]|\\.)*)"\)', src):
        out.append("- *Assumes*: %s." % a)
    out.append("- *Bounds*: %s" % note)
    for s, w, c in seeded.get(id, []):
        out.append("- *Planted* `%s` (%s): %s." % (s, "caught" if c else "missed", w.rstrip(".")))
    out.append("")
nas = [p for p in sorted(P) if p[8]]
out.append("## Not applicable\n")
for p in nas:
    out.append("- **%s %s**: %s\n" % (p[0], p[1], p[8]))
fx, kn = [], []
for l in rd("KNOWN_FINDINGS.txt").splitlines():
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: fx.append("- %s, commit %s: %s." % m.groups())
    m = re.match(r"known: property=(\S+) key=(.*?) :: (.*)", l)
    if m: kn.append("- %s (`%s`): %s." % m.groups())
out.append(rd("meta/design_tail.md").replace("@FIXED@", "\n".join(fx)).replace("@KNOWN@", "\n".join(kn) or "none at present.").rstrip())
n = sum(len(v) for v in seeded.values())
out.append("\n## Planted changes\n\n%d changes are kept in seeded/, every one confirmed to build, to pass the existing tests and to fail its demonstration only with the change.\nCaught by the check of its own property: %d.\n" % (n, sum(1 for v in seeded.values() for x in v if x[2])))
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))
