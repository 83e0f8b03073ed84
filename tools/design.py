#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md: measured coverage (from evidence/) and planted bugs (from seeded/)."""
import glob, json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set("""c10-pop-negative-keys c07-list-restore c09-enum-prefix c19-empty-list c25-create-shares-cache c13-list-flags c14-falsy-in-text
c16-select-writes c29-update-strip-key c10-resolve-reparents c18-bracket-dot c27-inter-containers""".split())
extra = os.path.join(root, "tools", "missed.txt")
if os.path.exists(extra):
    MISSED |= set(open(extra).read().split())
s = open(os.path.join(root, "DESIGN.md")).read()


def put(tag, text):
    global s
    s = re.sub(rf"(<!-- {tag} -->\n).*?(<!-- /{tag} -->)", lambda m: m.group(1) + text + m.group(2), s, flags=re.S)


if "--table" in sys.argv:
    ev = sys.argv[sys.argv.index("--table") + 1]
    rows = ["| check | seconds | counts |", "|---|---|---|"]
    for f in sorted(glob.glob(os.path.join(ev, "C*.json"))):
        e = json.load(open(f))
        c = {k: v for k, v in e["coverage"].items() if isinstance(v, int) and not isinstance(v, bool)}
        rows.append(f"| {os.path.basename(f)[:-5]} | {e.get('wall_s', e.get('wall_seconds', 0)):.0f} | " + ", ".join(f"{k} {v}" for k, v in c.items()) + " |")
    put("table", "\n".join(rows) + "\n")
rows = ["| bug | property | caught by (quick) | needs |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    rows.append(f"| {n} | {m['property']} | {m['property']}{' (missed first)' if n in MISSED else ''} | {m['needs']} |")
put("bugs", "\n".join(rows) + "\n")
open(os.path.join(root, "DESIGN.md"), "w").write(s)
