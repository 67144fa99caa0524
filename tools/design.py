"""Regenerates the table of units between the markers of DESIGN.md (run: /opt/venv/bin/python tools/design.py)."""
import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def kws(ks):
    if ks == [{}]:
        return "1 job"
    keys = sorted({k for d in ks for k in d})
    out = []
    for k in keys:
        if k in ("part", "of", "parts"):
            continue
        vals = []
        for d in ks:
            if k in d and d[k] not in vals:
                vals.append(d[k])
        out.append("%s=%s" % (k, ",".join(str(v) for v in vals) if len(vals) <= 8 else "%s..%s" % (vals[0], vals[-1])))
    return ("%d jobs" % len(ks)) + (": " + "; ".join(out) if out else "")


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    lines = []
    for p in props:
        m = importlib.import_module("mc.checks." + p["id"].lower())
        lines.append("\n#### %s (%s)\n" % (p["id"], m.LEVEL))
        lines.append("| unit | mode | quick | thorough | explores |\n|---|---|---|---|---|")
        for u in m.UNITS:
            doc = " ".join((u.fn.__doc__ or "").split()).replace("|", "\\|") or "see the rule of the check"
            lines.append("| %s | %s | %s | %s | %s |" % (u.name, u.mode, kws(u.quick), "as quick" if u.thorough == u.quick else kws(u.thorough), doc))
    path = os.path.join(HERE, "DESIGN.md")
    s = open(path).read()
    a, b = "<!-- units -->", "<!-- /units -->"
    i, j = s.index(a) + len(a), s.index(b)
    open(path, "w").write(s[:i] + "\n" + "\n".join(lines) + "\n" + s[j:])


main()
