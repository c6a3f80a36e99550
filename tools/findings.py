"""Writes the 'fixed:' entries of known_findings.jsonl from /repo's fix commits:  python3 tools/findings.py
(FIX maps a piece of the commit subject to the property; run by hand when a fix is committed, never by a check.)"""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(ROOT, "tools", "fix_map.py")).read())
out = []
for line in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    p = [v for k, v in FIX.items() if k in s]
    assert len(p) == 1, (s, p)
    out.append({"status": "fixed", "property": p[0], "commit": h, "entry": f"fixed: property={p[0]} {h} {s[5:]}"})
for k in KNOWN:
    out.append(dict(k, status="known"))
with open(os.path.join(ROOT, "known_findings.jsonl"), "w") as f:
    for o in out:
        f.write(json.dumps(o) + "\n")
print(len(out))
