"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None):
    anchors = {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}
    if state:
        anchors["state"] = state
    P.append(({"id": id, "title": title, "statement": " ".join(statement.split()),
               "quantifier": {"over": over, "text": " ".join(text.split())},
               "why_tests_cant": " ".join(why.split()), "anchors": anchors}, technique, note))


exec(open(os.path.join(ROOT, "tools", "props_data.py")).read())

if __name__ == "__main__":
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p, _, _ in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": NOT_APPLICABLE,
         "notes": "Every check is ./run CNN (Hypothesis over the code in /repo's working tree); ./run CNN FILE replays "
                  "a failure. Tier from VERIF_TIER or --thorough, seed from VERIF_SEED. No hooks in /repo."}
    for p, technique, note in P:
        m["checks"].append({"property": p["id"], "quick_cmd": f"./run {p['id']}",
                            "thorough_cmd": f"./run {p['id']} --thorough",
                            "evidence_file": f"evidence/{p['id']}.json", "technique": technique,
                            "level": "exploration", "level_note": note})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(P), "properties")
