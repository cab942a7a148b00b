"""The properties, and how each one is decided. `python3 tools/props.py` writes properties.jsonl and MANIFEST.json."""
import json, os, sys

P, NA = [], []


def prop(id, title, statement, over, quant, why, files, mech, crate, rule, technique, note, q=20, t=300, state=(), observe=(), assume=(), level="exploration", hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), quant=quant, why=why, files=files.split(), mech=mech, crate=crate,
                  rule=rule, technique=technique, note=note, q=q, t=t, state=state, observe=observe, assume=list(assume), level=level, hook=hook))


for f in sorted(os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props.d"))):
    if f.endswith(".py"):
        exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props.d", f)).read())

CHECKS = {p["id"]: (p["crate"], p["q"], p["t"]) for p in P}
RULES = {p["id"]: p["rule"] for p in P}
ASSUME = {p["id"]: p["assume"] for p in P}
LEVELS = {p["id"]: p["level"] for p in P}


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(f"{root}/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                            "observe_at": list(p["observe"]), "hook_needed": p["hook"]}}) + "\n")
    m = {
        "version": 1, "setup_cmd": "python3 check.py --setup",
        "hooks": {"guard": "none", "enable": "no hooks were needed: the checks compile /repo's own sources and observe them through their public items", "source_commits": []},
        "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} quick", "thorough_cmd": f"python3 check.py {p['id']} thorough",
                    "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in P],
        "not_applicable": [{"property": a, "reason": b} for a, b in NA],
        "notes": "check.py mirrors /repo's current sources into build/ws, builds them with cargo (offline, registry shims in shims/), runs the monitored workload and writes the evidence.",
    }
    json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
    for p in P:
        assert len(p["title"]) <= 80, p["id"]


if __name__ == "__main__":
    main()
