"""properties.jsonl and MANIFEST.json from vx/props.py"""
import json
import os
from vx.props import PROPS, NOT_APPLICABLE, HOOK_COMMITS
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for pid, p in PROPS.items():
            fh.write(json.dumps({
                "id": pid, "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "hook_needed": p.get("hook")}}, ensure_ascii=False) + "\n")
    checks = []
    for pid, p in PROPS.items():
        be = []
        if p.get("verus"):
            be.append("Verus contracts on functions extracted from /repo on every run")
        if p.get("kani"):
            be.append("Kani proof harnesses and contracts on the included module")
        checks.append({"property": pid, "quick_cmd": f"python3 check.py {pid}",
                       "thorough_cmd": f"python3 check.py {pid} --tier thorough",
                       "technique": "deductive verification: " + "; ".join(be) + "; bounded search for a failing input",
                       "level": p.get("level", "proof"), "level_note": p["note"]})
    json.dump({"version": 1, "setup_cmd": "true",
               "hooks": {"guard": "asciidork_verif", "enable": "RUSTFLAGS='--cfg asciidork_verif'", "source_commits": HOOK_COMMITS},
               "checks": checks,
               "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()]},
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)


main()
