#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: python3 tools/meta.py rewrites both."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))




def write(repo="/repo"):
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
        for p in PROPS:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["observe"]:
                a["observe_at"] = p["observe"]
            a["hook_needed"] = p["hook"]
            fh.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"], "anchors": a}) + "\n")
    sys.path.insert(0, ROOT)
    from checks import REGISTRY
    full = [subprocess.run(["git", "-C", repo, "rev-parse", h], capture_output=True, text=True).stdout.strip() for h in HOOK]
    m = {"version": 1, "setup_cmd": "python3 vp/build.py plain asan gc",
         "hooks": {"guard": "NUJEL_VERIFY_GC",
                   "enable": "-DNUJEL_VERIFY_GC when vp/build.py compiles the gc and asan variants from a copy of /repo; "
                             "NUJEL_VERIFY_GC_EVERY=N in the environment then collects garbage at every Nth allocation, and (verify/gc-every N) changes N while running",
                   "source_commits": full},
         "checks": [], "not_applicable": []}
    for p in PROPS:
        if p["id"] not in REGISTRY:
            m["not_applicable"].append({"property": p["id"], "reason": "no check yet"})
            continue
        m["checks"].append({
            "property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
            "thorough_cmd": "python3 check.py %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration",
            "level_note": (p["note"] + " " if p["note"] else "") + LEVEL})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


from props_text import PROPS, LEVEL, HOOK  # noqa: E402

if __name__ == "__main__":
    write()
