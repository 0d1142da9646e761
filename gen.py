#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and DESIGN.md from checks.py and design/."""
import json, os, sys
from checks import PROPS, NOT_APPLICABLE
H = os.path.dirname(os.path.abspath(__file__))
TECH = "symbolic execution of the compiled library's LLVM IR (rustc output of the current source) with SMT (Z3) deciding every branch and assertion; counterexamples replayed natively"
with open(H + "/properties.jsonl", "w") as f:
    for i, p in PROPS.items():
        assert len(p["title"]) <= 80, (i, len(p["title"]))
        f.write(json.dumps({"id": i, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": m, "where": p["files"][0]} for m in p["mechanism"]], "state": p["state"], "observe_at": [p["observe"]], "hook_needed": None}}) + "\n")
    for n in NOT_APPLICABLE:
        f.write(json.dumps(n["record"]) + "\n")
json.dump({"version": 1, "setup_cmd": "bash setup.sh",
           "checks": [{"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough", "technique": p.get("technique", TECH), "level": "model_checking",
                       "level_note": "bounded: " + p["bounds"] + ". Outside: " + p["outside"]} for i, p in PROPS.items()],
           "not_applicable": [{"property": n["record"]["id"], "reason": n["reason"]} for n in NOT_APPLICABLE],
           "hooks": {"guard": "none", "enable": "no hooks in /repo", "source_commits": []}}, open(H + "/MANIFEST.json", "w"), indent=1)


def design():
    sys.path.insert(0, H + "/design")
    from how import HOW
    cost = json.load(open(H + "/design/cost.json"))
    o = [open(H + "/design/head.md").read().rstrip(), "", "## Properties", "",
         "In bounds, [A] is any printable ASCII character but quote and backslash, [N] a text near a given one: a character added at an end, or any one replaced. "
         "The costs are those of the quick check on the sandbox's 8 cores, building included.", ""]
    for i, p in PROPS.items():
        c = cost.get(i)
        o += [f"### {i} {p['title']}", "", p["statement"], "", f"*How.* {HOW[i]}", "",
              "*Entries.* " + ", ".join(f"`{e}`" for e in p["entries"]) + ".", "",
              f"*Bounds.* {p['bounds']}.", "", f"*Outside.* {p['outside']}.", "", f"*Why tests cannot.* {p['why']}.", ""]
        if c:
            o += [f"*Cost.* {c['paths']} paths, {c['instructions'] / 1e6:.0f} M instructions, {c['queries']} solver queries, {c['seconds']} s.", ""]
    for n in NOT_APPLICABLE:
        o += [f"### {n['record']['id']} {n['record']['title']} (not applicable)", "", n["record"]["statement"], "", n["reason"], ""]
    o.append(open(H + "/design/tail.md").read().rstrip())
    open(H + "/DESIGN.md", "w").write("\n".join(o) + "\n")


design()
