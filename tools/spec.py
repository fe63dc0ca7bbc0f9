"""Source of properties.jsonl, MANIFEST.json and checks.json.

    python3 tools/spec.py      rewrites the three files

One entry per property.  `claim` is False while a check is not built (the
property then goes to not_applicable with its reason)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TP = "terragraph_planner/"
PROPS = []


def P(id, title, statement, over, text, why, files, mech, level="exploration", note="", rule="", real=(), stub=(),
      quick=(400, 30), thorough=(20000, 600), reason=None, assume=(), measure=None, state=None, observe=None, technique=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level=level,
                      note=note, rule=rule, real=list(real), stub=list(stub), quick=quick, thorough=thorough, reason=reason,
                      assume=list(assume), measure=measure, state=state, observe=observe, technique=technique))


POOL = "multiprocessing.Pool -> simulated worker pool (seeded scheduler, pickle boundary, optional forked children)"
SOLVER = "xpress -> in-process stand-in with the same modelling API that answers with HiGHS optima, arbitrary feasible incumbents, timeouts, infeasibility, numerical slop or exceptions"
CLOCK = "time/datetime -> simulated clock"
DISKS = "libc file calls under the run's scratch root -> LD_PRELOAD shim that can fail, shorten, tear or lose them or end the process"

exec(open(os.path.join(V, "tools", "props.py")).read())


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None}}
            assert len(p["title"]) <= 80, p["title"]
            if p["state"]:
                d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
            if p["observe"]:
                d["anchors"]["observe_at"] = p["observe"]
            f.write(json.dumps(d) + "\n")
    claimed = [p for p in PROPS if p["reason"] is None]
    man = {
        "version": 1,
        "setup_cmd": "mkdir -p build && gcc -O2 -shared -fPIC -w -o build/diskshim.so dst/native/diskshim.c -ldl",
        "hooks": {"guard": "none", "enable": "no hooks: every seam is installed from outside /repo by dst/sim.py before the planner is imported", "source_commits": []},
        "checks": [{
            "property": p["id"], "quick_cmd": f"./check {p['id']} --tier quick", "thorough_cmd": f"./check {p['id']} --tier thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"] or "deterministic simulation with fault injection (seeded search over schedules, inputs and faults)",
            "level": p["level"], "level_note": p["note"]} for p in claimed],
        "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in PROPS if p["reason"]],
        "notes": "All checks run the real planner code of /repo's working tree in-process under dst/ (see DESIGN.md); a failing run prints VIOLATION with a minimised replay file, and ./check <ID> --replay <file> reproduces it exactly.",
    }
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    conf = {}
    for p in claimed:
        c = {"quick": {"cases": p["quick"][0], "budget": p["quick"][1]}, "thorough": {"cases": p["thorough"][0], "budget": p["thorough"][1]},
             "rule": p["rule"], "real": p["real"], "stub": p["stub"]}
        if p["assume"]:
            c["assumptions"] = p["assume"]
        if p["measure"]:
            c["state_measure"] = p["measure"]
        conf[p["id"]] = c
    with open(os.path.join(V, "checks.json"), "w") as f:
        json.dump(conf, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
