#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, f"{V}/sim")
L = "src/library/include"
PROPS = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), na=None, level="exploration", note=None, tech=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                                   state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                                   observe_at=list(observe), hook_needed=None), _na=na, _level=level, _note=note, _tech=tech))


exec(open(f"{V}/tools/props.py").read())


def main():
    from targets import TARGETS
    have = {p for t in TARGETS for p in t["props"]}
    out = []
    for p in PROPS:
        d = {k: v for k, v in p.items() if not k.startswith("_")}
        out.append(json.dumps(d))
    open(f"{V}/properties.jsonl", "w").write("\n".join(out) + "\n")
    checks, na = [], []
    for p in PROPS:
        i = p["id"]
        if p["_na"]:
            na.append(dict(property=i, reason=p["_na"]))
        elif i not in have:
            na.append(dict(property=i, reason="check not built yet"))
        else:
            checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick",
                               thorough_cmd=f"python3 check.py {i} --tier thorough", evidence_file=f"evidence/{i}.json",
                               technique=p["_tech"] or "deterministic simulation with fault injection (seeded search)",
                               level=p["_level"], level_note=p["_note"] or ""))
    m = dict(version=1, setup_cmd="python3 sim/build.py",
             hooks=dict(guard="MM2_VERIF_SIM", enable="sim/build.py compiles /repo's sources with -DMM2_VERIF_SIM; no source in /repo "
                        "needs the guard today: all seams are link level (pthread, futex, clock, malloc, file system calls)",
                        source_commits=[]),
             checks=checks, not_applicable=na,
             notes="See DESIGN.md. Checks build into /verif/build (ccache there) from /repo's working tree.")
    json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
    open(f"{V}/MANIFEST.json", "a").write("\n")


main()
