#!/usr/bin/env python3
"""Write MANIFEST.json from the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
AI = "path-sensitive abstract interpretation of the source (provenance terms, intervals)"
TECH = {
    "C04": AI + " with an effect trace of file operations",
    "C05": "evaluation of the class bodies (ID tables) and abstract interpretation of event constructors per ID",
    "C12": AI + " of EventTree operations on abstract trees, against a list model",
    "C17": "class hierarchy analysis and " + AI,
    "C19": AI + "; class and internal-name table read from the source",
    "C18": AI + " with an effect trace; AST/call-graph effect rule for file operations",
}
NOTE = ("Static: the analysed source is never run. Holds for all payload contents, values and texts within the listed abstract files; "
        "trusted: the analyser's model of Python, construct and the standard library. Bounded in the number of entities per file (see DESIGN.md).")
NA = {
    "C23": "FL Studio is a closed program outside the repository: no source to analyse can settle what it accepts. The byte-level parts are C01, C02, C04 and C09.",
    "C24": "A bound on running time quantifies over the cost of interpreter and library operations (sorted containers, construct) on inputs of unbounded size; no sound static cost analysis for Python is in reach here.",
}


def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        if os.path.exists(os.path.join(HERE, "sa", "checks", p.lower() + ".py")):
            checks.append({
                "property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"python3 check.py {p} --tier thorough",
                "technique": TECH.get(p, AI), "level": "other", "level_note": NOTE,
            })
        else:
            na.append({"property": p, "reason": NA.get(p, "no check built yet")})
    m = {"version": 1, "setup_cmd": "python3 -c \"import ast,sys; [ast.parse(open(f).read()) for f in ('check.py','sa/interp.py')]\"", "checks": checks, "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
