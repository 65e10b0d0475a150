"""writes MANIFEST.json for the properties that have a module in props/"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
NOTES = {
    "C01": 'counts (also refined by tracked statistics) of every specification handed back, against an independent dynamic-programming enumeration',
    "C02": 'every specification handed back is re-derived from the pack and judged by an independent least fixed point',
    "C03": 'forest table fed random keyed rule sequences, compared after each insertion with a naive least fixed point',
    "C04": 'the recorded universe is recomputed by applying every pack strategy to every class and compared rule by rule',
    "C05": 'pruning and every proof-tree finder compared with reference fixed points and an exhaustive minimum search',
    "C06": 'union-find, verification and path answers compared with a transitive-closure model over operation histories',
    "C07": 'generated objects of each size and parameter value compared with the enumeration, for specifications and every rule form',
    "C08": 'exact probability of every object computed by enumerating all outcomes of the random source, compared with 1/n',
    "C09": 'terms of every rule form (reverse, equivalence, chains) compared with the enumeration of its parent',
    "C10": 'sizes really read recorded by instrumented providers and compared with the declared shifts',
    "C11": 'extracted rule sets judged by a reference least fixed point: subset, closed, productive, minimal by single deletions',
    "C12": 'bijections checked on every object of each size: images, injectivity, both inverses, round trip',
    "C13": 'parallel finder and isomorphism answers judged by the C01/C02 oracle and a reference matching',
    "C14": 'both rule databases fed the same histories; all answers compared with each other and with a flat model',
    "C15": 'class database compared with a dictionary model over histories of calls, compressed or not',
    "C16": 'queue histories compared with a work-item model: order, once only, completeness, termination',
    "C17": 'searches interrupted and pickled at generated points under a controlled clock, compared with uninterrupted runs',
    "C18": 'JSON round trips compared by equality and by behaviour (counts, objects, equations, maps)',
    "C19": 'expansion and other operations on specifications compared with the enumeration and the C02 oracle, original untouched',
    "C20": 'equations substituted with true series coefficient by coefficient; generating functions expanded and compared',
}
TECH = "property-based testing: generated cases, explicit oracle, shrinking (Hypothesis)"


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        pid = p["id"]
        if not os.path.exists(os.path.join(HERE, "props", pid.lower() + ".py")):
            na.append({"property": pid, "reason": "check not built yet"})
            continue
        checks.append(
            {
                "property": pid,
                "quick_cmd": "%s check.py %s --tier quick" % (PY, pid),
                "thorough_cmd": "%s check.py %s --tier thorough" % (PY, pid),
                "technique": TECH,
                "level": "exploration",
                "level_note": NOTES.get(pid, "see DESIGN.md")
                + "; evidence for the generated cases only, trusts the generator's "
                "contract (strategies genuine by construction) and the oracle in /verif/lib",
            }
        )
    doc = {
        "version": 1,
        "setup_cmd": "%s check.py C15 --setup" % PY,
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks in /repo: clock, random source and databases are replaced from outside.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


main()
