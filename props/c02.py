"""C02: returned specifications are closed, genuine and productive."""
from lib import gen
from lib.engine import run_search
from lib.runner import Part
from lib.specoracle import check_spec, guard, spec_tags

RULE = (
    "same universes, databases, options, clock steps and random streams as C01; a case "
    "is non-trivial when the specification handed back has at least 3 rules, each of "
    "which was re-derived from the pack and judged for closure and productivity by the "
    "independent least fixed point"
)


def check(case):
    with guard("search"):
        css, spec = run_search(case)
    tags = [case["db"]]
    if spec is None:
        return {"nt": False, "tags": tags + ["nospec"]}
    # a fresh pack: independent of any state of the strategies the search used
    from lib.engine import start_and_pack

    start, pack = start_and_pack(case)
    check_spec(spec, start, [pack])
    with guard("counting"):
        for n in range(4):
            spec.get_terms(n)
    if case.get("again", True) and len(spec.rules_dict) > 2:
        for _ in range(2):
            with guard("another auto_search"):
                spec2 = css.auto_search(smallest=False)
            check_spec(spec2, start, [pack])
    tags += list(spec_tags(spec))
    tags.append("iterative" if css.strategy_pack.iterative else "recursive")
    return {"nt": len(spec.rules_dict) >= 3, "tags": tags}


PARTS = [
    Part("search", lambda: gen.search_case(), check, 9000, 90000),
    Part("net", lambda: gen.net_case(), check, 2500, 37500),
    Part("sym", lambda: gen.search_case(nsym=4), check, 2500, 40000),
    Part("reverse", lambda: gen.reverse_case(), check, 5000, 50000),
]
