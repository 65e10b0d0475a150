"""C01: a specification handed back enumerates the start class correctly."""
from lib import boot, gen
from lib.engine import Skip, Violation, choose_n, run_search
from lib.refmodels import clean
from lib.runner import Part
from lib.specoracle import check_terms, guard, spec_tags

RULE = (
    "random grammar universe (start class with 0-3 statistics, strategy pack with "
    "expansions, factorisations, inferral, symmetries, factories, foreign rules, "
    "verification strategies) x rule database x pack/search options x clock steps x "
    "random stream; a case is non-trivial when the search hands back a specification "
    "of at least 3 rules whose counts for all sizes up to the bound and all parameter "
    "values were compared with the independent enumeration"
)


def check(case):
    with guard("search"):
        css, spec = run_search(case)
    tags = [case["db"]]
    if spec is None:
        return {"nt": False, "tags": tags + ["nospec"]}
    start = css.start_class
    nmax = choose_n(start)
    check_terms(spec, start, nmax)
    # counting queries in any order, with every parameter value
    for n in reversed(range(nmax + 1)):
        truth = start.true_terms(n)
        names = start.extra_parameters
        probes = list(truth)[:6]
        if names:
            probes.append(tuple(n + 7 + i for i in range(len(names))))
        else:
            probes = [()]
        for p in probes:
            with guard("count_objects_of_size"):
                got = spec.count_objects_of_size(n, **dict(zip(names, p)))
            if got != truth.get(p, 0):
                raise Violation(
                    "count_objects_of_size(%d, %r) = %r, truth %r"
                    % (n, dict(zip(names, p)), got, truth.get(p, 0))
                )
    # the same universe asked again: other choices among candidates
    if case.get("again", True) and len(spec.rules_dict) > 2:
        with guard("second auto_search"):
            spec2 = css.auto_search(smallest=False)
        check_terms(spec2, start, min(nmax, 6), "second specification")
        tags.append("second")
    tags += list(spec_tags(spec))
    tags.append("iterative" if css.strategy_pack.iterative else "recursive")
    return {"nt": len(spec.rules_dict) >= 3, "tags": tags}


def check_long(case):
    """several hundred rules, with the recursion limit of a fresh interpreter"""
    with guard("search"):
        css, spec = run_search(case, maximum=10**6)
    if spec is None:
        raise Skip("no specification")
    start = css.start_class
    want = [start.true_terms(n) for n in range(7)]
    order = [n % 7 for n in case["stream"]][:3] + list(range(7))
    with boot.default_limit():
        for n in order:
            with guard("get_terms(%d) of %d rules" % (n, len(spec.rules_dict))):
                got = clean(spec.get_terms(n))
            if got != clean(want[n]):
                raise Violation("get_terms(%d) = %r, truth %r" % (n, got, want[n]))
            with guard("count_objects_of_size(%d)" % n):
                got = spec.count_objects_of_size(n)
            if got != want[n][()]:
                raise Violation("count_objects_of_size(%d) = %r, truth %r" % (n, got, want[n]))
    return {"nt": len(spec.rules_dict) >= 200, "tags": list(spec_tags(spec))}


PARTS = [
    Part("search", lambda: gen.search_case(), check, 8000, 120000),
    Part("params", lambda: gen.search_case(min_S=2), check, 5000, 60000),
    Part("net", lambda: gen.net_case(), check, 1500, 22500),
    Part("sym", lambda: gen.search_case(nsym=4), check, 1500, 30000),
    Part("reverse", lambda: gen.reverse_case(), check, 3000, 50000),
    Part("revparams", lambda: gen.reverse_case(min_S=2), check, 3000, 50000),
    Part("long", lambda: gen.long_case(), check_long, 16, 160, timeout=40),
]
