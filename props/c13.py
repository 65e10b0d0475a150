"""C13: the parallel specification finder is total, its output a matched pair."""
from lib import isogen
from lib.boot import reset
from lib.engine import Skip, TooBig, Violation, choose_n, limit_classes, mk_searcher
from lib.runner import Part
from lib.specoracle import check_spec, check_terms, guard, spec_tags

from comb_spec_searcher.bijection import EqPathParallelSpecFinder, ParallelSpecFinder
from comb_spec_searcher.isomorphism import Bijection, Isomorphism

RULE = (
    "pairs of searchers over grammars with near copies of the same nonterminals and packs "
    "with unary steps, symmetries and inferral strategies, both finder variants. A returned "
    "pair is checked for C01 and C02 on both sides and for isomorphism. Non-trivial: the "
    "start class of a side shares its equivalence label with another class, or a pair with "
    "at least 4 rules was returned"
)

NOTHING = ("No specifications were found",)


def make(case):
    css = mk_searcher(case)
    return limit_classes(css, 120)


def find(case):
    out = []
    for k in ("a", "b"):
        out.append(make(case[k]))
    cls = EqPathParallelSpecFinder if case["variant"] == "path" else ParallelSpecFinder
    try:
        with guard("finder", allow=(ValueError,)):
            try:
                finder = cls(*out)
            except ValueError as e:
                if str(e) in NOTHING:
                    for css in out:
                        if not css.ruledb.has_specification():
                            raise Skip("no specification") from e
                raise Violation("finder: ValueError: %s" % e) from e
        with guard("find"):
            res = finder.find()
    except TooBig as e:
        raise Skip("universe too big") from e
    return out, res


def start_shared(css):
    eq = css.ruledb.equivdb
    lab = css.start_label
    rep = eq[lab]
    return rep != lab, any(
        eq[l] == rep for l in range(len(list(css.classdb))) if l != lab
    )


def unequal_labels(css, spec):
    """a unary rule inside an equivalence label that is no equivalence: the plain
    finder documents that it assumes there are none"""
    eq = css.ruledb.equivdb
    lab = css.classdb.get_label
    for c, r in spec.rules_dict.items():
        if len(r.children) == 1 and not r.is_equivalence():
            if eq[lab(c)] == eq[lab(r.children[0])]:
                return True
    return False


def check(case):
    css, res = find(case)
    tags = {case["kind"], case["variant"]}
    shared = False
    for c in css:
        rep, sh = start_shared(c)
        shared |= sh
        if rep:
            tags.add("start is not the representative")
        if sh:
            tags.add("start has equivalents")
    tags.add("found" if res is not None else "nothing")
    size = 0
    if res is not None:
        for side, c in zip(res, css):
            check_spec(side, c.start_class, [c.strategy_pack])
            check_terms(side, c.start_class, choose_n(c.start_class, cap=100, top=7))
            tags |= spec_tags(side)
            size = max(size, len(side.rules_dict))
        loose = any(unequal_labels(c, x) for c, x in zip(css, res))
        if loose:
            tags.add("unequal labels:" + case["variant"])
        if case["variant"] == "path" or not loose:
            with guard("isomorphism check"):
                for x, y in (res, res[::-1]):
                    if not Isomorphism.check(x, y):
                        raise Violation("returned specifications are not isomorphic")
    return {"nt": shared or size >= 4, "tags": sorted(tags)}


PARTS = [
    Part("pairs", lambda: isogen.finder_case(), check, 10000, 200000, timeout=10),
    Part("choices", lambda: isogen.finder_case(S_max=0, rich=True), check, 4000, 80000, timeout=10),
    Part("eqpaths", lambda: isogen.eqpath_case(), check, 8000, 100000, timeout=10),
    Part("labels", lambda: isogen.label_case(), check, 5000, 100000, timeout=10),
]
