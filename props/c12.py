"""C12: a constructed bijection is a size-preserving bijection."""
import json

from hypothesis import strategies as st

from lib import isogen
from lib.boot import reset
from lib.engine import Skip, Violation, choose_n, mk_searcher, run_search
from lib.runner import Part
from lib.specoracle import guard, spec_tags
from props import c13

from comb_spec_searcher import CombinatorialSpecification
from comb_spec_searcher.isomorphism import Bijection, Isomorphism
from comb_spec_searcher.strategies.rule import VerificationRule

RULE = (
    "pairs of specifications from real searches over grammars with near copies of the same "
    "nonterminals: the same grammar twice, an isomorphic copy (renamed, alternatives and "
    "factors permuted, chains of unary productions inserted), a mutated copy, another start, "
    "and normal-form grammars with references sent to look-alikes; and pairs returned by the "
    "parallel finders; some of them, or the bijection, reloaded from JSON. "
    "Isomorphism tested both ways and reflexively; every constructed bijection run on all "
    "objects of the sizes in the bound, forth and back. Non-trivial: a bijection between "
    "specifications of at least 4 rules with a product was constructed and at least 5 objects "
    "were mapped, or two different specifications were told apart"
)


def specs_of(case):
    out = []
    for k in ("a", "b"):
        with guard("search"):
            css, spec = run_search(case[k])
        if spec is None:
            raise Skip("no specification")
        if len(spec.rules_dict) > 30:
            raise Skip("too many rules")
        out.append(spec)
    return reloaded(case, out)


def reloaded(case, specs):
    """some of the specifications go through JSON first"""
    out = []
    for k, spec in enumerate(specs):
        if case.get("reload", 0) >> k & 1:
            with guard("JSON round trip"):
                spec = CombinatorialSpecification.from_dict(
                    json.loads(json.dumps(spec.to_jsonable()))
                )
        out.append(spec)
    return out


def check_bijection(bij, s1, s2, nmax):
    total = 0
    for n in range(nmax + 1):
        dom = list(s1.root.true_objects(n))
        cod = list(s2.root.true_objects(n))
        img = []
        for o in dom:
            with guard("map"):
                im = bij.map(o)
            if im.size() != n:
                raise Violation("size %d is mapped to size %d" % (n, im.size()))
            img.append(im)
            with guard("inverse_map"):
                back = bij.inverse_map(im)
            if back != o:
                raise Violation("%r -> %r -> %r" % (o, im, back))
        if len(set(img)) != len(img):
            raise Violation("map is not injective for size %d" % n)
        if set(img) != set(cod):
            raise Violation(
                "map is not onto for size %d: %d of %d objects" % (n, len(set(img)), len(cod))
            )
        for o in cod:
            with guard("inverse_map"):
                back = bij.inverse_map(o)
            with guard("map"):
                if bij.map(back) != o:
                    raise Violation("map(inverse_map(%r)) differs" % (o,))
        total += len(dom)
    return total


def all_atoms(spec):
    return all(
        c.is_atom() for c, r in spec.rules_dict.items()
        if isinstance(r, VerificationRule) and not c.is_empty()
    )


def check(case):
    return check_pair(case, *specs_of(case))


def check_found(case):
    """bijections between what the parallel finders return"""
    with guard("search"):
        try:
            _, res = c13.find(case)
        except Violation as e:
            # the finder itself belongs to C13
            raise Skip("the finder failed") from e
    if res is None:
        raise Skip("nothing found")
    return check_pair(case, *reloaded(case, res))


def check_pair(case, s1, s2):
    tags = {case["kind"]}
    for x in (s1, s2):
        tags |= spec_tags(x)
    with guard("isomorphism check"):
        i12 = Isomorphism.check(s1, s2)
        i21 = Isomorphism.check(s2, s1)
    if bool(i12) != bool(i21):
        raise Violation("isomorphism test is not symmetric: %r, %r" % (i12, i21))
    for x in (s1, s2):
        if all_atoms(x) and not x.root.is_empty():
            with guard("reflexive isomorphism check"):
                if not Isomorphism.check(x, x):
                    raise Violation("a specification is not isomorphic to itself")
    total = 0
    made = 0
    pairs = [(s1, s2), (s2, s1)]
    if case.get("self", True):
        pairs.append((s1, s1))
    for x, y in pairs:
        with guard("construct"):
            bij = Bijection.construct(x, y)
        if bij is None:
            continue
        made += 1
        if not Isomorphism.check(x, y):
            raise Violation("bijection between specifications that are not isomorphic")
        if case.get("reload", 0) & 4:
            with guard("JSON round trip of the bijection"):
                bij = Bijection.from_dict(json.loads(json.dumps(bij.to_jsonable())))
        nmax = min(choose_n(x.root, cap=60, top=8), choose_n(y.root, cap=60, top=8))
        if x is not y:
            total += check_bijection(bij, x, y, nmax)
        else:
            check_bijection(bij, x, y, min(nmax, 5))
    tags.add("iso" if i12 else "not iso")
    big = min(len(s1.rules_dict), len(s2.rules_dict)) >= 4
    if i12 and total:
        tags.add("iso:" + case["kind"])
    nt = big and (total >= 5 or (not i12 and case["kind"] in ("mut", "sub", "redir")))
    return {"nt": nt, "tags": sorted(tags)}


def with_reload(strategy):
    return st.builds(
        lambda case, r: {**case, "reload": r}, strategy, st.sampled_from([0, 0, 0, 1, 2, 3, 4, 4])
    )


PARTS = [
    Part("pairs", lambda: with_reload(isogen.pair_case()), check, 6000, 100000, timeout=10),
    Part("nested", lambda: with_reload(isogen.pair_case(nf=True)), check, 3000, 60000, timeout=10),
    Part("folds", lambda: with_reload(isogen.pair_case(dup=True)), check, 1500, 30000, timeout=10),
    Part("finder", lambda: with_reload(
        st.one_of(isogen.finder_case(), isogen.finder_case(S_max=0, rich=True))), check_found, 2000, 40000, timeout=10),
]
