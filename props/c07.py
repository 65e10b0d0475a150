"""C07: object generation yields exactly the objects of the class, each once."""
from collections import Counter
from itertools import product

from lib import gen, ruleforms
from lib.engine import Skip, Violation, choose_n, run_search
from lib.refmodels import clean
from lib.runner import Part
from lib.specoracle import guard, spec_tags

from comb_spec_searcher.strategies.constructor import Complement, Quotient
from comb_spec_searcher.strategies.rule import ReverseRule, VerificationRule

RULE = (
    "part spec/dup/reverse: specifications of real searches whose rules implement object maps; "
    "generated objects of every size and parameter value compared as multisets with an "
    "independent enumeration and with the specification's own count; part rules/folds: "
    "derived rule forms as in C09 (plus rules whose backward map has several preimages): "
    "forward and backward map inverse to each other on all objects up to a bound, parts in "
    "the child classes, objects built from the children's true objects equal to the parent's. "
    "Non-trivial: at least 3 objects and a rule that is not a verification rule"
)


def by_param(cls, n):
    res = {}
    for o in cls.true_objects(n):
        res.setdefault(cls.get_parameters(o), []).append(o)
    return res


def same(got, want, what):
    a, b = Counter(got), Counter(want)
    if a != b:
        extra = list((a - b).elements())[:2]
        miss = list((b - a).elements())[:2]
        raise Violation("%s: extra/repeated %r, missing %r" % (what, extra, miss))


def supports_objects(spec):
    for r in spec.rules_dict.values():
        if isinstance(r, VerificationRule):
            continue
        if isinstance(r, ReverseRule) or isinstance(r.constructor, (Complement, Quotient)):
            return False
    return True


def check_spec(case):
    with guard("search"):
        css, spec = run_search(case)
    if spec is None:
        return {"nt": False, "tags": ["nospec"]}
    with guard("rules"):
        ok = supports_objects(spec)
    if not ok:
        return {"nt": False, "tags": ["reverse rule"]}
    start = css.start_class
    nmax = choose_n(start, cap=120, top=7)
    sizes = list(range(nmax + 1))
    if case.get("order"):
        sizes.reverse()
    total = 0
    names = start.extra_parameters
    for n in sizes:
        want = by_param(start, n)
        total += sum(map(len, want.values()))
        with guard("get_objects(%d)" % n):
            objs = spec.get_objects(n)
            got = {p: list(v) for p, v in objs.items() if v}
        if set(got) != set(want):
            raise Violation(
                "size %d: objects for parameters %r, expected %r"
                % (n, sorted(got)[:5], sorted(want)[:5])
            )
        probes = list(want) + [tuple(n + 3 for _ in names)]
        for p in probes:
            params = dict(zip(names, p))
            what = "size %d, parameters %r" % (n, params)
            with guard("generate_objects_of_size, " + what):
                lst = list(spec.generate_objects_of_size(n, **params))
            with guard("count_objects_of_size, " + what):
                cnt = spec.count_objects_of_size(n, **params)
            same(lst, want.get(p, []) , what)
            if p in got:
                same(got[p], want.get(p, []), "get_objects, " + what)
            if cnt != len(lst):
                raise Violation("%s: %d objects, count %d" % (what, len(lst), cnt))
    tags = set(spec_tags(spec)) | {case["db"]}
    # maps of every rule of the specification
    for c, r in list(spec.rules_dict.items())[:12]:
        if not isinstance(r, VerificationRule):
            check_maps(r, type(r).__name__, min(4, choose_n(c, cap=25, top=4)))
    nonver = sum(not isinstance(r, VerificationRule) for r in spec.rules_dict.values())
    return {"nt": total >= 3 and nonver > 0, "tags": sorted(tags)}


def part_ok(rule, parts, what):
    if not isinstance(parts, tuple) or len(parts) != len(rule.children):
        raise Violation("%s: %d parts for %d children" % (what, len(parts), len(rule.children)))
    if all(x is None for x in parts):
        raise Violation("%s: no part" % what)
    for x, c in zip(parts, rule.children):
        if x is not None and not c.contains(x):
            raise Violation("%s: part %r is not in %r" % (what, x, c))


def check_maps(rule, name, nmax):
    """forward and backward maps on every object up to a size"""
    many = isinstance(rule.strategy, ruleforms.Fold)
    cls = rule.comb_class
    images = Counter()
    total = 0
    for n in range(nmax + 1):
        for o in cls.true_objects(n):
            what = "%s form of %r on %r" % (name, rule.strategy, o)
            with guard(what + ", forward_map"):
                parts = rule.forward_map(o)
            part_ok(rule, parts, what)
            with guard(what + ", backward_map"):
                back = list(rule.backward_map(parts))
            if many:
                if back.count(o) != 1:
                    raise Violation("%s: preimages of the parts are %r" % (what, back))
            elif back != [o]:
                raise Violation("%s: parts %r map back to %r" % (what, parts, back))
            images[parts] += 1
            total += 1
    if not many and images and max(images.values()) > 1:
        raise Violation("%s form of %r: not injective" % (name, rule.strategy))
    return total


def check_children(rule, name, nmax):
    """objects of single children of a union map back into the parent"""
    kids = rule.children
    for i, c in enumerate(kids):
        if c.is_empty():
            continue
        for n in range(nmax + 1):
            for o in c.true_objects(n)[:20]:
                parts = tuple(o if j == i else None for j in range(len(kids)))
                what = "%s form of %r, part %r of child %d" % (name, rule.strategy, o, i)
                with guard(what):
                    back = list(rule.backward_map(parts))
                if not back or any(not rule.comb_class.contains(b) for b in back):
                    raise Violation("%s maps to %r" % (what, back))
                for b in back:
                    with guard(what):
                        again = rule.forward_map(b)
                    if again != parts:
                        raise Violation("%s maps to %r and then to %r" % (what, b, again))


def check_objects(rule, name, nmax):
    cls = rule.comb_class

    def provider(c):
        return lambda n: by_param(c, n) if n >= 0 else {}

    rule.subobjects = tuple(provider(c) for c in rule.children)
    for n in range(nmax + 1):
        want = by_param(cls, n)
        with guard("%s form of %r: objects of size %d" % (name, rule.strategy, n)):
            objs = rule.get_objects(n)
            got = {p: list(v) for p, v in objs.items() if v}
        if set(got) != set(want):
            raise Violation(
                "%s form of %r: objects of size %d have parameters %r, expected %r"
                % (name, rule.strategy, n, sorted(got)[:5], sorted(want)[:5])
            )
        for p in want:
            same(got[p], want[p], "%s form of %r, size %d %r" % (name, rule.strategy, n, p))


def check_rules(case):
    cls, rules = ruleforms.derive(case)
    if not rules:
        raise Skip("no rule")
    tags = set()
    total = 0
    checked = 0
    for name, rule in rules:
        if rule.comb_class.is_empty():
            continue
        o = rule
        rev = ruleforms.up_rule(rule)
        if name in ("reverse", "revunary", "unary") and rev:
            while not isinstance(o, ReverseRule):
                o = o.original_rule
            if len([c for c in o.original_rule.children if not c.is_empty()]) != 1:
                continue
        tops = [choose_n(c, cap=40, top=5) for c in (rule.comb_class,) + tuple(rule.children)]
        nmax = min(tops)
        with guard("features"):
            tags |= ruleforms.features(name, rule)
            maps = isinstance(rule, ReverseRule) or isinstance(
                rule.constructor, (Complement, Quotient)
            )
        total += check_maps(rule, name, nmax)
        with guard("kind"):
            prod = type(rule.constructor).__name__ == "CartesianProduct"
        if not prod:
            check_children(rule, name, nmax)
        if not maps:
            check_objects(rule, name, nmax)
        checked += 1
    return {"nt": total >= 3 and checked >= 1, "tags": sorted(tags)}


PARTS = [
    Part("spec", lambda: gen.search_case(), check_spec, 4000, 50000),
    Part("params", lambda: gen.search_case(min_S=2), check_spec, 2500, 40000),
    Part("dup", lambda: gen.search_case(dup=True), check_spec, 2500, 30000),
    Part("reverse", lambda: gen.reverse_case(), check_spec, 1000, 20000),
    Part("rules", lambda: ruleforms.rule_case(), check_rules, 6000, 100000),
    Part("folds", lambda: ruleforms.rule_case(dup=True), check_rules, 1500, 20000),
]
