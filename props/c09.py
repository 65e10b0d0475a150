"""C09: every rule form counts its parent correctly from its children."""
from lib import ruleforms
from lib.engine import Skip, Violation, choose_n
from lib.refmodels import clean
from lib.runner import Part
from lib.specoracle import guard

RULE = (
    "random class of a grammar universe (0-3 statistics, arbitrary names), random strategy "
    "(union, product, unary, symmetry; statistics kept, dropped, merged, renamed, exchanged), "
    "all derived forms: plain, reverse for every child, equivalence, its reverse, and a chain "
    "of up to 4 unary steps in both directions; sub-term providers are bound to the DP truth "
    "and the computed terms compared for all sizes. Non-trivial: at least two forms, one of "
    "which is not plain, were compared on a class with at least 3 objects"
)


def provider(cls, cache):
    def get(n):
        d = cache.setdefault(cls, {})
        if n not in d:
            d[n] = cls.true_terms(n) if n >= 0 else None
            if n < 0:
                d[n] = cls.true_terms(0).__class__()
        return d[n]

    return get


def bound(rule, order):
    tops = [choose_n(c, cap=150, top=7) for c in (rule.comb_class,) + tuple(rule.children)]
    return max(2, min(tops))


def bare(name, rule, cache, nmax):
    """the constructors a strategy gives for a class alone, without its children"""
    strat = rule.strategy
    cls = rule.comb_class
    with guard("%s: constructor without children" % name):
        if name == "plain":
            cons = strat.constructor(cls)
        else:
            cons = strat.reverse_constructor(rule.idx, rule.original_rule.comb_class)
        if name == "plain" and tuple(strat.shifts(cls)) != tuple(rule.shifts()):
            raise Violation("%r: shifts %r, without children %r"
                            % (strat, rule.shifts(), strat.shifts(cls)))
    subs = tuple(provider(c, cache) for c in rule.children)
    own = []
    for n in range(nmax + 1):
        with guard("%s: terms of the constructor, %r" % (name, strat)):
            own.append(cons.get_terms(own.__getitem__, subs, n))
        if clean(own[n]) != clean(cls.true_terms(n)):
            raise Violation("%s: constructor of %r without children counts %r for size %d, truth is %r"
                            % (name, strat, clean(own[n]), n, clean(cls.true_terms(n))))


def check(case):
    cls, rules = ruleforms.derive(case)
    tags = set()
    total = 0
    for name, rule in rules:
        if rule.comb_class.is_empty() and name != "reverse":
            continue
        with guard("%s: features" % name):
            tags |= ruleforms.features(name, rule)
        nmax = bound(rule, case["order"])
        cache = {}
        with guard("%s form of %r" % (name, rule.strategy)):
            rule.subterms = tuple(provider(c, cache) for c in rule.children)
        sizes = list(range(nmax + 1))
        if case["order"] == 1:
            sizes.reverse()
        elif case["order"] == 2:
            sizes = sizes[::2] + sizes[1::2]
        for n in sizes:
            with guard("%s form, get_terms(%d), %r" % (name, n, rule.strategy)):
                got = clean(rule.get_terms(n))
            want = clean(rule.comb_class.true_terms(n))
            total += sum(want.values())
            if got != want:
                raise Violation(
                    "%s form %s of %r: %r -> %r counts %r for size %d, truth is %r"
                    % (
                        name,
                        type(rule).__name__,
                        rule.strategy,
                        rule.comb_class,
                        rule.children,
                        got,
                        n,
                        want,
                    )
                )
            names = rule.comb_class.extra_parameters
            for p in list(want)[:3] + [tuple(n + 5 for _ in names)]:
                with guard("%s form, count_objects_of_size" % name):
                    c = rule.count_objects_of_size(n, **dict(zip(names, p)))
                if c != want.get(p, 0):
                    raise Violation(
                        "%s form: count_objects_of_size(%d, %r) = %r" % (name, n, p, c)
                    )
        if case["order"] == 0 and name in ("plain", "reverse"):
            bare(name, rule, cache, nmax)
        for c, d in cache.items():
            for n, t in d.items():
                if n >= 0 and clean(t) != clean(c.true_terms(n)):
                    raise Violation("%s form changed the terms of its child" % name)
    if not rules:
        raise Skip("no rule")
    return {
        "nt": len(rules) >= 2 and any(x != "plain" for x, _ in rules) and total >= 3,
        "tags": sorted(tags),
    }


PARTS = [
    Part("rules", lambda: ruleforms.rule_case(), check, 12000, 150000),
    Part("params", lambda: ruleforms.rule_case(min_S=2), check, 6000, 100000),
]
