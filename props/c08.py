"""C08: random sampling from a specification is exactly uniform."""
from collections import defaultdict
from fractions import Fraction

from hypothesis import strategies as st

from lib import boot, gen, ruleforms
from lib.boot import Enumerator, NotEnumerable, TooManyOutcomes
from lib.engine import Skip, Violation, choose_n, run_search
from lib.gen import ints
from lib.runner import Part
from lib.specoracle import guard, spec_tags

from comb_spec_searcher.exception import InvalidOperationError
from comb_spec_searcher.strategies.constructor import Complement, Quotient
from comb_spec_searcher.strategies.rule import ReverseRule, VerificationRule

from props.c07 import by_param, supports_objects

RULE = (
    "every decision of the random source is enumerated (exact rational probabilities): at "
    "every rule of a specification, and at every rule form with sub-counts bound to the "
    "truth, the probability of each composition of parts must be the number of objects it "
    "accounts for over the parent's count, and preimages must be picked uniformly; small "
    "sizes are enumerated end to end. Sizes and parameter values without objects must be "
    "refused with InvalidOperationError. Non-trivial: a distribution over at least 2 objects "
    "of a class with a non-verification rule was checked"
)


def describe(parts, kids):
    """what a tuple of parts descends into"""
    out = []
    for x, c in zip(parts, kids):
        out.append(None if x is None else (x.n, c.get_parameters(x)))
    return tuple(out)


def check_rule(rule, n, p, objs, what, budget=260):
    """exact distribution at one rule; objs are the parent's objects"""
    kids = rule.children
    names = rule.comb_class.extra_parameters
    params = dict(zip(names, p))
    want = defaultdict(int)
    with guard(what + ": forward map"):
        for o in objs:
            want[describe(rule.forward_map(o), kids)] += 1
    log = []

    def sampler(i, c):
        def sample(n, **kw):
            q = tuple(kw[k] for k in c.extra_parameters)
            if set(kw) != set(c.extra_parameters):
                raise Violation("%s: child %d sampled with %r" % (what, i, kw))
            have = by_param(c, n).get(q) if n >= 0 else None
            if not have:
                raise Violation(
                    "%s: descends into child %d with size %d, %r: no objects" % (what, i, n, kw)
                )
            log.append((i, n, q))
            return have[0]

        return sample

    saved = rule.subsamplers
    rule.subsamplers = tuple(sampler(i, c) for i, c in enumerate(kids))
    got = defaultdict(Fraction)
    picks = defaultdict(lambda: defaultdict(Fraction))
    total = Fraction(0)

    def run():
        del log[:]
        o = rule.random_sample_object_of_size(n, **params)
        key = [None] * len(kids)
        for i, m, q in log:
            if key[i] is not None:
                raise Violation("%s: child %d sampled twice" % (what, i))
            key[i] = (m, q)
        return tuple(key), o

    try:
        with guard(what + ", sampling"):
            for prob, (key, o) in Enumerator(budget).outcomes(run):
                got[key] += prob
                picks[key][o] += prob
                total += prob
    finally:
        rule.subsamplers = saved
    if total != 1:
        raise RuntimeError("probabilities do not add up")
    cnt = len(objs)
    for key in set(got) | set(want):
        if got[key] != Fraction(want[key], cnt):
            raise Violation(
                "%s: descends into %r with probability %s, should be %d/%d"
                % (what, key, got[key], want[key], cnt)
            )
        for o, pr in picks[key].items():
            if not rule.comb_class.contains(o) or describe(rule.forward_map(o), kids) != key:
                raise Violation("%s: sampled %r for parts %r" % (what, o, key))
        vals = set(picks[key].values())
        if len(vals) > 1:
            raise Violation("%s: preimages are not picked uniformly: %r" % (what, vals))
        if isinstance(rule.strategy, ruleforms.Fold):
            m = rule.constructor.m
            if len(picks[key]) != m:
                raise Violation("%s: only %d of %d preimages" % (what, len(picks[key]), m))
    return len(want)


def check_spec(case):
    with guard("search"):
        css, spec = run_search(case)
    if spec is None:
        return {"nt": False, "tags": ["nospec"]}
    with guard("rules"):
        ok = supports_objects(spec)
    if not ok:
        return {"nt": False, "tags": ["reverse rule"]}
    start = css.start_class
    names = start.extra_parameters
    nmax = choose_n(start, cap=60, top=6)
    tags = set(spec_tags(spec)) | {case["db"]}
    rich = False
    # refusals, and warming up of every cache
    for n in range(nmax + 1):
        truth = by_param(start, n)
        probes = list(truth) + [tuple(0 for _ in names), tuple(n + 5 for _ in names)]
        for p in probes:
            params = dict(zip(names, p))
            what = "size %d, parameters %r" % (n, params)
            if p not in truth:
                try:
                    with guard("refusal, " + what, allow=InvalidOperationError):
                        o = spec.random_sample_object_of_size(n, **params)
                except InvalidOperationError:
                    tags.add("refused")
                    continue
                raise Violation("%s: sampled %r although there is no object" % (what, o))
            with guard("sampling, " + what):
                o = spec.random_sample_object_of_size(n, **params)
            if o not in truth[p]:
                raise Violation("%s: sampled %r, not an object" % (what, o))
    # every rule
    work = 500
    for c, rule in list(spec.rules_dict.items())[:12]:
        if isinstance(rule, VerificationRule):
            continue
        for n in range(min(5, choose_n(c, cap=30, top=5)) + 1):
            for p, objs in by_param(c, n).items():
                if len(objs) > min(40, work):
                    continue
                work -= len(objs)
                k = check_rule(
                    rule,
                    n,
                    p,
                    objs,
                    "%s of %r at %r, size %d %r"
                    % (type(rule).__name__, rule.strategy, c, n, p),
                )
                rich = rich or len(objs) > 1
                if k > 1:
                    tags.add("choice")
    # end to end
    budget = 400
    for n in range(nmax + 1):
        for p, objs in by_param(start, n).items():
            if budget < 60 or len(objs) > 12:
                continue
            params = dict(zip(names, p))
            got = defaultdict(Fraction)
            runs = 0
            try:
                with guard("sampling, size %d %r" % (n, params), allow=TooManyOutcomes):
                    for prob, o in Enumerator(budget).outcomes(
                        lambda: spec.random_sample_object_of_size(n, **params)
                    ):
                        got[o] += prob
                        runs += 1
            except TooManyOutcomes:
                budget = 0
                continue
            budget -= runs
            for o in set(got) | set(objs):
                if got[o] != Fraction(1, len(objs)) or o not in objs:
                    raise Violation(
                        "size %d %r: %r is sampled with probability %s, there are %d objects"
                        % (n, params, o, got[o], len(objs))
                    )
            if len(objs) > 1:
                tags.add("endtoend")
    return {"nt": rich, "tags": sorted(tags)}


def check_forms(case):
    cls, rules = ruleforms.derive(case)
    if not rules:
        raise Skip("no rule")
    tags = set()
    rich = False
    work = 600
    for name, rule in rules:
        if rule.comb_class.is_empty():
            continue
        with guard("constructor"):
            if isinstance(rule, ReverseRule) or isinstance(
                rule.constructor, (Complement, Quotient)
            ):
                continue
        with guard("features"):
            tags |= ruleforms.features(name, rule)

        def counts(c):
            def rec(n, **kw):
                if n < 0:
                    return 0
                return c.true_terms(n)[tuple(kw[k] for k in c.extra_parameters)]

            return rec

        kids = rule.children
        rule.subrecs = tuple(counts(c) for c in kids)
        rule.subterms = tuple((lambda n, c=c: c.true_terms(n)) for c in kids)
        tops = [choose_n(c, cap=60, top=5) for c in (rule.comb_class,) + tuple(kids)]
        for n in range(min(tops) + 1):
            for p, objs in list(by_param(rule.comb_class, n).items())[:8]:
                if len(objs) > min(60, work):
                    continue
                work -= len(objs)
                k = check_rule(
                    rule,
                    n,
                    p,
                    objs,
                    "%s form of %r at %r, size %d %r"
                    % (name, rule.strategy, rule.comb_class, n, p),
                )
                rich = rich or len(objs) > 1
                if k > 1:
                    tags.add("choice")
    return {"nt": rich, "tags": sorted(tags)}


def check_deep(case):
    """large sizes with the recursion limit of a fresh interpreter"""
    with guard("search"):
        css, spec = run_search(case)
    if spec is None:
        raise Skip("no specification")
    rules = len(spec.rules_dict)
    if not 3 <= rules <= 12:
        raise Skip("number of rules")
    start = css.start_class
    n = min(400, 1000 // rules + case["extra"])
    tags = set()
    for m in (n, n - 1):
        want = start.true_terms(m)[()]
        with boot.default_limit():
            with guard("count_objects_of_size(%d)" % m):
                got = spec.count_objects_of_size(m)
            if got != want:
                raise Violation("count_objects_of_size(%d) = %r, truth %r" % (m, got, want))
            try:
                with guard("sampling, size %d" % m, allow=InvalidOperationError):
                    o = spec.random_sample_object_of_size(m)
            except InvalidOperationError:
                if want:
                    raise Violation("size %d is refused, there are %d objects" % (m, want))
                tags.add("refused")
                continue
        if not want:
            raise Violation("size %d has no objects, one is sampled" % m)
        if o.n != m or o.tag != start.tag or start.g.valid_size(start.seq, o.trees) != m:
            raise Violation("size %d: sampled something else (size %s)" % (m, o.n))
        if want > 1:
            tags.add("sampled")
    return {"nt": "sampled" in tags, "tags": sorted(tags) + list(spec_tags(spec))}


PARTS = [
    Part("spec", lambda: gen.search_case(), check_spec, 3000, 50000),
    Part("params", lambda: gen.search_case(min_S=2), check_spec, 2000, 40000),
    Part("dup", lambda: gen.search_case(dup=True), check_spec, 1000, 20000),
    Part("forms", lambda: ruleforms.rule_case(), check_forms, 5000, 80000),
    Part("paramforms", lambda: ruleforms.rule_case(min_S=2), check_forms, 3000, 60000),
    Part("folds", lambda: ruleforms.rule_case(dup=True), check_forms, 800, 20000),
    Part(
        "deep",
        lambda: gen.deep_case(),
        check_deep,
        120,
        3000,
        timeout=20,
    ),
]
