"""C10: declared shifts bound what a rule reads when counting."""
from collections import Counter

from hypothesis import strategies as st

from lib import gen, ruleforms
from lib.engine import Skip, Violation, choose_n, mk_searcher, run_search
from lib.refmodels import clean
from lib.runner import Part
from lib.specoracle import guard

from props.c09 import bound, provider

RULE = (
    "part rules: forms as in C09, every call to a sub-term provider (and to the rule's own "
    "terms) recorded while computing each size and compared with n minus the declared shift; "
    "part specs: specifications from real searches with forest and other databases, counted "
    "size by size with a dependency monitor (no class may need a term of itself that is being "
    "computed, and rules read at most n minus their shift). Non-trivial: a product/reverse "
    "form with a non-zero shift was observed (rules); a specification of at least 3 rules with "
    "a cycle (specs)"
)


def check(case):
    cls, rules = ruleforms.derive(case)
    if not rules:
        raise Skip("no rule")
    tags = set()
    nt = False
    for name, rule in rules:
        if rule.comb_class.is_empty() and name != "reverse":
            continue
        with guard("%s: features" % name):
            tags |= ruleforms.features(name, rule)
        kids = rule.children
        with guard("%s: shifts" % name):
            shifts = tuple(rule.shifts())
            labels = {}
            key = rule.forest_key(lambda c: labels.setdefault(c, len(labels)))
        if len(shifts) != len(kids):
            raise Violation("%s: %d shifts for %d children" % (name, len(shifts), len(kids)))
        if (key.parent, key.children, tuple(key.shifts)) != (
            labels[rule.comb_class],
            tuple(labels[c] for c in kids),
            shifts,
        ):
            raise Violation("%s: forest key %r, shifts %r" % (name, key, shifts))
        if any(shifts):
            nt = True
            tags.add("neg" if min(shifts) < 0 else "pos")
        cache = {}
        reads = []
        truth = [provider(c, cache) for c in kids]

        def spy(i):
            def get(n):
                reads.append((i, n))
                return truth[i](n)

            return get

        own = provider(rule.comb_class, cache)

        def spy_own(n):
            reads.append((-1, n))
            return own(n)

        compute = getattr(rule, "_ensure_level", rule.get_terms)
        rule.subterms = tuple(spy(i) for i in range(len(kids)))
        rule.get_terms = spy_own
        nmax = bound(rule, 0)
        try:
            for n in range(nmax + 1):
                del reads[:]
                with guard("%s form, terms of size %d, %r" % (name, n, rule.strategy)):
                    compute(n)
                for i, m in reads:
                    if i < 0:
                        if m >= n:
                            raise Violation(
                                "%s form of %r: reads its own terms of size %d for size %d"
                                % (name, rule.strategy, m, n)
                            )
                    elif m > n - shifts[i]:
                        raise Violation(
                            "%s form of %r on %r: reads size %d of child %d for size %d, "
                            "declared shift %d"
                            % (name, rule.strategy, rule.comb_class, m, i, n, shifts[i])
                        )
        finally:
            rule.__dict__.pop("get_terms", None)
    return {"nt": nt, "tags": sorted(tags)}


def check_spec(case):
    with guard("search"):
        css, spec = run_search(case)
    if spec is None:
        return {"nt": False, "tags": ["nospec"]}
    tags = {case["db"]}
    rules = dict(spec.rules_dict)
    active = {}
    shifted = 0
    for c, r in rules.items():
        with guard("shifts"):
            sh = tuple(r.shifts())
        if any(sh):
            shifted += 1
        if r.children and type(r).__name__ == "ReverseRule":
            tags.add("reverse")
        instrument(c, r, sh, active)
    nmax = choose_n(spec.root, cap=150, top=8)
    for n in range(nmax + 1):
        with guard("counting size %d" % n):
            got = clean(spec.get_terms(n))
        if got != clean(spec.root.true_terms(n)):
            raise Violation("wrong terms of size %d" % n)
    return {"nt": len(rules) >= 3 and shifted > 0, "tags": sorted(tags)}


def instrument(c, rule, shifts, active):
    """record reads of a rule inside a specification"""
    if not hasattr(rule, "_ensure_level") or not hasattr(rule, "terms_cache"):
        return
    orig_level = rule._ensure_level
    stack = active.setdefault("stack", [])

    def wrap(i, f):
        def get(n):
            if stack and stack[-1][0] is rule:
                # terms are computed one size after the other
                top = len(rule.terms_cache)
                if n > top - shifts[i]:
                    raise Violation(
                        "rule of %r reads size %d of child %d for size %d, shift %d"
                        % (c, n, i, top, shifts[i])
                    )
            return f(n)

        return get

    def level(n):
        if n < len(rule.terms_cache):
            return None
        for r, m in stack:
            if r is rule:
                # terms are computed in order: size n is not available yet
                raise Violation(
                    "terms of %r of size %d depend on its size %d"
                    % (c, len(rule.terms_cache), n)
                )
        stack.append((rule, n))
        try:
            return orig_level(n)
        finally:
            stack.pop()

    if rule.subterms is not None:
        rule.subterms = tuple(wrap(i, f) for i, f in enumerate(rule.subterms))
    rule._ensure_level = level


PARTS = [
    Part("rules", lambda: ruleforms.rule_case(), check, 10000, 150000),
    Part("specs", lambda: gen.search_case(), check_spec, 4000, 40000),
    Part("revspecs", lambda: gen.reverse_case(), check_spec, 3000, 30000),
]
