"""Independent judgement of specifications."""
import traceback
from collections import Counter

from . import boot
from .engine import Skip, TooBig, Violation
from .refmodels import INF, clean, lfp
from comb_spec_searcher import (
    CartesianProductStrategy,
    DisjointUnionStrategy,
    StrategyFactory,
)
from comb_spec_searcher.exception import StrategyDoesNotApply
from comb_spec_searcher.strategies.rule import (
    AbstractRule,
    EquivalencePathRule,
    EquivalenceRule,
    ReverseRule,
    Rule,
    VerificationRule,
)
from comb_spec_searcher.strategies.strategy import AbstractStrategy, EmptyStrategy


class CaseTimeout(BaseException):
    pass


class guard:
    """any exception raised through library frames is a violation"""

    def __init__(self, what, allow=()):
        self.what = what
        self.allow = allow

    def __enter__(self):
        return self

    def __exit__(self, et, e, tb):
        if et is None or not issubclass(et, Exception):
            return False
        if issubclass(et, (Violation, Skip, TooBig)) or (
            self.allow and issubclass(et, self.allow)
        ):
            return False
        frames = traceback.extract_tb(tb)
        lib = [
            f
            for f in frames
            if "/comb_spec_searcher/" in f.filename and "/verif/" not in f.filename
        ]
        if not lib:
            return False
        last = lib[-1]
        raise Violation(
            "%s: %s: %s at %s:%s (%s)"
            % (
                self.what,
                et.__name__,
                str(e)[:300],
                last.filename.split("/comb_spec_searcher/")[-1],
                last.lineno,
                last.name,
            )
        ) from e


def sid(strategy):
    """identity of a strategy: kind and settings"""
    return (
        type(strategy).__module__,
        type(strategy).__qualname__,
        repr(strategy),
        tuple(
            sorted(
                (k, repr(v))
                for k, v in vars(strategy).items()
                if k in ("_ignore_parent", "_inferrable", "_possibly_empty", "_workable")
            )
        ),
    )


def pack_rules(pack, comb_class):
    """every (strategy, parent, children) the pack yields on a class"""
    out = []
    for strat in pack:
        if isinstance(strat, StrategyFactory):
            items = list(strat(comb_class))
        else:
            items = [strat]
        for x in items:
            try:
                rule = x(comb_class) if isinstance(x, AbstractStrategy) else x
                out.append((rule.strategy, rule.comb_class, tuple(rule.children)))
            except StrategyDoesNotApply:
                continue
    return out


class PackIndex:
    def __init__(self, pack):
        self.pack = pack
        self.cache = {}

    def rules(self, c):
        r = self.cache.get(c)
        if r is None:
            r = {(sid(s), p, ch) for s, p, ch in pack_rules(self.pack, c)}
            self.cache[c] = r
        return r

    def genuine(self, strategy, parent, children):
        key = (sid(strategy), parent, tuple(children))
        return any(key in self.rules(c) for c in (parent,) + tuple(children))


def true_shifts(strategy, parent, children):
    """shifts from the definition: union 0, product the other minimum sizes"""
    if isinstance(strategy, CartesianProductStrategy):
        mins = [c.minimum_size_of_object() for c in children]
        return tuple(sum(mins) - m for m in mins)
    if isinstance(strategy, DisjointUnionStrategy):
        return (0,) * len(children)
    return None


def base_rules(rule):
    """underlying plain/verification rules of a rule of any form"""
    if isinstance(rule, EquivalencePathRule):
        for r in rule.rules:
            yield from base_rules(r)
    elif isinstance(rule, (EquivalenceRule, ReverseRule)):
        yield from base_rules(rule.original_rule)
    else:
        yield rule


def forms(rule):
    """tags describing the rule form"""
    out = [type(rule).__name__]
    if isinstance(rule, EquivalencePathRule):
        for r in rule.rules:
            out += ["path:" + f for f in forms(r)]
    elif isinstance(rule, (EquivalenceRule, ReverseRule)):
        out += [type(rule).__name__ + "/" + f for f in forms(rule.original_rule)]
    else:
        k = (
            "product"
            if isinstance(rule.strategy, CartesianProductStrategy)
            else "union" if isinstance(rule.strategy, DisjointUnionStrategy) else "ver"
        )
        out[0] += ":" + k
    return out


def independent_shifts(rule):
    if isinstance(rule, EquivalencePathRule):
        return (0,)
    if isinstance(rule, EquivalenceRule):
        return (0,)
    if isinstance(rule, ReverseRule):
        s = independent_shifts(rule.original_rule)
        i = rule.idx
        return (-s[i],) + tuple(
            x - s[i] for j, x in enumerate(s) if j != i
        )
    if isinstance(rule, VerificationRule):
        return ()
    return true_shifts(rule.strategy, rule.comb_class, rule.children)


def check_genuine(rule, index, extra_ok=()):
    """rule is what a strategy of the pack produces, or a derived form of it"""
    if isinstance(rule, EquivalencePathRule):
        rules = list(rule.rules)
        if not rules:
            raise Violation("empty equivalence path for %r" % (rule.comb_class,))
        if rules[0].comb_class != rule.comb_class:
            raise Violation("path starts elsewhere: %r" % (rule.comb_class,))
        if len(rule.children) != 1 or rules[-1].children != rule.children:
            raise Violation("path ends elsewhere: %r" % (rule.comb_class,))
        for a, b in zip(rules, rules[1:]):
            if len(a.children) != 1 or a.children[0] != b.comb_class:
                raise Violation("broken equivalence path at %r" % (b.comb_class,))
        for r in rules:
            if len(r.children) != 1:
                raise Violation("non-unary rule in a path at %r" % (r.comb_class,))
            check_genuine(r, index, extra_ok)
        return
    if isinstance(rule, EquivalenceRule):
        orig = rule.original_rule
        kids = [c for c in orig.children if not c.is_empty()]
        if len(kids) != 1 or tuple(rule.children) != (kids[0],):
            raise Violation(
                "equivalence form of a rule with non-empty children %r" % (kids,)
            )
        if rule.comb_class != orig.comb_class:
            raise Violation("equivalence form changes its class")
        check_genuine(orig, index, extra_ok)
        return
    if isinstance(rule, ReverseRule):
        orig = rule.original_rule
        i = rule.idx
        want = (orig.comb_class,) + tuple(
            c for j, c in enumerate(orig.children) if j != i
        )
        if rule.comb_class != orig.children[i] or tuple(rule.children) != want:
            raise Violation("reverse rule with wrong classes at %r" % (rule.comb_class,))
        check_genuine(orig, index, extra_ok)
        return
    if isinstance(rule, VerificationRule):
        if isinstance(rule.strategy, EmptyStrategy):
            if not rule.comb_class.is_empty():
                raise Violation("empty rule for non-empty %r" % (rule.comb_class,))
            return
        if not rule.strategy.verified(rule.comb_class):
            raise Violation("verification does not apply to %r" % (rule.comb_class,))
        if tuple(rule.children):
            raise Violation("verification rule with children")
    if any(e(rule) for e in extra_ok):
        return
    if not index.genuine(rule.strategy, rule.comb_class, rule.children):
        raise Violation(
            "rule is not produced by the pack: %r -> %r by %r"
            % (rule.comb_class, rule.children, rule.strategy)
        )


def check_spec(spec, start, packs, extra_ok=()):
    """C02: closed, one rule per class, genuine, productive"""
    rules = dict(spec.rules_dict)
    index = MultiIndex(packs)
    if spec.root != start:
        raise Violation("root of the specification is %r" % (spec.root,))
    if start not in rules:
        if not start.is_empty():
            raise Violation("start class has no rule")
    for c, r in rules.items():
        if r.comb_class != c:
            raise Violation("rule of %r stored for %r" % (r.comb_class, c))
        for ch in r.children:
            if ch not in rules and not ch.is_empty():
                raise Violation("no rule for %r (child of %r)" % (ch, c))
        check_genuine(r, index, extra_ok)
    # reachable from the start
    seen = {start}
    todo = [start]
    while todo:
        c = todo.pop()
        if c in rules:
            for ch in rules[c].children:
                if ch not in seen:
                    seen.add(ch)
                    todo.append(ch)
    extra = [c for c in rules if c not in seen and not c.is_empty()]
    if extra:
        raise Violation("rule for unreachable class %r" % (extra[0],))
    # productivity
    for which in ("declared", "independent"):
        keys = []
        for c, r in rules.items():
            if which == "declared":
                sh = tuple(r.shifts())
            else:
                sh = independent_shifts(r)
                if sh is None:
                    sh = tuple(r.shifts())
            if len(sh) != len(r.children):
                raise Violation("%d shifts for %d children" % (len(sh), len(r.children)))
            keys.append((c, tuple(r.children), sh))
        for c in seen:
            if c not in rules:
                keys.append((c, (), ()))
        val = lfp(keys)
        bad = [c for c in seen if val.get(c, 0) != INF]
        if bad:
            raise Violation(
                "not productive (%s shifts): %r has %s computable terms"
                % (which, bad[0], val.get(bad[0]))
            )


class MultiIndex:
    def __init__(self, packs):
        self.idx = [PackIndex(p) for p in packs]

    def genuine(self, *a):
        return any(i.genuine(*a) for i in self.idx)


def check_terms(spec, start, nmax, what="specification"):
    """C01: counts equal the truth for every size and parameter value"""
    for n in range(nmax + 1):
        want = clean(start.true_terms(n))
        with guard("%s: get_terms(%d)" % (what, n)):
            got = clean(spec.get_terms(n))
        if got != want:
            raise Violation(
                "%s counts %r for size %d of %r, truth is %r"
                % (what, got, n, start, want)
            )


def spec_tags(spec, css=None):
    tags = set()
    for r in spec.rules_dict.values():
        tags.update(forms(r))
    k = len(spec.rules_dict)
    tags.add("rules:%s" % ("1" if k == 1 else "2-5" if k < 6 else "6-10" if k < 11 else ">10"))
    tags.add("params:%d" % len(spec.root.extra_parameters))
    return tags
