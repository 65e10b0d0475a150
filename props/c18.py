"""C18: JSON round trips preserve specifications, rules, packs, strategies, bijections."""
import copy
import json
import pickle
from collections import Counter
from typing import Generic, TypeVar

from hypothesis import strategies as st

from lib import gen, isogen, ruleforms
from lib.boot import RANDOM, reset
from lib.engine import Skip, TooBig, Violation, choose_n, mk_searcher, run_search
from lib.gen import ints
from lib.gram import GC, Expand, FacStrats, Gram, Retag, VAtom, VBrute, VPack, mk_pack, mk_strat
from lib.refmodels import clean
from lib.runner import Part
from lib.specoracle import check_terms, forms, guard, sid, spec_tags

from comb_spec_searcher import (
    AtomStrategy,
    CombinatorialSpecification,
    StrategyFactory,
    StrategyPack,
)
from comb_spec_searcher.exception import (
    IncorrectGeneratingFunctionError,
    SpecificationNotFound,
)
from comb_spec_searcher.isomorphism import Bijection
from comb_spec_searcher.specification import AlreadyVerified
from comb_spec_searcher.strategies.rule import (
    AbstractRule,
    EquivalencePathRule,
    EquivalenceRule,
    ReverseRule,
    VerificationRule,
)
from comb_spec_searcher.strategies.strategy import AbstractStrategy, EmptyStrategy

from props.c07 import by_param, supports_objects

RULE = (
    "X.from_dict(json.loads(json.dumps(x.to_jsonable()))) of specifications (four rule "
    "databases, pickled/used/ungrouped/expanded variants), of every rule form, of strategies "
    "and factories made in different ways, of packs and packs derived from them, and of "
    "bijections; compared by ==, by an own recursive description of the rule, and by "
    "behaviour (terms, objects, samples, equations, labels, maps). Non-trivial: a "
    "specification of at least 3 rules or a form other than plain, a pair of strategies, a "
    "pack with at least 3 strategies, a bijection mapping at least 5 objects"
)


def describe(rule):
    """what a rule is: form, class, children and what it is derived from"""
    head = (type(rule).__name__, rule.comb_class, tuple(rule.children))
    if isinstance(rule, EquivalencePathRule):
        return head + (tuple(describe(r) for r in rule.rules),)
    if isinstance(rule, EquivalenceRule):
        return head + (rule.child_idx, describe(rule.original_rule))
    if isinstance(rule, ReverseRule):
        return head + (rule.idx, describe(rule.original_rule))
    return head + (sid(rule.strategy),)


def trip(x, cls, mode=0, what=""):
    """dump and load; the dump itself is not changed by loading"""
    with guard(what + ": to_jsonable"):
        d = x.to_jsonable()
    text = json.dumps(d, sort_keys=bool(mode & 1), indent=1 if mode & 2 else None)
    with guard(what + ": from_dict"):
        return cls.from_dict(json.loads(text)), text


def same(a, b, what):
    with guard(what + ": comparison"):
        if not a == b or not b == a:
            raise Violation("%s: not equal to its round trip" % what)
        if a != b or b != a:
            raise Violation("%s: != its round trip" % what)


# -- specifications


def same_rules(a, b, what):
    if list(map(repr, a.rules_dict)) != list(map(repr, b.rules_dict)):
        if set(a.rules_dict) != set(b.rules_dict):
            raise Violation("%s: rules for other classes" % what)
    for c, r in a.rules_dict.items():
        x, y = describe(r), describe(b.rules_dict[c])
        if x != y:
            raise Violation("%s: the rule of %r is %r after %r" % (what, c, y, x))


def outcome(what, fn):
    """result or kind of refusal"""
    try:
        return ("value", fn())
    except (
        NotImplementedError,
        SpecificationNotFound,
        IncorrectGeneratingFunctionError,
    ) as e:
        return ("refused", type(e).__name__)


def objects_of(spec, n):
    return {
        k: Counter(map(repr, v)) for k, v in spec.get_objects(n).items() if v
    }


def equations(spec):
    return sorted(map(str, spec.get_equations()))


def same_behaviour(a, b, case, what, nmax):
    start = a.root
    for n in range(nmax + 1):
        with guard(what + ": get_terms"):
            x, y = clean(a.get_terms(n)), clean(b.get_terms(n))
        if x != y:
            raise Violation("%s: terms %r after %r for size %d" % (what, y, x, n))
        if n <= 5:
            if supports_objects(a):
                with guard(what + ": get_objects"):
                    x, y = (
                        outcome(what, lambda s=s: objects_of(s, n)) for s in (a, b)
                    )
                if x != y:
                    raise Violation("%s: other objects of size %d" % (what, n))
                for p in list(clean(start.true_terms(n)))[:2]:
                    names = start.extra_parameters
                    got = []
                    for s in (a, b):
                        RANDOM.reset(case["stream"])
                        with guard(what + ": sample"):
                            got.append(
                                outcome(
                                    what,
                                    lambda s=s: repr(
                                        s.random_sample_object_of_size(
                                            n, **dict(zip(names, p))
                                        )
                                    ),
                                )
                            )
                    if got[0] != got[1]:
                        raise Violation("%s: other sample of size %d" % (what, n))
    with guard(what + ": labels"):
        for c in a.rules_dict:
            if a.get_label(c) != b.get_label(c):
                raise Violation("%s: label of %r" % (what, c))
    with guard(what + ": str"):
        if str(a) != str(b):
            raise Violation("%s: printed differently" % what)
    if case["mode"] and any(
        isinstance(r.strategy, VPack) for r in a.rules_dict.values()
    ):
        # (generating functions of nested specifications take long)
        return
    with guard(what + ": equations"):
        x, y = (outcome(what, lambda s=s: equations(s)) for s in (a, b))
    if x != y:
        raise Violation("%s: equations %r after %r" % (what, y, x))


def ungrouped(spec):
    rules = []
    for r in spec.rules_dict.values():
        rules += list(r.rules) if isinstance(r, EquivalencePathRule) else [r]
    return CombinatorialSpecification(spec.root, rules, group_equiv=False)


def check_spec_trip(spec, case, what, nmax):
    before = {c: describe(r) for c, r in spec.rules_dict.items()}
    for u in case["use"]:
        with guard(what + ": use"):
            if u == "terms":
                spec.get_terms(2)
            elif u == "objects" and supports_objects(spec):
                outcome(what, lambda: spec.get_objects(2))
            elif u == "eqs":
                outcome(what, lambda: list(spec.get_equations()))
            elif u == "str":
                str(spec)
    new, text = trip(spec, CombinatorialSpecification, case["mode"], what)
    if not isinstance(new, CombinatorialSpecification):
        raise Violation("%s: loads a %s" % (what, type(new).__name__))
    if new.root != spec.root:
        raise Violation("%s: another root" % what)
    same(spec, new, what)
    same_rules(spec, new, what)
    same_behaviour(spec, new, case, what, nmax)
    check_terms(new, spec.root, min(nmax, 4), what + ", loaded")
    after = {c: describe(r) for c, r in spec.rules_dict.items()}
    if any(after.get(c) != d for c, d in before.items()):
        raise Violation("%s: dumping changed the specification" % what)
    again, text2 = trip(new, CombinatorialSpecification, case["mode"], what + " again")
    same(spec, again, what + " again")
    one, two = (json.loads(t) for t in (text, text2))
    if one["root"] != two["root"] or sorted(map(json.dumps, one["rules"])) != sorted(
        map(json.dumps, two["rules"])
    ):
        raise Violation("%s: second dump differs from the first" % what)
    return new


def check_specs(case):
    css, spec = run_search(case)
    if spec is None:
        raise Skip("no specification")
    if len(spec.rules_dict) > 40:
        raise Skip("too many rules")
    tags = {case["db"], case["variant"]}
    if case["variant"] == "ungrouped":
        with guard("ungrouped"):
            spec = ungrouped(spec)
    elif case["variant"] == "expanded":
        try:
            spec = spec.expand_verified()
        except Exception as e:  # (C19 judges the expansion itself)
            raise Skip("expansion failed") from e
    elif case["variant"] == "pickled":
        with guard("pickle"):
            spec = pickle.loads(pickle.dumps(spec))
    nmax = choose_n(spec.root, cap=60, top=6)
    tags |= spec_tags(spec)
    check_spec_trip(spec, case, "specification (%s)" % case["variant"], nmax)
    empties = sum(isinstance(r.strategy, EmptyStrategy) for r in spec.rules_dict.values())
    if empties:
        tags.add("empty rules")
    return {"nt": len(spec.rules_dict) >= 3, "tags": sorted(tags)}


# -- rules


def provide(rule):
    rule.subterms = tuple(lambda n, c=c: c.true_terms(n) if n >= 0 else Counter() for c in rule.children)
    rule.subobjects = tuple(lambda n, c=c: by_param(c, n) for c in rule.children)


def rule_behaviour(rule, nmax, what):
    out = []
    provide(rule)
    for n in range(nmax + 1):
        with guard(what + ": get_terms"):
            out.append(outcome(what, lambda: clean(rule.get_terms(n))))
    with guard(what + ": attributes"):
        out.append(tuple(rule.shifts()))
        out.append(rule.is_equivalence())
        out.append(outcome(what, rule.is_two_way))
        out.append(outcome(what, rule.is_reversible))
        out.append(rule.ignore_parent)
        out.append(rule.inferrable)
        out.append(rule.possibly_empty)
        out.append(rule.workable)
        out.append(rule.formal_step)
        out.append(str(rule))
        out.append(outcome(what, lambda: str(rule.get_equation(fn(rule)))))
        out.append(outcome(what, lambda: type(rule.constructor).__name__))
    maps = []
    for n in range(min(nmax, 4) + 1):
        for o in list(rule.comb_class.true_objects(n))[:6]:
            with guard(what + ": maps"):

                def both():
                    img = rule.forward_map(o)
                    return (repr(img), sorted(map(repr, rule.backward_map(img))))

                maps.append(outcome(what, both))
    out.append(maps)
    return out


def fn(rule):
    classes = [rule.comb_class] + list(rule.children)
    labels = {}
    for c in classes:
        labels.setdefault(c, len(labels))
    return lambda c: c.get_function(labels.__getitem__)


def check_rules(case):
    cls, rules = ruleforms.derive(case)
    tags = set()
    for v in (AtomStrategy(), VAtom(), VBrute(), EmptyStrategy()):
        with guard("verification"):
            for c in [cls] + [c for _, r in rules for c in r.children][:3]:
                if v.verified(c):
                    if not (isinstance(v, AtomStrategy) and c.params):
                        rules.append(("ver", v(c)))
    if not rules:
        raise Skip("no rule")
    for name, rule in rules:
        if rule.comb_class.is_empty() and name == "reverse":
            continue
        what = "%s form of %r" % (name, rule.strategy)
        tags.add(name)
        if case["pickled"]:
            with guard(what + ": pickle"):
                rule = pickle.loads(pickle.dumps(rule))
        d = describe(rule)
        new, _ = trip(rule, AbstractRule, case["mode"], what)
        if type(new) is not type(rule):
            raise Violation("%s: loads a %s" % (what, type(new).__name__))
        same(rule, new, what)
        if describe(new) != d:
            raise Violation("%s: %r after %r" % (what, describe(new), d))
        if describe(rule) != d:
            raise Violation("%s: changed by dumping" % what)
        nmax = min(ruleforms_bound(rule), 5)
        if name == "ver":
            if rule.comb_class.params and isinstance(rule.strategy, AtomStrategy):
                continue
            for n in range(4):
                with guard(what):
                    x, y = (outcome(what, lambda r=r: clean(r.get_terms(n))) for r in (rule, new))
                if x != y:
                    raise Violation("%s: terms %r after %r" % (what, y, x))
            continue
        x, y = rule_behaviour(rule, nmax, what), rule_behaviour(new, nmax, what + ", loaded")
        if x != y:
            diff = next((p, q) for p, q in zip(x, y) if p != q)
            raise Violation("%s: behaves differently when loaded: %r after %r" % ((what,) + diff[::-1]))
    return {"nt": any(n != "plain" for n, _ in rules), "tags": sorted(tags)}


def ruleforms_bound(rule):
    return min(choose_n(c, cap=60, top=6) for c in (rule.comb_class,) + tuple(rule.children))


# -- strategies

X = TypeVar("X")
Y = TypeVar("Y")


class GExpand(Expand, Generic[X, Y]):
    """a strategy with type parameters, as EmptyStrategy is"""


class GRetag(Retag, Generic[X, Y]):
    pass


class GVer(VBrute, Generic[X, Y]):
    pass


class GFac(FacStrats, Generic[X, Y]):
    pass


GENERIC = {"Expand": GExpand, "Retag": GRetag, "VBrute": GVer, "FacStrats": GFac}


class Bare:
    pass


def make(doc, how, classes):
    """a strategy from its document, in one of several ways"""
    name = doc[0]
    if name == "Empty":
        if how == "typed":
            return EmptyStrategy[GC, Bare]()
        if how == "typed2":
            return EmptyStrategy[Bare, Bare]()
        s = EmptyStrategy()
    elif name == "Already":
        s = AlreadyVerified([classes[i % len(classes)] for i in doc[1]])
    elif name.startswith("G"):
        cls = GENERIC[name[1:]]
        cfg = json.loads(json.dumps(doc[1]))
        if how == "typed":
            return cls[GC, Bare](cfg)
        if how == "typed2":
            return cls[Bare, Bare](cfg)
        s = cls(cfg)
    else:
        s = mk_strat(doc)
    if how == "json":
        s = AbstractStrategy.from_dict(json.loads(json.dumps(s.to_jsonable())))
    elif how == "jsonfac":
        s = StrategyFactory.from_dict(json.loads(json.dumps(s.to_jsonable())))
    elif how == "pickle":
        s = pickle.loads(pickle.dumps(s))
    elif how == "copy":
        s = copy.copy(s)
    elif how == "deepcopy":
        s = copy.deepcopy(s)
    elif how == "pack":
        p = StrategyPack([s], [], [[]], [], "p")
        s = StrategyPack.from_dict(json.loads(json.dumps(p.to_jsonable()))).initial_strats[0]
    elif how == "used":
        for c in classes:
            for r in applied(s, c):
                outcome("use", lambda r=r: (r.shifts(), getattr(r, "constructor", None)))
    elif how == "rule":
        for c in classes:
            if isinstance(s, AbstractStrategy):
                for r in applied(s, c)[:1]:
                    return AbstractRule.from_dict(json.loads(json.dumps(r.to_jsonable()))).strategy
    return s


def applied(s, c):
    from comb_spec_searcher.exception import StrategyDoesNotApply

    out = []
    try:
        items = [s(c)] if isinstance(s, AbstractStrategy) else list(s(c))
    except StrategyDoesNotApply:
        return out
    for x in items:
        try:
            r = x(c) if isinstance(x, AbstractStrategy) else x
            if r.children is not None:
                out.append(r)
        except StrategyDoesNotApply:
            continue
    return out


def settings(doc):
    """kind and settings named by a document: what equality has to depend on"""
    if doc[0] == "Empty" or doc[0] == "Atom":
        return (doc[0],)
    s = GENERIC[doc[0][1:]](doc[1]) if doc[0].startswith("G") else mk_strat(doc)
    d = s.to_jsonable()
    return (doc[0], json.dumps(d, sort_keys=True))


def check_strats(case):
    reset((0.01,), ())
    g = Gram.get(case["gram"])
    classes = [GC(g, s, 0, case["params"]) for s in case["seqs"]]
    made = []
    tags = set()
    for doc, hows in case["strats"]:
        key = (
            ("Already", tuple(sorted({repr(classes[i % len(classes)]) for i in doc[1]})))
            if doc[0] == "Already"
            else settings(doc)
        )
        for how in hows:
            with guard("strategy %s made by %s" % (doc[0], how)):
                s = make(doc, how, classes)
            made.append((key, how, s))
            tags.add(how)
            tags.add(doc[0])
    for key, how, s in made:
        what = "%s made by %s" % (key[0], how)
        base = AbstractStrategy if isinstance(s, AbstractStrategy) else StrategyFactory
        new, text = trip(s, base, case["mode"], what)
        if type(new) is not type(s):
            raise Violation("%s: loads a %s" % (what, type(new).__name__))
        same(s, new, what)
        if repr(new) != repr(s) and key[0] != "Already":
            raise Violation("%s: %r after %r" % (what, new, s))
        for c in classes:
            with guard(what + ": apply"):
                x, y = (
                    [describe(r) for r in applied(z, c)] for z in (s, new)
                )
            if x != y:
                raise Violation("%s: yields other rules when loaded" % what)
    pairs = 0
    for i, (k1, h1, a) in enumerate(made):
        for k2, h2, b in made[: i + 1]:
            pairs += 1
            want = k1 == k2
            with guard("comparison"):
                got = [a == b, b == a, not a != b]
            if got != [want] * 3:
                raise Violation(
                    "%s made by %s and %s made by %s: == gives %r, settings %s"
                    % (k1[0], h1, k2[0], h2, got, "agree" if want else "differ")
                )
            if want and isinstance(a, StrategyFactory) and hash(a) != hash(b):
                raise Violation("equal factories with different hashes")
    return {"nt": pairs >= 3, "tags": sorted(tags)}


# -- packs

OPS = ("iter", "init", "ver", "inf", "sym", "none")


def derive_pack(pack, ops, docs):
    for k, op in enumerate(ops):
        s = mk_strat(docs[k % len(docs)]) if docs else None
        if op == "iter":
            pack = pack.make_iterative()
        elif s is None:
            continue
        elif op == "init":
            pack = pack.add_initial(s, apply_first=bool(k % 2))
        elif op == "inf":
            pack = pack.add_inferral(s)
        elif op == "ver":
            pack = pack.add_verification(s, replace=bool(k % 2))
        elif op == "rem":
            pack = pack.remove_strategy(s)
    return pack


def check_packs(case):
    reset((0.01,), case["stream"])
    tags = {"search" if case["search"] else "no search"}
    packs = []
    for doc in [case["pack"], case["pack2"]]:
        packs.append(mk_pack(doc))
    ops = case["ops"]
    if ops:
        with guard("derived pack"):
            try:
                packs.append(derive_pack(packs[0], ops, case["extra"]))
            except ValueError:
                pass
    loaded = []
    for i, p in enumerate(packs):
        what = "pack %d" % i
        new, text = trip(p, StrategyPack, case["mode"], what)
        same(p, new, what)
        loaded.append(new)
        for attr in (
            "name",
            "initial_strats",
            "inferral_strats",
            "expansion_strats",
            "ver_strats",
            "symmetries",
            "iterative",
        ):
            if flat(getattr(p, attr)) != flat(getattr(new, attr)):
                raise Violation("%s: %s differs when loaded" % (what, attr))
        if str(p) != str(new) or repr(p) != repr(new):
            raise Violation("%s: printed differently when loaded" % what)
        if json.loads(json.dumps(new.to_jsonable())) != json.loads(text):
            raise Violation("%s: second dump differs" % what)
    for i, p in enumerate(packs):
        for j, q in enumerate(packs):
            want = all(
                flat(getattr(p, a)) == flat(getattr(q, a))
                for a in (
                    "name",
                    "initial_strats",
                    "inferral_strats",
                    "expansion_strats",
                    "ver_strats",
                    "symmetries",
                    "iterative",
                )
            )
            if (loaded[i] == q) != want:
                raise Violation("packs %d and %d: == gives %r" % (i, j, not want))
    if case["search"]:
        outs = []
        for p in (packs[0], loaded[0]):
            css = mk_searcher({**case, "smallest": False}, pack=p)
            _, spec = run_search({**case, "smallest": False}, css)
            outs.append(
                None
                if spec is None
                else sorted(repr(describe(r)) for r in spec.rules_dict.values())
            )
        if outs[0] != outs[1]:
            raise Violation("a loaded pack finds another specification")
        if outs[0]:
            tags.add("found")
    return {"nt": len(list(packs[0])) >= 3, "tags": sorted(tags)}


def flat(x):
    if isinstance(x, (tuple, list)):
        return tuple(flat(y) for y in x)
    if isinstance(x, AbstractStrategy):
        return sid(x)
    if isinstance(x, StrategyFactory):
        return (type(x).__name__, repr(x))
    return x


# -- bijections


def check_bijections(case):
    from comb_spec_searcher.bijection import EqPathParallelSpecFinder, ParallelSpecFinder

    from lib.engine import limit_classes

    tags = {case["kind"], case["source"]}
    if case["source"] == "specs":
        specs = []
        for k in "ab":
            with guard("search"):
                css, spec = run_search(case[k])
            if spec is None:
                raise Skip("no specification")
            if len(spec.rules_dict) > 30:
                raise Skip("too many rules")
            specs.append(spec)
    else:
        cls = EqPathParallelSpecFinder if case["source"] == "path" else ParallelSpecFinder
        css = [limit_classes(mk_searcher(case[k]), 100) for k in "ab"]
        try:
            with guard("finder", allow=(ValueError, TooBig)):
                specs = cls(*css).find()
        except (ValueError, TooBig) as e:
            raise Skip("no specification") from e
        if specs is None:
            raise Skip("no pair")
    total = 0
    for x, y in [(specs[0], specs[1]), (specs[1], specs[0]), (specs[0], specs[0])]:
        with guard("construct"):
            bij = Bijection.construct(x, y)
        if bij is None:
            continue
        new, text = trip(bij, Bijection, case["mode"], "bijection")
        for s, t in ((bij.domain, new.domain), (bij.codomain, new.codomain)):
            same(s, t, "specification of a bijection")
            same_rules(s, t, "specification of a bijection")
        nmax = min(choose_n(s.root, cap=40, top=6) for s in (x, y))
        for n in range(nmax + 1):
            for o in x.root.true_objects(n):
                total += 1
                with guard("map"):
                    a = bij.map(o)
                with guard("loaded map"):
                    b = new.map(o)
                if a != b:
                    raise Violation("loaded bijection maps %r to %r, not %r" % (o, b, a))
            for o in y.root.true_objects(n):
                with guard("inverse map"):
                    a = bij.inverse_map(o)
                with guard("loaded inverse map"):
                    b = new.inverse_map(o)
                if a != b:
                    raise Violation(
                        "loaded bijection maps %r back to %r, not %r" % (o, b, a)
                    )
        again, _ = trip(new, Bijection, case["mode"], "bijection again")
        for n in range(min(nmax, 4) + 1):
            for o in x.root.true_objects(n):
                with guard("map loaded twice"):
                    if again.map(o) != bij.map(o):
                        raise Violation("bijection loaded twice maps %r elsewhere" % (o,))
    return {"nt": total >= 5, "tags": sorted(tags)}


# -- generators

MODE = ints(0, 3)


@st.composite
def spec_case(draw):
    case = draw(gen.search_case())
    case["variant"] = draw(
        st.sampled_from(["plain", "plain", "plain", "ungrouped", "expanded", "pickled"])
    )
    case["use"] = draw(st.lists(st.sampled_from(["terms", "objects", "eqs", "str"]), max_size=3))
    case["mode"] = draw(MODE)
    return case


@st.composite
def rule_case(draw):
    case = draw(ruleforms.rule_case(dup=draw(ints(0, 9)) == 0))
    case["mode"] = draw(MODE)
    case["pickled"] = draw(ints(0, 4)) == 0
    return case


HOWS = ["direct", "json", "pickle", "copy", "deepcopy", "pack", "used", "rule"]


@st.composite
def strat_doc(draw, T):
    k = draw(ints(0, 13))
    if k == 0:
        return ["Empty", {}], HOWS + ["typed", "typed", "typed2"]
    if k == 1:
        return ["Atom", {}], HOWS
    if k == 2:
        return ["Already", draw(st.lists(ints(0, 5), max_size=4))], HOWS
    if k < 6:
        name = draw(st.sampled_from(["Expand", "Retag", "VBrute", "FacStrats"]))
        cfg = {
            "Expand": lambda: draw(gen.expand(T, 4))[1],
            "Retag": lambda: draw(gen.retag(T))[1],
            "VBrute": lambda: {"seqs": draw(st.lists(st.lists(ints(-1, 1), max_size=2), max_size=2))},
            "FacStrats": lambda: {"strats": [draw(gen.expand(T, 4))]},
        }[name]()
        hows = ["direct", "json", "pickle", "copy", "deepcopy", "pack", "used", "typed", "typed", "typed2"]
        if name == "FacStrats":
            hows.append("jsonfac")
        return ["G" + name, cfg], hows
    if k < 8:
        doc = draw(gen.factory(T, 4))
        return doc, [h for h in HOWS if h != "rule"] + ["jsonfac"]
    if k < 10:
        doc = draw(st.sampled_from([["VAtom", {}], ["VAtom", {"ignore_parent": True}], ["VBrute", {"seqs": [[0]]}], ["VAtom", {"strict": True}]]))
        return doc, HOWS
    return draw(st.one_of(gen.expand(T, 4), gen.factor(T), gen.retag(T), gen.unit(T, 4), gen.retag(T, sym=True))), HOWS


@st.composite
def tweak(draw, doc):
    """the same document with one setting changed (or not at all)"""
    doc = json.loads(json.dumps(doc))
    if not isinstance(doc[1], dict) or doc[0] in ("Empty", "Atom"):
        return doc
    k = draw(ints(0, 3))
    if k == 1:
        f = draw(st.sampled_from(["ignore_parent", "inferrable", "possibly_empty", "workable"]))
        doc[1][f] = not doc[1].get(f, False)
    elif k == 2 and "order" in doc[1]:
        doc[1]["order"] = "rev" if doc[1]["order"] != "rev" else "fwd"
    elif k == 3 and "pol" in doc[1]:
        doc[1]["pol"] = "drop" if doc[1]["pol"] != "drop" else "keep"
    return doc


@st.composite
def strat_case(draw):
    g = draw(gen.gram_doc(max_S=2))
    T = draw(ints(1, 2))
    out = []
    for _ in range(draw(ints(1, 2))):
        doc, hows = draw(strat_doc(T))
        out.append([doc, draw(st.lists(st.sampled_from(hows), min_size=1, max_size=3))])
        if draw(st.booleans()):
            out.append([draw(tweak(doc)), draw(st.lists(st.sampled_from(hows), min_size=1, max_size=2))])
    nn, nt = len(g["n"]), len(g["t"])
    sym = st.one_of(ints(0, nn - 1), ints(-nt, -1))
    return {
        "gram": g,
        "params": draw(gen.params_doc(g["S"])),
        "seqs": draw(st.lists(st.lists(sym, max_size=2), min_size=1, max_size=3)),
        "strats": out,
        "mode": draw(MODE),
    }


@st.composite
def pack_case(draw):
    case = draw(gen.search_case())
    other = draw(ints(0, 3))
    doc = json.loads(json.dumps(case["pack"]))
    if other == 0:
        doc["iterative"] = not doc["iterative"]
    elif other == 1:
        doc["name"] = "q"
    elif other == 2 and doc["expansion"]:
        doc["expansion"] = doc["expansion"][::-1] + [[]]
    else:
        doc["sym"], doc["inferral"] = doc["inferral"], doc["sym"]
    case["pack2"] = doc
    case["ops"] = draw(
        st.lists(st.sampled_from(["iter", "init", "ver", "inf", "rem"]), max_size=3)
    )
    case["extra"] = draw(st.lists(st.one_of(gen.expand(2, 4), gen.retag(2), st.just(["VAtom", {}])), min_size=1, max_size=2))
    case["search"] = draw(ints(0, 2)) == 0
    case["mode"] = draw(MODE)
    return case


@st.composite
def bij_case(draw):
    k = draw(ints(0, 8))
    if k < 7:
        case = draw(isogen.pair_case(dup=k == 3, nf=k > 3))
        case["source"] = "specs"
    else:
        case = draw(isogen.finder_case(rich=k == 8))
        case["source"] = case["variant"]
    case["mode"] = draw(MODE)
    return case


PARTS = [
    Part("specs", spec_case, check_specs, 2500, 60000, timeout=8),
    Part("rules", rule_case, check_rules, 4000, 80000),
    Part("strats", strat_case, check_strats, 6000, 80000),
    Part("packs", pack_case, check_packs, 3000, 50000),
    Part("bijections", bij_case, check_bijections, 2500, 60000, timeout=10),
]
