"""C19: expanding verified classes preserves the enumeration and finishes the job."""
import json
import pickle
from collections import Counter

from hypothesis import strategies as st

from lib import gen
from lib.boot import RANDOM
from lib.engine import Skip, Violation, choose_n, run_search
from lib.gen import ints
from lib.gram import GC, Gram, VPack, mk_pack
from lib.refmodels import clean
from lib.runner import Part
from lib.specoracle import base_rules, check_spec, check_terms, guard, spec_tags
from props.c07 import by_param, supports_objects
from props.c18 import describe

from comb_spec_searcher import CombinatorialSpecification, CombinatorialSpecificationSearcher
from comb_spec_searcher.exception import (
    ExceededMaxtimeError,
    InvalidOperationError,
    SpecificationNotFound,
)
from comb_spec_searcher.rule_db import RuleDBForest
from comb_spec_searcher.strategies.rule import EquivalencePathRule, VerificationRule

RULE = (
    "specifications found by searches (four rule databases) whose packs contain 1-3 "
    "verification strategies offering packs (nested packs, packs with equivalences and "
    "factories, packs that only work with reverse rules), taken as found / loaded from JSON / "
    "unpickled / used before; expand_verified and expand_comb_class (class or label, reverse "
    "and continue flags, any class and pack). Oracle: validity as in C02 against all packs, "
    "counts against the independent enumeration, no expandable class left, no shared rule "
    "object, original unchanged (own description, dump, counts of new sizes). Non-trivial: "
    "at least one verified class was expanded and the result has at least 2 rules"
)


def all_packs(doc):
    """the pack and every pack offered inside it"""
    out = [doc]
    for v in doc.get("ver", []):
        if v[0] in ("VPack", "VPackOracle"):
            out += all_packs(v[1]["pack"])
    return out


def objects_rules(spec):
    """identity of every rule object of the specification"""
    out = {}
    for r in spec.rules_dict.values():
        out[id(r)] = r
        if isinstance(r, EquivalencePathRule):
            for m in r.rules:
                out[id(m)] = m
    return out


def expandable(spec):
    out = []
    for c, r in spec.rules_dict.items():
        if isinstance(r, VerificationRule) and isinstance(r.strategy, VPack):
            out.append(c)
    return out


class Endless(Violation):
    pass


class finishing:
    """expand_verified comes to an end: it takes few single expansions"""

    def __enter__(self):
        self.orig = orig = CombinatorialSpecification.expand_comb_class
        self.left = 80

        def wrapper(spec, *a, **k):
            self.left -= 1
            if self.left < 0:
                raise Endless("expand_verified goes on and on")
            return orig(spec, *a, **k)

        CombinatorialSpecification.expand_comb_class = wrapper
        return self

    def __exit__(self, *a):
        CombinatorialSpecification.expand_comb_class = self.orig
        return False


class Watch:
    """remembers what the original specification is"""

    def __init__(self, spec):
        self.spec = spec
        self.rules = {c: describe(r) for c, r in spec.rules_dict.items()}
        self.order = list(spec.rules_dict)
        self.objs = objects_rules(spec)
        self.labels = {c: spec.get_label(c) for c in spec.rules_dict}
        self.text = json.dumps(spec.to_jsonable(), sort_keys=True)
        self.str = str(spec)
        self.root = spec.root

    def check(self, what, nmax, objects=True):
        spec = self.spec
        now = {c: describe(r) for c, r in spec.rules_dict.items()}
        if spec.root != self.root:
            raise Violation("%s: root of the original changed" % what)
        if now != self.rules:
            diff = [c for c in set(now) | set(self.rules) if now.get(c) != self.rules.get(c)]
            raise Violation("%s: rule of the original changed for %r" % (what, diff[0]))
        if list(spec.rules_dict) != self.order:
            raise Violation("%s: order of the original's rules changed" % what)
        if set(objects_rules(spec)) != set(self.objs):
            raise Violation("%s: rule objects of the original replaced" % what)
        with guard(what + ": original"):
            if {c: spec.get_label(c) for c in spec.rules_dict} != self.labels:
                raise Violation("%s: labels of the original changed" % what)
            if json.dumps(spec.to_jsonable(), sort_keys=True) != self.text:
                raise Violation("%s: dump of the original changed" % what)
            if str(spec) != self.str:
                raise Violation("%s: original printed differently" % what)
        check_terms(spec, self.root, nmax, what + ", original")
        if objects:
            check_objects(spec, min(nmax, 4), what + ", original")

    def sharing(self, new, what):
        shared = set(objects_rules(new)) & set(self.objs)
        if shared:
            raise Violation(
                "%s: shares the rule of %r with the original"
                % (what, self.objs[shared.pop()].comb_class)
            )


def check_objects(spec, nmax, what):
    with guard(what):
        ok = supports_objects(spec)
    if not ok:
        return
    for n in range(nmax + 1):
        want = by_param(spec.root, n)
        try:
            with guard(what + ": get_objects", allow=(NotImplementedError,)):
                got = spec.get_objects(n)
        except NotImplementedError:
            return
        for k in set(want) | set(got):
            a, b = Counter(map(repr, got.get(k, ()))), Counter(map(repr, want.get(k, ())))
            if a != b:
                raise Violation("%s: objects of size %d, parameters %r" % (what, n, k))


def use(spec, how, nmax):
    """ordinary use of a specification before or between expansions"""
    with guard("use: " + how):
        if how == "terms":
            for n in range(min(nmax, 3) + 1):
                spec.get_terms(n)
        elif how == "objects":
            if supports_objects(spec):
                try:
                    for n in range(min(nmax, 3) + 1):
                        spec.get_objects(n)
                except NotImplementedError:
                    pass
        elif how == "sample":
            if supports_objects(spec):
                RANDOM.reset([1, 2, 3])
                for p in list(clean(spec.root.true_terms(2)))[:1]:
                    try:
                        spec.random_sample_object_of_size(
                            2, **dict(zip(spec.root.extra_parameters, p))
                        )
                    except NotImplementedError:
                        pass
        elif how == "str":
            str(spec)
            repr(spec)


def variant(spec, how):
    with guard("variant: " + how):
        if how == "json":
            spec = CombinatorialSpecification.from_dict(
                json.loads(json.dumps(spec.to_jsonable()))
            )
        elif how == "pickle":
            spec = pickle.loads(pickle.dumps(spec))
    return spec


def obtain(case):
    css, spec = run_search(case)
    if spec is None:
        raise Skip("no specification")
    if len(spec.rules_dict) > 25:
        raise Skip("too many rules")
    spec = variant(spec, case["variant"])
    nmax = choose_n(spec.root, cap=60, top=7)
    for how in case["use"]:
        use(spec, how, nmax)
    return spec, nmax


def attainable(cls, pack, reverse=True, cont=True):
    """does the pack find a specification of the class on its own (with reverse
    rules, and going on with verified classes)?"""
    css = CombinatorialSpecificationSearcher(
        cls, pack, ruledb=RuleDBForest(reverse=reverse), expand_verified=cont
    )
    try:
        css.auto_search()
    except SpecificationNotFound:
        return False
    except Exception:  # judged by the other properties
        return False
    return True


def judge(case, watch, new, nmax, what):
    """the expanded specification"""
    start = watch.root
    packs = [mk_pack(d) for d in all_packs(case["pack"])]
    packs += [mk_pack(d) for m in case.get("more", []) for d in all_packs(m)]
    with guard(what + ": rules"):
        check_spec(new, start, packs)
    check_terms(new, start, nmax, what)
    check_objects(new, min(nmax, 4), what)
    for c in list(new.rules_dict)[:6]:
        with guard(what + ": labels"):
            if new.get_comb_class(new.get_label(c)) != c:
                raise Violation("%s: label of %r does not lead back" % (what, c))


def check_all(case):
    spec, nmax = obtain(case)
    todo = expandable(spec)
    with guard("unexpanded_verified_classes"):
        listed = list(spec.unexpanded_verified_classes())
    if sorted(map(repr, listed)) != sorted(map(repr, todo)):
        raise Violation("classes to expand %r, not %r" % (listed, todo))
    tags = {case["db"], case["variant"], "expand:%d" % min(len(todo), 3)}
    if any(
        isinstance(r, EquivalencePathRule) and c in todo
        for r in spec.rules_dict.values()
        for m in [r]
        for c in r.children
    ):
        tags.add("verified behind a path")
    watch = Watch(spec)
    free = any(getattr(spec.rules_dict[c].strategy, "cfg", {}).get("free") for c in todo)
    new = None
    try:
        with finishing(), guard("expand_verified", allow=(SpecificationNotFound,)):
            new = spec.expand_verified()
    except SpecificationNotFound:
        # nested packs found on the way could be the reason as well
        nested = any(
            v[1].get("free") for d in all_packs(case["pack"]) for v in d["ver"] if len(v) > 1
        )
        if not nested or (
            free
            and len(todo) == 1
            and len(all_packs(case["pack"])) == 2
            and attainable(todo[0], spec.rules_dict[todo[0]].pack())
        ):
            raise Violation("no specification although the packs offered find one") from None
        tags.add("not found")
    if new is None:
        watch.check("after a failed expansion", nmax)
        return {"nt": False, "tags": sorted(tags)}
    left = expandable(new)
    if left:
        raise Violation("verified class left that offers a pack: %r" % (left[0],))
    with guard("unexpanded_verified_classes of the result"):
        if list(new.unexpanded_verified_classes()):
            raise Violation("unexpanded_verified_classes of the result not empty")
    for r in new.rules_dict.values():
        if isinstance(r, VerificationRule):
            try:
                with guard("pack of a verified class", allow=(InvalidOperationError,)):
                    r.pack()
            except InvalidOperationError:
                continue
            raise Violation("verified class %r still offers a pack" % (r.comb_class,))
    if todo:
        watch.sharing(new, "expand_verified")
    order = case["order"]
    if order == "original first":
        watch.check("after expand_verified", nmax)
    judge(case, watch, new, nmax, "expanded specification")
    if order != "original first":
        watch.check("after expand_verified", nmax)
    # once more, from the original and from the result
    if case["again"] == "original" and todo:
        with finishing(), guard("second expand_verified"):
            new2 = spec.expand_verified()
        watch.sharing(new2, "second expansion")
        Watch.sharing(Watch(new), new2, "second expansion, first result")
        judge(case, watch, new2, nmax, "second expansion")
        if expandable(new2):
            raise Violation("second expansion left a verified class")
        watch.check("after the second expansion", nmax + 1, objects=False)
    elif case["again"] == "result":
        w2 = Watch(new)
        with finishing(), guard("expand_verified of the result"):
            new2 = new.expand_verified()
        judge(case, watch, new2, nmax, "expansion of the result")
        w2.check("after expanding the result", nmax, objects=False)
    elif case["again"] in ("json", "pickle"):
        new2 = variant(new, case["again"])
        judge(case, watch, new2, min(nmax, 5), "expanded and " + case["again"])
    if todo:
        tags |= {t for t in spec_tags(new) if "Reverse" in t or t.startswith("rules:")}
        if len(todo) > 1:
            tags.add("several")
    return {"nt": bool(todo) and len(new.rules_dict) >= 2, "tags": sorted(tags)}


def check_one(case):
    spec, nmax = obtain(case)
    watch = Watch(spec)
    classes = list(spec.rules_dict)
    verified = expandable(spec)
    cur = spec
    tags = {case["db"], case["variant"]}
    done = 0
    made = []
    for i, op in enumerate(case["ops"]):
        classes = [c for c in cur.rules_dict if not c.is_empty()]
        if not classes:
            break
        verified = expandable(cur)
        kind, k, which, reverse, cont, label, limit = op
        if kind == "verified" and verified:
            cls = verified[k % len(verified)]
            pack = cur.rules_dict[cls].pack()
            pdoc = None
        else:
            cls = classes[k % len(classes)]
            docs = case["more"] + all_packs(case["pack"])[1:]
            pdoc = docs[which % len(docs)]
            pack = mk_pack(pdoc)
        arg = cur.get_label(cls) if label else cls
        what = "expand_comb_class (step %d, reverse=%s, continue=%s)" % (i, reverse, cont)
        w = Watch(cur)
        new = None
        try:
            with guard(what, allow=(SpecificationNotFound, ExceededMaxtimeError)):
                new = cur.expand_comb_class(
                    arg, pack, reverse, cont, max_expansion_time=limit
                )
        except SpecificationNotFound:
            tags.add("not found")
            if limit is None and attainable(cls, pack, reverse, cont):
                raise Violation(what + ": nothing found, the pack alone does") from None
        except ExceededMaxtimeError:
            tags.add("time")
        if new is None:
            w.check(what + " failed", nmax, objects=False)
            continue
        w.sharing(new, what)
        judge(case, watch, new, nmax, what)
        w.check(what, nmax)
        if pdoc is None and cls in new.rules_dict:
            r = new.rules_dict[cls]
            if isinstance(r, VerificationRule) and sid_(r) == sid_(cur.rules_dict[cls]):
                raise Violation(what + ": %r is still verified the same way" % (cls,))
        tags.add("reverse" if reverse else "forward")
        tags.add("verified" if pdoc is None else "other class")
        made.append(new)
        done += 1
        if case["chain"]:
            cur = new
    watch.check("after all expansions", nmax + 1, objects=False)
    return {"nt": done >= 1 and any(len(m.rules_dict) >= 2 for m in made), "tags": sorted(tags)}


def sid_(rule):
    return [repr(r.strategy) for r in base_rules(rule)]


# -- generators


def subpacks(T, has_params, doc, level):
    """packs that find a specification of (nearly) any class"""

    @st.composite
    def one(draw):
        base = draw(gen.simple_pack(T, 6, has_params))
        if draw(st.booleans()):
            base["ver"] = [["VAtom", {"ignore_parent": True}]]
        L = 5
        if draw(ints(0, 2)) == 0:
            base["expansion"][0][0][1]["pos"] = draw(st.sampled_from(["first", "last"]))
            base["expansion"][0][0][1]["pol"] = draw(gen.pol)
        if draw(ints(0, 3)) == 0:
            base["inferral"] = draw(
                st.lists(st.one_of(gen.unit(T, L), gen.retag(T)), min_size=1, max_size=2)
            )
        if draw(ints(0, 3)) == 0:
            base["expansion"].append([draw(gen.expand(T, L))])
        if draw(ints(0, 4)) == 0:
            base["expansion"][0].insert(0, draw(gen.factory(T, L)))
        if T > 1 and draw(ints(0, 4)) == 0:
            base["sym"] = [draw(gen.retag(T, sym=True))]
        if draw(ints(0, 5)) == 0:
            base["expansion"][0].append(draw(gen.retag(T)))
        if draw(ints(0, 5)) == 0:
            base["initial"], base["expansion"][0] = (
                [],
                base["initial"] + base["expansion"][0],
            )
        if draw(ints(0, 4)) == 0:
            base["ver"].append(["VBrute", {"seqs": draw(gen.seqs_doc(doc))}])
        if level and draw(ints(0, 1)):
            base["ver"].append(draw(offer(T, has_params, doc, level - 1)))
            if draw(st.booleans()):
                base["ver"].reverse()
        base["name"] = "sub%d" % level
        return gen.set_prod(base)

    return one()


@st.composite
def offer(draw, T, has_params, doc, level):
    nn = len(doc["n"])
    alts = [a for i, x in enumerate(doc["n"]) for a in x if a and a != [0]] or [[-1, 0]]
    seqs = draw(
        st.one_of(
            gen.seqs_doc(doc),
            st.lists(ints(1 if nn > 1 else 0, nn - 1).map(lambda x: [x]), min_size=1, max_size=3),
            st.lists(st.sampled_from(alts), min_size=1, max_size=3),
            st.lists(st.sampled_from([s for a in alts for s in (a, a[1:], a[:-1]) if s]),
                     min_size=1, max_size=3),
        )
    )
    cfg = {"seqs": seqs, "pack": draw(subpacks(T, has_params, doc, level))}
    if T > 1 and draw(ints(0, 3)) == 0:
        cfg["tags"] = draw(st.lists(ints(0, T - 1), min_size=1, max_size=2, unique=True))
    if draw(ints(0, 4)) == 0:
        cfg["ignore_parent"] = True
    return [draw(st.sampled_from(["VPack", "VPackOracle", "VPackOracle"])), cfg]


COMMON = {
    "variant": st.sampled_from(["plain", "plain", "plain", "json", "pickle"]),
    "use": st.lists(st.sampled_from(["terms", "objects", "sample", "str"]), max_size=2),
}


def common(draw, case):
    for k, s in COMMON.items():
        case[k] = draw(s)
    case["order"] = draw(st.sampled_from(["original first", "result first"]))
    case["again"] = draw(st.sampled_from(["no", "original", "result", "json", "pickle"]))
    return case


@st.composite
def all_case(draw):
    if draw(ints(0, 6)) == 0:
        case = draw(gen.net_case())
    else:
        case = draw(gen.search_case(ver="none"))
    doc, T = case["gram"], case["T"]
    hp = bool(case["start"]["params"])
    case["pack"]["ver"] = [["VAtom", {"ignore_parent": True}]] + [
        draw(offer(T, hp, doc, draw(st.sampled_from([0, 0, 1, 2]))))
        for _ in range(draw(st.sampled_from([1, 1, 2, 2, 3])))
    ]
    if draw(ints(0, 5)) == 0:
        case["pack"]["ver"].append(["VBrute", {"seqs": draw(gen.seqs_doc(doc))}])
    if draw(ints(0, 3)) == 0:
        case["pack"]["ver"].reverse()
    if not draw(ints(0, 3)):
        # equivalences in front of verified classes
        case["pack"]["inferral"] = [draw(gen.unit(T, 4))] + case["pack"]["inferral"]
    if not case["db"].startswith("Forest"):
        gen.set_prod(case["pack"])
    case["smallest"] = case["smallest"] and draw(ints(0, 3)) == 0
    return common(draw, case)


@st.composite
def reverse_case(draw):
    """a class verified by a strategy whose pack needs reverse rules"""
    base = draw(gen.reverse_case(dbs=("RuleDB", "Forget", "Forest", "ForestNoRev")))
    sub = base["pack"]
    inner = base["start"]["seq"]
    doc = base["gram"]
    nn = len(doc["n"])
    T = base["T"]
    outer = draw(
        st.sampled_from([[[-1] + inner], [[-1] + inner, [-1]], [inner, [-1, -1]], [inner + inner]])
    )
    if draw(ints(0, 2)) == 0:
        outer = outer + [[-1, 0]]
    doc = {**doc, "n": doc["n"] + [outer]}
    hp = bool(base["start"]["params"])
    main = draw(gen.simple_pack(1, 6, hp))
    if draw(ints(0, 2)) == 0:
        main["inferral"] = [draw(gen.unit(T, 4))]
    cfg = {"seqs": [inner], "pack": sub, "free": True}
    main["ver"] = [
        ["VAtom", {"ignore_parent": True}],
        ["VPackOracle", cfg],
    ]
    if draw(ints(0, 2)) == 0:
        main["ver"].append(draw(offer(T, hp, doc, 0)))
    gen.set_prod(main)
    case = dict(base)
    case["gram"] = doc
    case["pack"] = main
    case["start"] = {**base["start"], "seq": draw(st.sampled_from([[nn], [nn], [-1, nn]]))}
    case["expand_verified"] = False
    return common(draw, case)


@st.composite
def one_case(draw):
    case = draw(st.one_of(all_case(), all_case(), reverse_case()))
    doc, T = case["gram"], case["T"]
    hp = bool(case["start"]["params"])
    case["more"] = [
        draw(st.one_of(subpacks(T, hp, doc, 0), gen.pack_doc(doc, hp, T, 4, "any", False)))
        for _ in range(2)
    ]
    case["ops"] = draw(
        st.lists(
            st.tuples(
                st.sampled_from(["verified", "verified", "any"]),
                ints(0, 12),
                ints(0, 4),
                st.booleans(),
                st.booleans(),
                st.booleans(),
                st.sampled_from([None, None, None, None, 1000.0, 0.01]),
            ).map(list),
            min_size=1,
            max_size=3,
        )
    )
    case["chain"] = draw(st.booleans())
    return case


PARTS = [
    Part("verified", all_case, check_all, 3000, 50000),
    Part("reverse", reverse_case, check_all, 2000, 30000),
    Part("one", one_case, check_one, 2000, 30000),
]
