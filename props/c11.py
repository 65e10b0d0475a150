"""C11: forest extraction returns a minimal, closed, productive rule set."""
from collections import Counter

from hypothesis import strategies as st

from lib import gen, intu
from lib.engine import Skip, Violation, mk_db, mk_searcher, more_levels, run_search
from lib.gen import ints
from lib.refmodels import INF, lfp
from lib.runner import Part
from lib.specoracle import MultiIndex, check_genuine, guard

from comb_spec_searcher.exception import SpecificationNotFound
from comb_spec_searcher.rule_db.forest import (
    ForestRuleExtractor,
    RuleDBForest,
    TableMethod,
)
from comb_spec_searcher.strategies.rule import EquivalenceRule, ReverseRule
from comb_spec_searcher.strategies.strategy import EmptyStrategy
from comb_spec_searcher.typing import ForestRuleKey, RuleBucket

BUCKETS = (
    RuleBucket.NORMAL,
    RuleBucket.REVERSE,
    RuleBucket.EQUIV,
    RuleBucket.VERIFICATION,
)

RULE = (
    "part keys: random rule sets (all buckets, arity 0-3, shifts -4..5, duplicated rules, "
    "several rules per class) in random order, extraction whenever a class is productive; "
    "part ints: integer universes with custom shifts, empty classes and reverse rules through "
    "a real forest database, extracted keys turned back into rules; parts search/reverse: "
    "forest databases of real searches (with and without reverse rules). Judged by a naive "
    "least fixed point: subset, productive, closed, one rule per class, minimal by deletion, "
    "reverse rules only without alternative. Non-trivial: at least 3 rules kept out of a "
    "strictly larger set (with a reverse rule for part reverse)"
)


def as_rules(keys):
    return [(k.parent, k.children, k.shifts) for k in keys]


def productive(keys, root):
    return lfp(as_rules(keys)).get(root, 0) == INF


def judge(needed, inserted, root):
    """the statement about the extracted set"""
    missing = Counter(needed) - Counter(inserted)
    if missing:
        raise Violation("extracted rule %r was never inserted" % (next(iter(missing)),))
    parents = Counter(k.parent for k in needed)
    for p, n in parents.items():
        if n > 1:
            raise Violation("%d rules for class %d" % (n, p))
    for k in needed:
        for c in k.children:
            if c not in parents:
                raise Violation("class %d has no rule (child of %d)" % (c, k.parent))
    if root not in parents:
        raise Violation("no rule for the start class")
    if not productive(needed, root):
        raise Violation("extracted rules are not productive for the start class")
    for i, k in enumerate(needed):
        if productive(needed[:i] + needed[i + 1 :], root):
            raise Violation("rule %r can be removed" % (k,))
    rev = [k for k in needed if k.bucket == RuleBucket.REVERSE]
    if rev:
        rest = [k for k in inserted if k.bucket != RuleBucket.REVERSE]
        if productive(rest, root):
            raise Violation(
                "reverse rule %r is used, a choice without reverse rules exists" % (rev[0],)
            )
        # minimal in reverse rules: none of them can be dropped when all the
        # others may be used
        for r in rev:
            others = list(rest) + [x for x in rev if x is not r]
            if productive(others, root):
                raise Violation("reverse rule %r is not needed" % (r,))
    return len(rev)


class FakeDB:
    def __init__(self, tb):
        self.table_method = tb


def check_keys(case):
    lab = case.get("labels")
    keys = []
    for p, c, s, b in case["rules"]:
        if lab:
            p, c = lab[p], [lab[x] for x in c]
        keys.append(ForestRuleKey(p, tuple(c), tuple(s), BUCKETS[b]))
    tb = TableMethod()
    tags = set()
    nt = False
    inserted = []
    done = set()
    every = case.get("every", False)
    for i, k in enumerate(keys):
        with guard("add_rule_key"):
            tb.add_rule_key(k)
        inserted.append(k)
        last = i == len(keys) - 1
        if not (last or every):
            continue
        val = lfp(as_rules(inserted))
        roots = sorted(x for x, v in val.items() if v == INF)
        for root in roots:
            if root in done and not last:
                continue
            done.add(root)
            with guard("extraction for class %d from %d rules" % (root, len(inserted))):
                ex = ForestRuleExtractor(root, FakeDB(tb), None, None)
                ex.check()
                needed = list(ex.needed_rules)
            r = judge(needed, inserted, root)
            if r:
                tags.add("reverse")
            if len(needed) >= 3 and len(inserted) > len(needed):
                nt = True
            tags.add("kept:%d" % min(6, len(needed)))
    if not done:
        tags.add("none productive")
    return {"nt": nt, "tags": sorted(tags)}


@st.composite
def keys_case(draw, n_max=8, rules_max=26):
    n = draw(ints(2, n_max))
    lab = draw(
        st.one_of(
            st.none(),
            st.lists(ints(0, 30), min_size=n, max_size=n, unique=True),
        )
    )
    bucket = st.sampled_from([0, 0, 0, 1, 1, 2])
    hi = draw(st.sampled_from([1, 1, 2, 5]))
    lo = draw(st.sampled_from([0, 0, -1, -4]))
    v = ints(0, n - 1)
    rules = []
    for _ in range(draw(ints(1, 3))):
        rules.append([draw(v), [], [], 3])
    for _ in range(draw(ints(2, rules_max))):
        k = draw(st.sampled_from([0, 1, 1, 1, 2, 2, 2, 3]))
        c = draw(st.lists(v, min_size=k, max_size=k))
        s = draw(st.lists(ints(lo, hi), min_size=k, max_size=k))
        b = 3 if k == 0 and draw(st.booleans()) else draw(bucket)
        if k == 0 and draw(ints(0, 2)):
            continue
        rules.append([draw(v), c, s, b])
    if draw(ints(0, 3)) == 0:
        rules.append(list(draw(st.sampled_from(rules))))
    order = draw(st.permutations(range(len(rules))))
    rules = [rules[i] for i in order]
    return {"rules": rules, "labels": lab, "every": draw(ints(0, 3)) == 0}


@st.composite
def layered_case(draw):
    """several complete choices for the same classes, mixing the buckets: the
    greedy minimisation has to take back earlier picks"""
    n = draw(ints(3, 9))
    rules = []
    for _ in range(draw(ints(2, 4))):
        order = draw(st.permutations(range(n)))
        b = draw(st.sampled_from([0, 1, 2, 0, 1]))
        rules.append([order[0], [], [], draw(st.sampled_from([3, 3, b]))])
        for i in range(1, n):
            k = draw(st.sampled_from([1, 1, 2]))
            c = [order[draw(ints(max(0, i - 3), i - 1))] for _ in range(k)]
            s = draw(st.lists(ints(0, 2), min_size=k, max_size=k))
            if draw(ints(0, 3)) == 0:
                # a cycle that needs a positive gain
                c.append(order[draw(ints(i, n - 1))])
                s.append(draw(ints(0, 2)))
            bb = b if draw(ints(0, 2)) else draw(ints(0, 2))
            rules.append([order[i], c, s, bb])
    perm = draw(st.permutations(range(len(rules))))
    return {"rules": [rules[i] for i in perm], "labels": None, "every": False}


# ---------------------------------------------------------------- databases


def record(db):
    inserted = []
    tb = db.table_method
    orig = tb.add_rule_key

    def add(key):
        inserted.append(key)
        return orig(key)

    tb.add_rule_key = add
    return inserted


def judge_db(css, inserted, packs, index):
    """extraction and rules of a forest database with a productive root"""
    db = css.ruledb
    with guard("extractor"):
        ex = ForestRuleExtractor(db.root_label, db, css.classdb, css.strategy_pack)
        needed = list(ex.needed_rules)
    nrev = judge(needed, inserted, db.root_label)
    with guard("get_specification_rules"):
        rules = list(db.get_specification_rules())
    label = css.classdb.get_label
    by_parent = {}
    for r in rules:
        p = label(r.comb_class)
        if p in by_parent:
            raise Violation("two rules for %r" % (r.comb_class,))
        by_parent[p] = r
    seen = set()
    for k in needed:
        cls = css.classdb.get_class(k.parent)
        r = by_parent.get(k.parent)
        if r is None:
            if not cls.is_empty():
                raise Violation("no concrete rule for %r" % (k,))
            continue
        seen.add(k.parent)
        base = r
        if isinstance(r, EquivalenceRule):
            base = r.original_rule
        with guard("key of an extracted rule"):
            got = base.forest_key(label, css.classdb.is_empty)
        if got != k:
            raise Violation("extracted key %r came back as %r" % (k, got))
        if (k.bucket == RuleBucket.REVERSE) != (
            isinstance(base, ReverseRule) and len([c for c in base.original_rule.children if not c.is_empty()]) != 1
            or isinstance(base, ReverseRule) and not base.is_equivalence()
        ):
            raise Violation("key %r has form %s" % (k, type(base).__name__))
        if isinstance(r, EquivalenceRule):
            kids = [c for c in base.children if not c.is_empty()]
            if list(r.children) != kids:
                raise Violation("equivalence form of %r has children %r" % (k, r.children))
        elif tuple(label(c) for c in r.children) != k.children:
            raise Violation("concrete rule of %r has other children" % (k,))
        check_genuine(r, index)
    if set(by_parent) - seen:
        raise Violation("rule of %r was not extracted" % (min(set(by_parent) - seen),))
    return needed, nrev


def check_search(case):
    db = mk_db(case["db"])
    inserted = record(db)
    with guard("search"):
        css = mk_searcher(case, ruledb=db)
        css, spec = run_search(case, css)
        for _ in range(case.get("more", 0)):
            more_levels(css, 1, 60)
    with guard("has_specification"):
        has = db.has_specification()
    want = productive(inserted, db.root_label)
    if bool(has) != want:
        raise Violation("has_specification is %r" % has)
    if not has:
        with guard("get_specification_rules", allow=(SpecificationNotFound,)):
            try:
                list(db.get_specification_rules())
            except SpecificationNotFound:
                return {"nt": False, "tags": ["nospec"]}
        raise Violation("rules handed out without a specification")
    index = MultiIndex([css.strategy_pack])
    needed, nrev = judge_db(css, inserted, None, index)
    tags = {case["db"], "kept:%d" % min(9, len(needed))}
    if nrev:
        tags.add("reverse")
    if any(k.bucket == RuleBucket.EQUIV for k in needed):
        tags.add("equiv")
    return {"nt": len(needed) >= 3 and len(inserted) > len(needed), "tags": sorted(tags)}


def check_ints(case):
    db = RuleDBForest(reverse=case.get("reverse", True))
    inserted = record(db)
    with guard("searcher"):
        css = intu.mk_searcher(case, db)
    tags = set()
    nt = False
    # a real pack: its strategies yield exactly the rules of the document
    for i, r in enumerate(case["rules"]):
        with guard("add"):
            intu.add_rule(css, case, r)
    if not productive(inserted, db.root_label):
        if db.has_specification():
            raise Violation("has_specification without a productive start class")
        return {"nt": False, "tags": ["nospec"]}
    index = MultiIndex([css.strategy_pack])
    needed, nrev = judge_db(css, inserted, None, index)
    if nrev:
        tags.add("reverse")
    if any(css.classdb.get_class(k.parent).is_empty() for k in needed):
        tags.add("empty")
    if any(k.bucket == RuleBucket.EQUIV for k in needed):
        tags.add("equiv")
    tags.add("kept:%d" % min(9, len(needed)))
    nt = len(needed) >= 3 and len(inserted) > len(needed)
    return {"nt": nt, "tags": sorted(tags)}


@st.composite
def ints_case(draw):
    n = draw(ints(2, 7))
    emp = draw(st.lists(ints(1, n - 1), max_size=2, unique=True)) if draw(ints(0, 2)) == 0 else []
    rules = []
    v = ints(0, n - 1)
    full = [i for i in range(n) if i not in emp]
    for _ in range(draw(ints(1, 2))):
        ver = full[1:] if len(full) > 1 and draw(ints(0, 9)) else full
        rules.append({"p": draw(st.sampled_from(ver)), "c": [], "s": [], "k": "v"})
    lo = draw(st.sampled_from([0, 0, -1, -2]))
    for _ in range(draw(ints(2, 18))):
        k = draw(st.sampled_from([1, 1, 2, 2, 2, 3]))
        c = draw(st.lists(v, min_size=k, max_size=k))
        s = draw(st.lists(ints(lo, 3), min_size=k, max_size=k))
        r = {"p": draw(st.sampled_from(full)), "c": c, "s": s, "k": "n"}
        if any(x in emp for x in c):
            r["pe"] = True
        elif draw(ints(0, 4)) == 0:
            r["pe"] = True
        r["rv"] = draw(ints(0, 2)) > 0
        r["tw"] = r["rv"] and draw(st.booleans())
        r["eq"] = draw(ints(0, 2)) > 0
        rules.append(r)
    perm = draw(st.permutations(range(len(rules))))
    return {
        "n": n,
        "empty": emp,
        "rules": [rules[i] for i in perm],
        "start": draw(st.sampled_from(full)) if draw(ints(0, 4)) == 0 else full[0],
        "reverse": draw(ints(0, 4)) > 0,
        "as_strats": draw(st.booleans()),
    }


PARTS = [
    Part("keys", keys_case, check_keys, 12000, 250000, timeout=20),
    Part("layers", layered_case, check_keys, 6000, 150000, timeout=20),
    Part("ints", ints_case, check_ints, 6000, 120000, timeout=20),
    Part(
        "search",
        lambda: gen.search_case(dbs=("Forest", "ForestNoRev")),
        check_search,
        2000,
        30000,
        timeout=12,
    ),
    Part("reverse", lambda: gen.reverse_case(), check_search, 2000, 30000, timeout=12),
]
