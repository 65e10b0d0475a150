"""C03: the forest's table equals the least fixed point, in any insert order."""
from collections import Counter

from hypothesis import strategies as st

from lib import gen
from lib.engine import Skip, Violation, mk_db, mk_searcher, run_search
from lib.gen import ints
from lib.refmodels import INF, lfp
from lib.runner import Part
from lib.specoracle import base_rules, guard, true_shifts

from comb_spec_searcher.rule_db.forest import TableMethod
from comb_spec_searcher.strategies.rule import VerificationRule
from comb_spec_searcher.typing import ForestRuleKey, RuleBucket

RULE = (
    "part table: random multisets of rules (arity 0-4, repeated children, shifts -6..6, "
    "sparse labels), inserted one at a time in two different orders, every answer compared "
    "with a naive least fixed point after every insertion; non-trivial when at least one "
    "class is pumping, one is not, and some finite non-zero value occurs on the way. "
    "part chain: structured universes with long dependency chains and wide gaps. "
    "part db: forest databases fed by real searches (all rule forms), compared after every "
    "insertion; non-trivial when at least 4 rules were inserted"
)

BUCKETS = (
    RuleBucket.NORMAL,
    RuleBucket.REVERSE,
    RuleBucket.EQUIV,
    RuleBucket.VERIFICATION,
)


def compare(tb, keys, labels, where):
    val = lfp([(k.parent, k.children, k.shifts) for k in keys])
    with guard(where):
        fn = dict(tb.function)
    for x in labels:
        want = val.get(x, 0)
        got = fn.get(x, 0)
        got = INF if got is None else got
        if got != want:
            raise Violation(
                "%s: class %d has %s computable terms, least fixed point says %s"
                % (where, x, got, want)
            )
    for x in set(fn) - set(labels):
        if fn[x] != 0:
            raise Violation("%s: unknown class %d has value" % (where, x))
    for x in labels:
        with guard(where):
            p = tb.is_pumping(x)
        if bool(p) != (val.get(x, 0) == INF):
            raise Violation("%s: is_pumping(%d) = %r" % (where, x, p))
    inf = {x for x, v in val.items() if v == INF}
    want = Counter(k for k in keys if k.parent in inf and inf.issuperset(k.children))
    with guard(where):
        got = Counter(tb.pumping_subuniverse())
        stable = set(tb.stable_subset())
    if got != want:
        raise Violation("%s: pumping subuniverse is wrong" % where)
    if stable != inf:
        raise Violation("%s: stable subset %r, expected %r" % (where, stable, inf))
    return val


def mk_keys(case):
    lab = case.get("labels")
    out = []
    for p, c, s, b in case["rules"]:
        if lab:
            p, c = lab[p], [lab[x] for x in c]
        out.append(ForestRuleKey(p, tuple(c), tuple(s), BUCKETS[b]))
    return out


def check_table(case):
    keys = mk_keys(case)
    labels = sorted({k.parent for k in keys} | {x for k in keys for x in k.children})
    if not labels:
        raise Skip("no rules")
    labels = labels + [max(labels) + 3]
    orders = [list(range(len(keys)))]
    perm = list(range(len(keys)))
    for i, r in enumerate(case["perm"][: len(perm)]):
        j = r % len(perm)
        i = i % len(perm)
        perm[i], perm[j] = perm[j], perm[i]
    orders.append(perm)
    interesting = False
    final = None
    for o, order in enumerate(orders):
        tb = TableMethod()
        prev = {}
        val = {}
        if case.get("query", 0) and o == 0:
            # asking about unknown classes first must not matter
            tb.is_pumping(labels[0])
        for step, i in enumerate(order):
            with guard("add_rule_key"):
                tb.add_rule_key(keys[i])
            if o == 0 or step == len(order) - 1:
                val = compare(
                    tb,
                    [keys[j] for j in order[: step + 1]],
                    labels,
                    "after %d insertions" % (step + 1),
                )
                for x, v in prev.items():
                    if val.get(x, 0) < v:
                        raise Violation("value of %d decreased" % x)
                prev = val
        if final is not None and final != val:
            raise Violation("order matters")
        final = val
        vals = set(val.values())
        if INF in vals and any(0 < v < INF for v in vals):
            interesting = True
    infs = sum(1 for v in final.values() if v == INF)
    return {
        "nt": interesting,
        "tags": [
            "inf:%d" % min(infs, 4),
            "rules:%d" % (len(keys) // 4 * 4),
            "neg" if any(x < 0 for k in keys for x in k.shifts) else "nonneg",
        ],
    }


@st.composite
def table_case(draw):
    n = draw(ints(1, 7))
    w = draw(st.sampled_from([1, 1, 2, 3, 6]))
    rule = st.one_of(
        st.tuples(
            ints(0, n - 1),
            st.lists(st.tuples(ints(0, n - 1), ints(-w, w)), min_size=0, max_size=3),
            ints(0, 3),
        ),
        st.tuples(
            ints(0, n - 1),
            st.lists(st.tuples(ints(0, n - 1), ints(0, w)), min_size=1, max_size=2),
            ints(0, 3),
        ),
        st.tuples(
            ints(0, n - 1),
            st.lists(st.tuples(ints(0, n - 1), ints(1, w)), min_size=1, max_size=2),
            ints(0, 3),
        ),
    )
    rules = draw(st.lists(rule, min_size=1, max_size=14))
    rules = list(rules)
    if draw(ints(0, 2)):
        rules.insert(draw(ints(0, len(rules))), (draw(ints(0, n - 1)), [], 3))
    case = {
        "rules": [[p, [c for c, _ in cs], [s for _, s in cs], b] for p, cs, b in rules],
        "perm": draw(st.lists(ints(0, 50), min_size=0, max_size=14)),
        "query": draw(ints(0, 1)),
    }
    if draw(ints(0, 3)) == 0:
        case["labels"] = draw(
            st.lists(ints(0, 40), min_size=n, max_size=n, unique=True)
        )
    return case


@st.composite
def chain_case(draw):
    """chains with big shifts, cycles of small positive and negative total shift"""
    n = draw(ints(2, 6))
    w = draw(ints(1, 6))
    rules = []
    for i in range(n):
        j = draw(ints(0, n - 1)) if draw(ints(0, 2)) == 0 else (i + 1) % n
        cs = [[j, draw(ints(-w, w))]]
        if draw(ints(0, 2)) == 0:
            cs.append([draw(ints(0, n - 1)), draw(ints(0, w))])
        rules.append([i, [c for c, _ in cs], [s for _, s in cs], draw(ints(0, 3))])
        if draw(ints(0, 2)) == 0:
            j = draw(ints(0, n - 1))
            rules.append([i, [j], [draw(ints(-w, w))], draw(ints(0, 3))])
    if draw(st.booleans()):
        # an unproductive class bounding everything above it
        rules.append([0, [n], [draw(ints(0, w))], 0])
    if draw(ints(0, 2)) == 0:
        rules.append([draw(ints(0, n)), [], [], 3])
    perm = draw(st.permutations(range(len(rules))))
    return {
        "rules": [rules[i] for i in perm],
        "perm": draw(st.lists(ints(0, 50), min_size=0, max_size=14)),
        "query": 0,
    }


# ---------------------------------------------------------------- real searches


def expected_keys(css, rule, reverse):
    """forest keys of a rule, from the definition"""
    lab = css.classdb.get_label
    if isinstance(rule, VerificationRule):
        return [(lab(rule.comb_class), (), ())]
    kids = tuple(rule.children)
    sh = true_shifts(rule.strategy, rule.comb_class, kids)
    if sh is None:
        sh = tuple(rule.shifts())
    p = lab(rule.comb_class)
    ls = tuple(lab(c) for c in kids)
    out = [(p, ls, sh)]
    if reverse and rule.is_reversible():
        for i in range(len(ls)):
            out.append(
                (
                    ls[i],
                    (p,) + ls[:i] + ls[i + 1 :],
                    (-sh[i],)
                    + tuple(s - sh[i] for j, s in enumerate(sh) if j != i),
                )
            )
    return out


def check_db(case):
    db = mk_db(case["db"])
    tb = db.table_method
    css = None
    keys = []
    orig = tb.add_rule_key
    state = {"n": 0}

    def add(key, *a, **k):
        res = orig(key, *a, **k)
        keys.append(key)
        state["n"] += 1
        if css is not None and state["n"] <= 60:
            vals = compare(tb, keys, range(len(list(css.classdb))), "search")
            for x, v in vals.items():
                if bool(db.is_verified(x)) != (v == INF):
                    raise Violation("is_verified(%d)" % x)
            if bool(db.has_specification()) != (vals.get(css.start_label, 0) == INF):
                raise Violation("has_specification() = %r" % db.has_specification())
        return res

    tb.add_rule_key = add
    origadd = db.add
    recorded = []

    def dbadd(start, ends, rule):
        recorded.append(rule)
        return origadd(start, ends, rule)

    db.add = dbadd
    with guard("building the searcher"):
        css = mk_searcher(case, ruledb=db)
    with guard("search"):
        run_search(case, css)
    # the keys handed to the table are those of the rules recorded (children that are
    # empty may be left out)
    want = set()
    empty = {
        i
        for i in range(len(list(css.classdb)))
        if css.classdb.get_class(i).is_empty()
    }

    def norm(k):
        p, c, s = k
        rest = [(x, y) for x, y in zip(c, s) if x not in empty]
        return (p, tuple(sorted(rest)))

    for r in recorded:
        for k in expected_keys(css, r, case["db"] == "Forest"):
            want.add(norm(k))
    got = {norm((k.parent, k.children, k.shifts)) for k in keys}
    first = [k for k in want if k not in got and k[0] not in empty]
    if first:
        raise Violation("rule %r never reached the table" % (first[0],))
    return {"nt": len(keys) >= 4, "tags": [case["db"]]}


PARTS = [
    Part("table", table_case, check_table, 24000, 400000, timeout=30, hang=True),
    Part("chain", chain_case, check_table, 16000, 300000, timeout=30, hang=True),
    Part(
        "db",
        lambda: st.one_of(
            gen.search_case(dbs=("Forest", "ForestNoRev")), gen.reverse_case()
        ),
        check_db,
        1500,
        15000,
    ),
]
