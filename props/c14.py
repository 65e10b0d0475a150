"""C14: default and memory-saving rule databases are observationally identical."""
from hypothesis import strategies as st

from lib import gen, intu
from lib.boot import reset
from lib.engine import Skip, Violation, mk_db, mk_searcher, more_levels, run_search
from lib.gen import ints
from lib.runner import Part
from lib.specoracle import guard

from props.c05 import ruledb_case

RULE = (
    "part search: every rule recorded by a real search (either database in charge) is fed to "
    "both databases in lock step; after every insertion verified labels, stored keys, "
    "membership of stored / absent / permuted keys are compared and the strategy handed back "
    "for the new key and one older key is re-applied; detection is compared at "
    "case-controlled moments; part ints: the same with arbitrary rules between numbered "
    "classes. Non-trivial: at least 4 insertions"
)


def key_of_rule(css, rule):
    kids = [
        css.classdb.get_label(c)
        for c in rule.children
        if not (rule.possibly_empty and c.is_empty())
    ]
    return (css.classdb.get_label(rule.comb_class), tuple(sorted(kids)))


def check_strategy(css, db, key, name):
    cls = css.classdb.get_class(key[0])
    if cls.is_empty():
        return
    with guard("%s: strategy for %r" % (name, key)):
        if key in db.eqv_rule_to_strategy:
            strat = db.eqv_rule_to_strategy[key]
            eqv = True
        else:
            strat = db.rule_to_strategy[key]
            eqv = False
        rule = strat(cls)
        got = key_of_rule(css, rule)
        two = rule.is_two_way() if eqv else None
    if got != key:
        raise Violation(
            "%s: strategy %r handed back for %r produces %r" % (name, strat, key, got)
        )
    if eqv and not two:
        raise Violation("%s: strategy for the equivalence %r is one-way" % (name, key))


def compare(css, a, b, step, case, labels, newkey, first):
    with guard("iteration"):
        ka, kb = list(a), list(b)
    if set(ka) != set(kb) or len(ka) != len(kb):
        raise Violation(
            "stored rules differ: %r" % sorted(set(ka) ^ set(kb), key=repr)[:4]
        )
    for name in ("rule_to_strategy", "eqv_rule_to_strategy"):
        with guard(name):
            da, dbb = getattr(a, name), getattr(b, name)
            if set(da) != set(dbb) or len(da) != len(dbb):
                raise Violation("%s differ" % name)
    for x in labels:
        with guard("is_verified"):
            va, vb = a.is_verified(x), b.is_verified(x)
        if bool(va) != bool(vb):
            raise Violation("label %d: verified %r / %r" % (x, va, vb))
    # membership
    probes = [newkey]
    if ka:
        k = ka[(case["probe"] + step) % len(ka)]
        probes += [k, (k[0], tuple(reversed(k[1]))), (k[0], k[1] + (k[0],)), (k[0], k[1][1:])]
    n = max(1, len(labels))
    probes.append(((case["probe"] + step) % n, ((case["probe"] * 7 + step) % n,)))
    probes.append(((case["probe"] * 3 + step) % n, ()))
    stored = {(s, tuple(e)) for s, e in ka}
    for s, e in probes:
        want = (s, tuple(sorted(e))) in stored
        for ends in (tuple(e), list(e)):
            with guard("contains"):
                ca, cb = a.contains(s, ends), b.contains(s, ends)
            if bool(ca) != bool(cb) or bool(ca) != want:
                raise Violation(
                    "contains(%r, %r): %r / %r, stored: %r" % (s, ends, ca, cb, want)
                )
    for k in probes[:2]:
        k = (k[0], tuple(k[1]))
        if k in stored:
            check_strategy(css, a, k, "default")
            check_strategy(css, b, k, "memory-saving")
    if case["query"] and step % case["query"] == 0:
        with guard("has_specification"):
            sa, sb = a.has_specification(), b.has_specification()
        if bool(sa) != bool(sb):
            raise Violation("has_specification: %r / %r" % (sa, sb))
        for x in labels:
            if bool(a.is_verified(x)) != bool(b.is_verified(x)):
                raise Violation("label %d: verified differently after detection" % x)
        return "spec" if sa else "nospec"
    return None


def finish(css, a, b, tags):
    for k in list(a):
        check_strategy(css, a, k, "default")
        check_strategy(css, b, k, "memory-saving")
    with guard("has_specification"):
        sa, sb = a.has_specification(), b.has_specification()
    if bool(sa) != bool(sb):
        raise Violation("has_specification at the end: %r / %r" % (sa, sb))
    tags.add("spec" if sa else "nospec")
    n = len(list(css.classdb))
    for x in range(n):
        for y in range(n):
            with guard("are_equivalent"):
                if a.are_equivalent(x, y) != b.are_equivalent(x, y):
                    raise Violation("equivalence of %d and %d" % (x, y))
        if bool(a.is_verified(x)) != bool(b.is_verified(x)):
            raise Violation("label %d: verified differently" % x)


def check_search(case):
    main = mk_db(case["db"])
    other = mk_db("Forget" if case["db"] == "RuleDB" else "RuleDB")
    a, b = (main, other) if case["db"] == "RuleDB" else (other, main)
    tags = {case["db"]}
    orig = main.add
    step = [0]
    box = []
    early = []

    def add(start, ends, rule):
        if not box:
            # while the searcher is being built
            early.append((start, tuple(ends), rule))
            return orig(start, ends, rule)
        css = box[0]
        orig(start, ends, rule)
        with guard("add"):
            other.add(start, tuple(ends), rule)
        step[0] += 1
        key = key_of_rule(css, rule)
        if step[0] <= 150:
            t = compare(css, a, b, step[0], case, list(css.classdb), key, True)
            if t:
                tags.add(t)

    main.add = add
    orig_has = main.has_specification

    def has_specification():
        # the searcher asks the database in charge: the other one is asked at
        # the same moment, as detection also records which labels are verified
        res = orig_has()
        if box:
            with guard("has_specification"):
                res2 = other.has_specification()
            if bool(res) != bool(res2):
                raise Violation("has_specification: %r / %r" % (res, res2))
        return res

    main.has_specification = has_specification
    with guard("building the searcher"):
        css = mk_searcher(case, ruledb=main)
        other.link_searcher(css)
        for s, e, r in early:
            other.add(s, e, r)
    box.append(css)
    with guard("search"):
        run_search(case, css)
    with guard("levels"):
        more_levels(css, 1, 60)
    finish(css, a, b, tags)
    if any(c.is_empty() for c in map(css.classdb.get_class, css.classdb)):
        tags.add("empties")
    return {"nt": step[0] >= 4, "tags": sorted(tags)}


@st.composite
def search_case(draw):
    mk = gen.net_case if draw(ints(0, 4)) == 0 else gen.search_case
    case = draw(mk(dbs=("RuleDB", "Forget")))
    case["smallest"] = False
    case["probe"] = draw(ints(0, 50))
    case["query"] = draw(ints(0, 4))
    return case


@st.composite
def ints_case(draw):
    case = draw(ruledb_case())
    case["probe"] = draw(ints(0, 50))
    case["as_strats"] = draw(st.booleans())
    return case


def check_ints(case):
    if not case["rules"]:
        raise Skip("no rules")
    reset((0.003,), case["stream"])
    a, b = mk_db("RuleDB"), mk_db("Forget")
    css = intu.mk_searcher(case, a)
    b.link_searcher(css)
    emp = set(case["empty"])
    tags = set()
    for j, r in enumerate(case["rules"]):
        rule = intu.mk_rule(case, r)
        if r["p"] in emp:
            raise Skip("rule of an empty class")
        start = css.classdb.get_label(rule.comb_class)
        ends = tuple(css.classdb.get_label(c) for c in rule.children)
        with guard("add"):
            a.add(start, ends, rule)
            b.add(start, ends, rule)
        t = compare(
            css, a, b, j + 1, case, list(css.classdb), key_of_rule(css, rule), False
        )
        if t:
            tags.add(t)
    finish(css, a, b, tags)
    return {"nt": len(case["rules"]) >= 4, "tags": sorted(tags)}


PARTS = [
    Part("search", search_case, check_search, 6000, 80000),
    Part("ints", ints_case, check_ints, 6000, 100000),
]
