"""C06: equivalence classes are the strongly connected components."""
from hypothesis import strategies as st

from lib import gen
from lib.engine import Violation, mk_db, mk_searcher, more_levels, run_search
from lib.gen import ints
from lib.refmodels import reach
from lib.runner import Part
from lib.specoracle import guard

from comb_spec_searcher.equiv_db import EquivalenceDB

RULE = (
    "part ops: random interleavings of two-way edges, one-way edges, verified marks, cycle "
    "detections and queries over up to 9 (sparse) labels, compared with naive reachability "
    "after every cycle detection (and soundness after every step); part cycles: structured "
    "digraphs of interlocking one-way cycles; part search: edges recorded by real searches. "
    "Non-trivial: some component needs a one-way cycle"
)


class Model:
    def __init__(self):
        self.edges = set()
        self.two = set()
        self.ver = set()
        self.nodes = set()

    def scc(self):
        r = reach(self.edges, self.nodes)
        return {x: frozenset(y for y in r[x] if x in r[y]) for x in self.nodes}

    def two_scc(self):
        r = reach(self.two, self.nodes)
        return {x: frozenset(r[x]) for x in self.nodes}


def full_check(db, m, labels, pairs=True):
    scc = m.scc()
    for a in labels:
        scc.setdefault(a, frozenset([a]))
    for a in labels:
        va = bool(m.ver & scc[a])
        with guard("is_verified"):
            got = db.is_verified(a)
        if bool(got) != va:
            raise Violation("is_verified(%d) is %r, expected %r" % (a, got, va))
        for b in labels:
            with guard("equivalent"):
                got = db.equivalent(a, b)
            if bool(got) != (b in scc[a]):
                raise Violation(
                    "equivalent(%d, %d) is %r, edges %r" % (a, b, got, sorted(m.edges))
                )
            with guard("__getitem__"):
                same = db[a] == db[b]
            if same != (b in scc[a]):
                raise Violation("representatives of %d and %d" % (a, b))
            if b in scc[a]:
                check_path(db, m, a, b)
        with guard("__getitem__"):
            if db[a] not in scc[a]:
                raise Violation("representative of %d is %d" % (a, db[a]))
        with guard("equivalent_set"):
            es = db.equivalent_set(a)
        if set(es) != set(scc[a]):
            raise Violation("equivalent_set(%d) is %r" % (a, es))


def check_path(db, m, a, b):
    with guard("find_path"):
        p = tuple(db.find_path(a, b))
    if not p or p[0] != a or p[-1] != b:
        raise Violation("path from %d to %d is %r" % (a, b, p))
    for x, y in zip(p, p[1:]):
        if (x, y) not in m.edges:
            raise Violation("path %r uses %d -> %d" % (p, x, y))


def sound_check(db, m, labels):
    """between cycle detections: two-way edges count at once, nothing is merged wrongly"""
    scc = m.scc()
    two = m.two_scc()
    for a in labels:
        for b in labels:
            with guard("equivalent"):
                got = db.equivalent(a, b)
            if got and b not in scc.get(a, {a}):
                raise Violation("%d and %d reported equivalent" % (a, b))
            if not got and b in two.get(a, {a}):
                raise Violation("%d and %d are joined by two-way edges" % (a, b))
            if got:
                check_path(db, m, a, b)
        with guard("is_verified"):
            v = db.is_verified(a)
        if v and not (m.ver & scc.get(a, {a})):
            raise Violation("%d reported verified" % a)
        if not v and m.ver & two.get(a, {a}):
            raise Violation("%d is joined to a verified label" % a)


def check_ops(case):
    db = EquivalenceDB()
    m = Model()
    lab = case["labels"]
    labels = sorted(set(lab))
    nt = False
    tags = set()
    for op in case["ops"]:
        k = op[0]
        with guard("operation %r" % (op,)):
            if k == "two":
                a, b = lab[op[1]], lab[op[2]]
                db.add_two_way_edge(a, b)
                m.edges |= {(a, b), (b, a)}
                m.two |= {(a, b), (b, a)}
                m.nodes |= {a, b}
            elif k == "one":
                a, b = lab[op[1]], lab[op[2]]
                db.add_one_way_edge(a, b)
                m.edges.add((a, b))
                m.nodes |= {a, b}
            elif k == "ver":
                db.set_verified(lab[op[1]])
                m.ver.add(lab[op[1]])
                m.nodes.add(lab[op[1]])
            elif k == "cycles":
                db.connect_cycles()
                # twice is as good as once
                if len(op) > 1 and op[1]:
                    db.connect_cycles()
        m.nodes |= set(labels) if case.get("touch") else set()
        if k == "cycles":
            full_check(db, m, labels)
            s, t = m.scc(), m.two_scc()
            if any(len(s[x]) > len(t[x]) for x in s):
                nt = True
                tags.add("one-way cycle")
            if m.ver:
                tags.add("verified")
        elif case.get("touch"):
            sound_check(db, m, labels)
    return {"nt": nt, "tags": sorted(tags) + ["ops:%d" % (len(case["ops"]) // 10 * 10)]}


@st.composite
def ops_case(draw, n_max=9):
    n = draw(ints(2, n_max))
    lab = draw(st.lists(ints(0, 60), min_size=n, max_size=n, unique=True))
    v = ints(0, n - 1)
    op = st.one_of(
        st.tuples(st.just("one"), v, v),
        st.tuples(st.just("one"), v, v),
        st.tuples(st.just("one"), v, v),
        st.tuples(st.just("two"), v, v),
        st.tuples(st.just("ver"), v),
        st.tuples(st.just("cycles"), ints(0, 1)),
    )
    ops = [list(o) for o in draw(st.lists(op, min_size=1, max_size=30))]
    ops.append(["cycles", 0])
    return {"labels": lab, "ops": ops, "touch": draw(st.booleans())}


@st.composite
def cycles_case(draw):
    """interlocking directed cycles, shuffled, merged in stages"""
    n = draw(ints(3, 12))
    lab = draw(st.permutations(range(n)))
    ops = []
    for _ in range(draw(ints(1, 4))):
        cyc = draw(
            st.lists(ints(0, n - 1), min_size=2, max_size=6, unique=True)
        )
        edges = [["one", a, b] for a, b in zip(cyc, cyc[1:] + cyc[:1])]
        if draw(ints(0, 4)) == 0:
            edges.pop()
        ops += edges
    for _ in range(draw(ints(0, 4))):
        ops.append(["one", draw(ints(0, n - 1)), draw(ints(0, n - 1))])
    for _ in range(draw(ints(0, 2))):
        ops.append(["two", draw(ints(0, n - 1)), draw(ints(0, n - 1))])
    for _ in range(draw(ints(0, 2))):
        ops.append(["ver", draw(ints(0, n - 1))])
    for _ in range(draw(ints(0, 2))):
        ops.append(["cycles", 0])
    perm = draw(st.permutations(range(len(ops))))
    ops = [ops[i] for i in perm] + [["cycles", 0]]
    return {"labels": list(lab), "ops": ops, "touch": draw(ints(0, 3)) == 0}


def check_search(case):
    db = mk_db(case["db"])
    m = Model()
    eq = db.equivdb
    orig = {
        k: getattr(eq, k) for k in ("add_two_way_edge", "add_one_way_edge", "set_verified")
    }

    def two(a, b):
        orig["add_two_way_edge"](a, b)
        m.edges.update({(a, b), (b, a)})
        m.two.update({(a, b), (b, a)})
        m.nodes.update({a, b})

    def one(a, b):
        orig["add_one_way_edge"](a, b)
        m.edges.add((a, b))
        m.nodes.update({a, b})

    def ver(a):
        orig["set_verified"](a)
        m.ver.add(a)
        m.nodes.add(a)

    eq.add_two_way_edge, eq.add_one_way_edge, eq.set_verified = two, one, ver
    with guard("search"):
        css = mk_searcher(case, ruledb=db)
        run_search(case, css)
    with guard("levels"):
        more_levels(css, 1, 40)
    with guard("connect_cycles"):
        eq.connect_cycles()
    labels = list(range(min(40, len(list(css.classdb)))))
    m.nodes |= set(labels)
    full_check(eq, m, labels)
    return {"nt": len(m.edges) >= 3, "tags": [case["db"]]}


PARTS = [
    Part("ops", ops_case, check_ops, 10000, 200000, timeout=20, hang=True),
    Part("cycles", cycles_case, check_ops, 10000, 200000, timeout=20, hang=True),
    Part(
        "search",
        lambda: gen.search_case(dbs=("RuleDB", "Forget")),
        check_search,
        2500,
        20000,
    ),
]
