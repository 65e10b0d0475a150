"""C05: pruning-based detection and proof-tree search are exact."""
import copy
import itertools
from collections import defaultdict

from hypothesis import strategies as st

from lib import gen, intu
from lib.boot import reset
from lib.engine import Skip, Violation, mk_db, mk_searcher, more_levels, run_search
from lib.gen import ints
from lib.refmodels import gfp, iterative, reach
from lib.runner import Part
from lib.specoracle import guard

from comb_spec_searcher.strategies.rule import VerificationRule
from comb_spec_searcher.tree_searcher import (
    iterative_proof_tree_bfs,
    iterative_proof_tree_finder,
    iterative_prune,
    proof_tree_dfs,
    proof_tree_generator_bfs,
    proof_tree_generator_dfs,
    prune,
    random_proof_tree,
    smallish_random_proof_tree,
)

RULE = (
    "part dict: random integer rule dictionaries; part ruledb: random rules between numbered "
    "classes (two-way, one-way, verification, empty children) added to the default and the "
    "memory-saving database in any order with detection queried in between; part search: "
    "databases filled by real searches. Detection is compared with a naive greatest fixed "
    "point / bottom-up closure over the recorded rules up to strongly connected components "
    "and every tree of every finder is validated, the smallest one against exhaustive "
    "search. Non-trivial: a specification exists and some class or rule is pruned or there "
    "is a choice of rules"
)


def check_tree(node, rules, root, what, iter_=False):
    """node is a proof tree over rules (dict label -> set of sorted tuples)"""
    if node is None or node.label != root:
        raise Violation("%s: tree is not rooted at %r" % (what, root))
    used = {}
    leaves = set()
    todo = [node]
    count = 0
    while todo:
        v = todo.pop()
        count += 1
        if count > 20000:
            raise Violation("%s: infinite tree" % what)
        if not v.children:
            leaves.add(v.label)
            continue
        key = tuple(sorted(c.label for c in v.children))
        if key not in rules.get(v.label, ()):
            raise Violation("%s: %r -> %r is not a rule" % (what, v.label, key))
        if used.setdefault(v.label, key) != key:
            raise Violation("%s: class %r has two rules in the tree" % (what, v.label))
        todo.extend(v.children)
    for x in leaves:
        if x not in used and () not in rules.get(x, ()):
            raise Violation("%s: class %r has no rule in the tree" % (what, x))
        if iter_ and x != root and () not in rules.get(x, ()):
            raise Violation("%s: recursion to %r, which is not the root" % (what, x))
    return count


def min_size(rules, root, cap=60000):
    """minimum number of nodes over all proof trees (one rule per class)"""
    best = [None]
    steps = [0]

    def rec(pending, done, size):
        steps[0] += 1
        if steps[0] > cap:
            raise Skip("too many proof trees")
        if best[0] is not None and size >= best[0]:
            return
        pending = [x for x in pending if x not in done]
        if not pending:
            best[0] = size
            return
        x = pending[0]
        for r in sorted(rules[x], key=lambda r: (len(r), r)):
            rec(pending[1:] + list(r), done | {x}, size + len(r))

    rec([root], frozenset(), 1)
    return best[0]


def bfs_trees(rules, root, cap=400):
    """number of trees with independent branches, capped"""
    left = [cap * 4]

    def rec(x, seen):
        left[0] -= 1
        if x in seen or left[0] < 0:
            return 1 if left[0] >= 0 else cap
        tot = 0
        for r in rules[x]:
            p = 1
            for y in r:
                p *= rec(y, seen | {x})
                if p > cap:
                    return cap
            tot += p
            if tot > cap:
                return cap
        return tot

    return rec(root, frozenset())


def forest_check(db_rules, root, stream, iter_flag, pruned=None):
    """judge every tree finder on a rule dictionary; returns tags"""
    full = {k: set(v) for k, v in db_rules.items() if v}
    tags = set()
    want = gfp(full)
    work = {k: set(v) for k, v in full.items()}
    with guard("prune"):
        prune(work)
    if {k: set(v) for k, v in work.items()} != want:
        raise Violation("prune gives %r, expected %r" % (work, want))
    reset((0.004,), stream)
    if root in want:
        tags.add("spec")
        if any(len(v) > 1 for v in want.values()):
            tags.add("choice")
        if want != full:
            tags.add("pruned")
        for i in range(3):
            with guard("random_proof_tree"):
                t = random_proof_tree(copy.deepcopy(want), root)
            check_tree(t, want, root, "random_proof_tree")
        with guard("smallish_random_proof_tree"):
            t = smallish_random_proof_tree(copy.deepcopy(want), root, 0.05)
        smallish = check_tree(t, want, root, "smallish_random_proof_tree")
        if smallish != len(t):
            raise Violation("size of a tree")
        with guard("proof_tree_dfs"):
            _, t = proof_tree_dfs(copy.deepcopy(want), root)
        check_tree(t, want, root, "proof_tree_dfs")
        try:
            best = min_size(want, root, 4000)
        except Skip:
            best = None
        if best is not None:
            sizes = []
            for gen_ in (proof_tree_generator_dfs, proof_tree_generator_bfs):
                n = 40
                if gen_ is proof_tree_generator_bfs and bfs_trees(want, root) > 300:
                    n = 1
                with guard(gen_.__name__):
                    trees = list(itertools.islice(gen_(copy.deepcopy(want), root), n))
                if not trees:
                    raise Violation("%s finds nothing" % gen_.__name__)
                for t in trees:
                    sizes.append(check_tree(t, want, root, gen_.__name__))
            if min(sizes) < best:
                raise Violation("tree smaller than the minimum: harness error?")
            for m in (best - 1, best, best + 1):
                with guard("proof_tree_generator_dfs(maximum)"):
                    t = next(
                        proof_tree_generator_dfs(copy.deepcopy(want), root, maximum=m),
                        None,
                    )
                if (t is None) != (m < best):
                    raise Violation("dfs with maximum %d: minimum is %d" % (m, best))
                if t is not None:
                    if check_tree(t, want, root, "dfs maximum") > m:
                        raise Violation("dfs exceeded its maximum")
            tags.add("min")
    else:
        for gen_ in (proof_tree_generator_dfs, proof_tree_generator_bfs):
            with guard(gen_.__name__):
                if next(gen_(copy.deepcopy(want), root), None) is not None:
                    raise Violation("%s finds a tree for a pruned class" % gen_.__name__)
    # iterative
    done, ok = iterative(full, root)
    with guard("iterative_prune"):
        it = iterative_prune(copy.deepcopy(full), root=root)
    got = {k for k, v in it.items() if v}
    if got - {root} != done - {root} or (root in got) != ok:
        raise Violation("iterative_prune keeps %r, expected %r" % (got, (done, ok)))
    for k, v in it.items():
        for r in v:
            if r not in full.get(k, ()) or not all(x in done for x in r):
                raise Violation("iterative_prune keeps %r -> %r" % (k, r))
    if ok:
        tags.add("iterative")
        with guard("iterative_proof_tree_finder"):
            t = iterative_proof_tree_finder(copy.deepcopy(it), root)
        check_tree(t, full, root, "iterative_proof_tree_finder", True)
        size = bfs_size(it, root)
        if size is not None:
            counted = Counted(it)
            counted.left = 8 * size + 50
            with guard("iterative_proof_tree_bfs"):
                t = iterative_proof_tree_bfs(counted, root)
            check_tree(t, it, root, "iterative_proof_tree_bfs", True)
            tags.add("iterative-bfs")
    return tags


class Counted(dict):
    """a rule dictionary that stops a search which expands too many nodes"""

    left = 0

    def __getitem__(self, key):
        self.left -= 1
        if self.left < 0:
            raise Violation("iterative_proof_tree_bfs does not stop")
        return dict.__getitem__(self, key)


def bfs_size(rules, root, cap=5000):
    """bound on the nodes a breadth first search expands, whatever rule of a
    class it takes; None when that can run in circles or is too large"""
    memo = {}

    def rec(x, path):
        if x in path:
            return None
        if x in memo:
            return memo[x]
        most = 1
        for r in rules[x]:
            tot = 1
            for y in r:
                if y != root:
                    n = rec(y, path | {x})
                    if n is None or tot + n > cap:
                        return None
                    tot += n
            most = max(most, tot)
        memo[x] = most
        return most

    return rec(root, frozenset())


@st.composite
def dict_case(draw):
    n = draw(ints(1, 7))
    rule = st.tuples(
        ints(0, n - 1), st.lists(ints(0, n - 1), min_size=0, max_size=3)
    )
    rules = draw(st.lists(rule, min_size=1, max_size=14))
    for _ in range(draw(ints(0, 2))):
        rules.append((draw(ints(0, n - 1)), []))
    return {
        "rules": [[p, list(c)] for p, c in rules],
        "root": draw(ints(0, n - 1)),
        "stream": draw(st.lists(ints(0, 100), max_size=20)),
    }


def check_dict(case):
    rules = defaultdict(set)
    for p, c in case["rules"]:
        rules[p].add(tuple(sorted(c)))
    tags = forest_check(rules, case["root"], case["stream"], False)
    return {
        "nt": "spec" in tags and ("choice" in tags or "pruned" in tags),
        "tags": sorted(tags),
    }


# ----------------------------------------------------------------- databases


class Recorded:
    """reference: rules as recorded, equivalences by naive reachability"""

    def __init__(self):
        self.rules = set()  # (start, cleaned ends)
        self.edges = set()
        self.ver = set()

    def add(self, start, ends, rule, is_empty):
        kept = tuple(
            sorted(
                e
                for e, c in zip(ends, rule.children)
                if not (rule.possibly_empty and is_empty(c))
            )
        )
        self.rules.add((start, kept))
        if isinstance(rule, VerificationRule):
            self.ver.add(start)
        if len(kept) == 1:
            self.edges.add((start, kept[0]))
            if rule.is_two_way():
                self.edges.add((kept[0], start))

    def classes(self, extra=()):
        nodes = set(extra)
        for s, e in self.rules:
            nodes.add(s)
            nodes.update(e)
        r = reach(self.edges, nodes)
        return {x: min(y for y in r[x] if x in r[y]) for x in nodes}

    def up_to_eq(self, extra=()):
        rep = self.classes(extra)
        out = defaultdict(set)
        for s, e in self.rules:
            if len(e) == 1 and rep[s] == rep[e[0]]:
                continue
            out[rep[s]].add(tuple(sorted(rep[x] for x in e)))
        return rep, out


def judge(css, ref, iter_, trees, tags, stream, smallest=True):
    """compare a RuleDBBase with the reference"""
    db = css.ruledb
    root = css.start_label
    rep, rules = ref.up_to_eq([root])
    alive = gfp(rules)
    if iter_:
        done, ok = iterative(rules, rep[root])
        want = ok
    else:
        want = rep[root] in alive
    with guard("has_specification"):
        got = db.has_specification()
    if bool(got) != want:
        raise Violation(
            "has_specification() is %r, reference says %r (rules %r)"
            % (got, want, sorted(ref.rules))
        )
    if iter_:
        full = {r for r in (done if ok else done - {rep[root]})}
    else:
        full = set(alive)
    verset = {rep[x] for x in ref.ver if x in rep}
    for x in rep:
        with guard("is_verified"):
            v = db.is_verified(x)
        w = rep[x] in full or rep[x] in verset
        if bool(v) != w and not (iter_ and v):
            raise Violation("is_verified(%d) is %r, expected %r" % (x, v, w))
    tags.add("spec" if want else "nospec")
    if not (want and trees) or not hasattr(db, "_get_specification_node"):
        return want
    # the trees speak about the database's own representatives
    name = {x: db.equivdb[x] for x in rep}
    dbrules = defaultdict(set)
    inv = {}
    for x in rep:
        inv.setdefault(rep[x], set()).add(name[x])
    if any(len(v) != 1 for v in inv.values()) or len(
        {min(v) for v in inv.values()}
    ) != len(inv):
        raise Violation("equivalence classes differ from the reference")
    one = {k: min(v) for k, v in inv.items()}
    src = rules if iter_ else alive
    for k, v in src.items():
        for r in v:
            dbrules[one[k]].add(tuple(sorted(one[x] for x in r)))
    if any(len(v) > 1 for v in dbrules.values()):
        tags.add("choice")
    if not iter_ and sum(map(len, alive.values())) != sum(map(len, rules.values())):
        tags.add("pruned")
    reset((0.003,), stream)
    r = one[rep[root]]
    if iter_:
        with guard("_get_specification_node"):
            t = db._get_specification_node(0.02, False)
        check_tree(t, dbrules, r, "iterative node", True)
        tags.add("iterative")
        return want
    with guard("_get_specification_node"):
        t = db._get_specification_node(0.02, False)
    check_tree(t, dbrules, r, "smallish node")
    if smallest:
        try:
            best = min_size(dbrules, r, 3000)
        except Skip:
            return want
        with guard("_get_specification_node(smallest)"):
            t = db._get_specification_node(0.02, True)
        size = check_tree(t, dbrules, r, "smallest node")
        if size != best:
            raise Violation("smallest tree has %d nodes, minimum is %d" % (size, best))
        tags.add("smallest")
    return want


@st.composite
def ruledb_case(draw):
    n = draw(ints(2, 7))
    empty = draw(st.lists(ints(0, n - 1), max_size=2, unique=True)) if draw(
        ints(0, 2)
    ) == 0 else []
    rules = []
    for _ in range(draw(ints(1, 14))):
        p = draw(ints(0, n - 1))
        k = draw(ints(0, 9))
        if k < 2:
            rules.append({"p": p, "c": [], "s": [], "k": "v"})
            continue
        c = draw(
            st.lists(
                ints(0, n - 1),
                min_size=1,
                max_size=draw(st.sampled_from([1, 1, 2, 3])),
            )
        )
        if p in empty or c == [p]:
            continue
        rules.append(
            {
                "p": p,
                "c": c,
                "s": [0] * len(c),
                "tw": draw(st.booleans()),
                "pe": draw(st.booleans()) if not set(c) & set(empty) else True,
            }
        )
        if all(x in empty for x in c):
            rules.pop()
    return {
        "n": n,
        "empty": empty,
        "rules": rules,
        "start": draw(ints(0, n - 1)),
        "iterative": draw(ints(0, 3)) == 0,
        "db": draw(st.sampled_from(["RuleDB", "Forget"])),
        "query": draw(ints(0, 3)),
        "stream": draw(st.lists(ints(0, 100), max_size=20)),
    }


@st.composite
def wide_case(draw):
    """bigger proof trees: most classes have one rule, a few have several"""
    n = draw(ints(8, 18))
    empty = [n - 1] if draw(ints(0, 5)) == 0 else []
    rules = []
    choices = draw(ints(1, 7))

    def one(p):
        back = draw(ints(0, 7)) == 0
        up = [min(n - 1, p + draw(ints(1, 3)))]
        while len(up) < 4 and draw(ints(0, 2)) == 0:
            up.append(draw(ints(0, n - 1)) if back else min(n - 1, p + draw(ints(1, 6))))
        if not empty and p == n - 1 or [p] == up:
            return {"p": p, "c": [], "s": [], "k": "v"}
        return {
            "p": p,
            "c": up,
            "s": [0] * len(up),
            "tw": draw(ints(0, 3)) == 0,
            "pe": draw(st.booleans()) if not set(up) & set(empty) else True,
        }

    for p in range(n):
        if p in empty:
            continue
        rules.append(one(p))
        if draw(ints(0, 3)) == 0:
            rules.append({"p": p, "c": [], "s": [], "k": "v"})
    for _ in range(choices):
        p = draw(ints(0, n - 2))
        rules.append(one(p))
    rules = [
        r for r in rules if not r["c"] or not all(x in empty for x in r["c"])
    ]
    if draw(st.booleans()):
        rules.reverse()
    return {
        "n": n,
        "empty": empty,
        "rules": rules,
        "start": draw(st.sampled_from([0, 0, 0, 1, 2])),
        "iterative": draw(ints(0, 5)) == 0,
        "db": draw(st.sampled_from(["RuleDB", "RuleDB", "Forget"])),
        "query": 0,
        "stream": draw(st.lists(ints(0, 100), max_size=20)),
    }


def check_ruledb(case):
    if case["start"] in case["empty"] or not case["rules"]:
        raise Skip("empty start")
    reset((0.003,), case["stream"])
    css = intu.mk_searcher(case, mk_db(case["db"]))
    emp = set(case["empty"])
    for i in range(case["n"]):
        css.classdb.get_label(intu.IC(i, i in emp))
    ref = Recorded()
    tags = {case["db"]}
    for j, r in enumerate(case["rules"]):
        rule = intu.mk_rule(case, r)
        start = css.classdb.get_label(rule.comb_class)
        ends = tuple(css.classdb.get_label(c) for c in rule.children)
        with guard("add"):
            css.ruledb.add(start, ends, rule)
        ref.add(start, ends, rule, lambda c: c.is_empty())
        last = j == len(case["rules"]) - 1
        if last or (case["query"] and j % case["query"] == 0):
            judge(css, ref, case["iterative"], last, tags, case["stream"])
    return {
        "nt": "spec" in tags and bool(tags & {"choice", "pruned", "iterative"}),
        "tags": sorted(tags),
    }


def check_search(case):
    db = mk_db(case["db"])
    ref = Recorded()
    orig = db.add

    def add(start, ends, rule):
        orig(start, ends, rule)
        ref.add(start, tuple(ends), rule, lambda c: c.is_empty())

    db.add = add
    with guard("building the searcher"):
        css = mk_searcher(case, ruledb=db)
    it = css.strategy_pack.iterative
    tags = {case["db"], "it" if it else "rec"}
    with guard("search"):
        _, spec = run_search(case, css)
    want = judge(css, ref, it, True, tags, case["stream"])
    if (spec is not None) != want:
        raise Violation("auto_search and the reference disagree: %r" % want)
    with guard("further levels"):
        more_levels(css, 1, 60)
    judge(css, ref, it, True, tags, case["stream"])
    return {
        "nt": "spec" in tags and len(ref.rules) >= 4,
        "tags": sorted(tags),
    }


PARTS = [
    Part("dict", dict_case, check_dict, 12000, 200000, timeout=4),
    Part("ruledb", ruledb_case, check_ruledb, 9000, 150000),
    Part("wide", wide_case, check_ruledb, 3000, 60000, timeout=4),
    Part(
        "search",
        lambda: gen.search_case(dbs=("RuleDB", "Forget")),
        check_search,
        4000,
        50000,
        timeout=5,
    ),
]
