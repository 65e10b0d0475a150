"""C04: the recorded rule universe is faithful to the strategies."""
from lib import gen
from lib.engine import Violation, mk_db, mk_searcher, more_levels, run_search, start_and_pack
from lib.runner import Part
from lib.specoracle import PackIndex, guard, sid

from comb_spec_searcher.strategies.rule import VerificationRule
from comb_spec_searcher.strategies.strategy import EmptyStrategy

RULE = (
    "random universes, packs, databases and options as in C01; every ruledb.add call of "
    "the whole search is intercepted and judged: parent label, child labels, omitted "
    "children, stored key, and whether a fresh copy of the pack produces that rule; "
    "non-trivial when at least 5 rules were recorded"
)


def check(case):
    _, pack = start_and_pack(case)
    index = PackIndex(pack)
    db = mk_db(case["db"])
    model = {}
    count = [0]
    omitted = [0]
    css_box = []
    orig = db.add
    seen = set()
    is_forest = case["db"].startswith("Forest")
    stored = set()

    def class_of(label, classdb):
        with guard("get_class"):
            c = classdb.get_class(label)
        if label in model:
            if model[label] != c:
                raise Violation("label %d now carries another class" % label)
        else:
            if c in model.values():
                raise Violation("class %r has two labels" % (c,))
            model[label] = c
        return c

    def add(start, ends, rule):
        css = db.searcher
        classdb = css.classdb
        count[0] += 1
        start, ends = int(start), tuple(ends)
        parent = class_of(start, classdb)
        if rule.comb_class != parent:
            raise Violation(
                "rule for %r recorded under the label of %r" % (rule.comb_class, parent)
            )
        # what the strategy says, computed afresh
        strategy = rule.strategy
        if isinstance(strategy, EmptyStrategy):
            if not parent.is_empty():
                raise Violation("empty rule for the non-empty %r" % (parent,))
            kids = ()
        else:
            if isinstance(rule, VerificationRule):
                if not strategy.verified(parent):
                    raise Violation("verification strategy does not apply: %r" % parent)
                kids = ()
            else:
                kids = strategy.decomposition_function(parent)
                if kids is None:
                    raise Violation("strategy %r does not apply to %r" % (strategy, parent))
                kids = tuple(kids)
            if not index.genuine(strategy, parent, kids):
                raise Violation(
                    "not a rule of the pack: %r -> %r by %r" % (parent, kids, strategy)
                )
        if tuple(rule.children) != kids:
            raise Violation("rule object with other children")
        want = [classdb.get_label(c) for c in kids]
        for c, w in zip(kids, want):
            if class_of(w, classdb) != c:
                raise Violation("label of %r carries another class" % (c,))
        # subsequence of the children, leaving out empty ones only
        j = 0
        for c, w in zip(kids, want):
            if j < len(ends) and ends[j] == w:
                j += 1
            elif not (c.is_empty() and strategy.possibly_empty):
                raise Violation("child %r missing from the recorded labels" % (c,))
            else:
                omitted[0] += 1
        if j != len(ends):
            raise Violation("recorded labels %r, children have %r" % (ends, want))
        res = orig(start, ends, rule)
        keep = []
        for c, w in zip(kids, want):
            if c.is_empty() and strategy.possibly_empty:
                omitted[0] += 1
                continue
            keep.append(w)
        stored.add((start, tuple(sorted(keep))))
        seen.add((start, sid(strategy)))
        return res

    db.add = add
    with guard("building the searcher"):
        css = mk_searcher(case, ruledb=db)
    with guard("search"):
        run_search(case, css)
    with guard("further levels"):
        more_levels(css, 2, 80)
    if not is_forest:
        for start, ends in db:
            if (start, tuple(ends)) not in stored:
                raise Violation("stored key %r was never added" % ((start, ends),))
    # the class database agrees with the classes themselves
    n = 0
    for label in css.classdb:
        c = class_of(label, css.classdb)
        if css.classdb.get_label(c) != label:
            raise Violation("label of the class of label %d" % label)
        if css.classdb.is_empty(c, label) != c.is_empty():
            raise Violation("emptiness of %r" % (c,))
        n += 1
    if sorted(model) != list(range(n)):
        raise Violation("labels are not 0..%d" % (n - 1))
    return {
        "nt": count[0] >= 5,
        "tags": [
            case["db"],
            "omitted" if omitted[0] else "none omitted",
            "rules:%d" % min(50, count[0] // 10 * 10),
        ],
    }


PARTS = [
    Part("search", lambda: gen.search_case(), check, 12000, 120000),
    Part("sym", lambda: gen.search_case(nsym=4), check, 2000, 30000),
    Part("reverse", lambda: gen.reverse_case(dbs=("Forest", "RuleDB", "Forget")), check, 3000, 30000),
]
