"""C17: a search pickled or interrupted at any point resumes faithfully."""
import copy
import pickle

from lib import gen
from lib.boot import CLOCK, RANDOM, RESET_HOOKS, reset
from lib.engine import Skip, TooBig, Violation, choose_n, limit_classes, mk_searcher
from lib.runner import Part
from lib.specoracle import check_spec, check_terms, guard, sid, spec_tags
from lib.gen import ints
from hypothesis import strategies as st

from comb_spec_searcher.class_queue import DefaultQueue
from comb_spec_searcher.exception import (
    ExceededMaxtimeError,
    NoMoreClassesToExpandError,
    SpecificationNotFound,
)

RULE = (
    "searches (four rule databases) driven one work packet at a time, by levels and by "
    "time-limited auto_search calls under a controlled clock. Part resume: pickled at every "
    "prefix, the restored searcher compared with the original and, from chosen prefixes, "
    "given the same further calls as the original. Part interrupt: a search cut by its "
    "time limit at generated points against the uninterrupted one. Part chain: histories "
    "mixing every kind of call with pickling. Non-trivial: at least 5 classes and 5 packets, "
    "and one cut with both work done before and work done after it"
)

LOG = []


def _install():
    orig = DefaultQueue.__next__

    def __next__(self):
        wp = orig(self)
        LOG.append((id(self), wp.label, tuple(map(repr, wp.strategies)), bool(wp.inferral)))
        return wp

    DefaultQueue.__next__ = __next__


_install()
RESET_HOOKS.append(LOG.clear)


class budget:
    """bounds the universe for the time of a call"""

    def __init__(self, css, maximum=90):
        self.css = css
        self.maximum = maximum

    def __enter__(self):
        limit_classes(self.css, self.maximum)

    def __exit__(self, *a):
        self.css.classdb.__dict__.pop("add", None)


def rules_of(css):
    db = css.ruledb
    if hasattr(db, "table_method"):
        return sorted(
            (repr(k) for k in getattr(db.table_method, "_rules", ())),
        )
    return sorted(db)


def strategies_of(css):
    db = css.ruledb
    if type(db).__name__ != "RuleDB":
        return None
    return sorted(
        (key, sid(s))
        for d in (db.rule_to_strategy, db.eqv_rule_to_strategy)
        for key, s in d.items()
    )


def remaining(css):
    q = copy.deepcopy(css.classqueue)
    out = []
    n = len(LOG)
    for i, wp in enumerate(q):
        out.append((wp.label, tuple(map(repr, wp.strategies)), bool(wp.inferral)))
        if i > 300:
            break
    del LOG[n:]
    return out


def snapshot(css):
    """the universe: classes, labels, emptiness, rules, verified set, work left"""
    db = css.classdb
    labels = sorted(db)
    return {
        "classes": [(l, repr(db.get_class(l))) for l in labels],
        "lookup": [db.get_label(db.get_class(l)) for l in labels],
        "empty": list(getattr(db, "empty_list", ())),
        "rules": rules_of(css),
        "strategies": strategies_of(css),
        "verified": [bool(css.ruledb.is_verified(l)) for l in labels],
        "queue": remaining(css),
        "levels": css.classqueue.levels_completed,
        "tried": sorted(getattr(css, "tried_to_verify", ())),
        "sym": sorted(getattr(css, "symmetry_expanded", ())),
        "inf": sorted(getattr(css, "inferral_expanded", ())),
        "start": css.start_label,
    }


def same_snapshot(a, b, what):
    for k in a:
        if a[k] != b[k]:
            raise Violation(
                "%s: %s differ: %s" % (what, k, first_difference(a[k], b[k]))
            )


def first_difference(a, b):
    if isinstance(a, list) and isinstance(b, list):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return "item %d: %r / %r" % (i, x, y)
        return "%d / %d items" % (len(a), len(b))
    return "%r / %r" % (a, b)


def restored(css, what="restored searcher"):
    with guard("pickle"):
        new = pickle.loads(pickle.dumps(css))
    with guard("comparison"):
        if not new == css or not css == new:
            raise Violation("%s is not equal to the original" % what)
        if new != css:
            raise Violation("%s is different from the original" % what)
    if new.ruledb.searcher is not new:
        raise Violation("%s: its rule database belongs to another searcher" % what)
    return new


ALLOWED = (ExceededMaxtimeError, NoMoreClassesToExpandError, SpecificationNotFound)


def call(css, op, stream):
    """run one call -> comparable outcome; clock and random source restarted"""
    name = op[0]
    CLOCK.reset(op[1] if len(op) > 1 and isinstance(op[1], list) else (1.0,))
    RANDOM.reset(stream)
    try:
        with budget(css), guard(name, allow=ALLOWED):
            if name == "one":
                return ("spec", css.auto_search(max_expansion_time=0))
            if name == "auto":
                return (
                    "spec",
                    css.auto_search(max_expansion_time=op[2], perc=op[3], smallest=op[4]),
                )
            if name == "level":
                css.do_level()
                return ("level", css.classqueue.levels_completed)
            if name == "has":
                return ("has", bool(css.has_specification()))
            if name == "spec":
                return ("spec", css.get_specification(smallest=op[2]))
            if name == "status":
                # (status() of a searcher that has not called anything yet cannot
                # print its empty table; not a matter of this property)
                if css.func_calls:
                    css.status(elaborate=op[2])
                return ("status",)
            raise AssertionError(name)
    except ALLOWED as e:
        return ("raise", type(e).__name__)
    except TooBig as e:
        raise Skip("universe too big") from e


def log_of(css, start):
    me = id(css.classqueue)
    return [e[1:] for e in LOG[start:] if e[0] == me]


def same_outcome(css, a, b, what, smallest=False):
    """the same answers. Which of several specifications is returned depends on random
    choices and on the order of sets, which pickling does not keep, so another one of
    the same universe has to be as valid (and as small, when the smallest is asked for)"""
    if a[0] != b[0]:
        raise Violation("%s: %r / %r" % (what, a[:1], b[:1]))
    if a[0] == "spec":
        x, y = a[1], b[1]
        if set(x.rules_dict) == set(y.rules_dict) and x == y:
            return
        if smallest and size_of(css, x) != size_of(css, y):
            raise Violation(
                "%s: smallest specifications with %d / %d nodes"
                % (what, size_of(css, x), size_of(css, y))
            )
        judge(css, x)
        judge(css, y)
    elif a != b:
        raise Violation("%s: %r / %r" % (what, a, b))


def size_of(css, spec):
    """number of nodes of the proof tree behind a specification (what `smallest`
    minimises), repeated classes counted every time"""
    tot = 1
    for r in spec.rules_dict.values():
        kids = [c for c in r.children if not (r.possibly_empty and c.is_empty())]
        if r.is_equivalence() or len(kids) == 1 and css.ruledb.are_equivalent(
            css.classdb.get_label(r.comb_class), css.classdb.get_label(kids[0])
        ):
            continue
        tot += len(kids)
    return tot


def judge(css, spec):
    check_spec(spec, css.start_class, [css.strategy_pack])
    check_terms(spec, css.start_class, choose_n(css.start_class, cap=60, top=6))


def smallest_ok(css):
    return not css.strategy_pack.iterative and hasattr(css.ruledb, "equivdb")


def continue_both(a, b, ops, stream, what):
    """the same calls on both; a first, so that shared state would show"""
    before = snapshot(b)
    outs = []
    done = 0
    snaps = []
    logs = []
    for op in ops:
        n = len(LOG)
        outs.append(call(a, op, stream))
        logs.append(log_of(a, n))
        snaps.append(snapshot(a))
        done += len(logs[-1])
        if outs[-1][0] == "spec" and op[0] != "spec":
            break
    same_snapshot(before, snapshot(b), "%s: state shared with the original" % what)
    for op, out, log, snap in zip(ops, outs, logs, snaps):
        n = len(LOG)
        small = op[0] in ("auto", "spec") and op[-1]
        same_outcome(
            b, out, call(b, op, stream), "%s: %s" % (what, op[0]), smallest=small
        )
        if log != log_of(b, n):
            raise Violation(
                "%s: %s: other work: %s" % (what, op[0], first_difference(log, log_of(b, n)))
            )
        same_snapshot(snap, snapshot(b), "%s: after %s" % (what, op[0]))
    if "func_times" in a.__dict__:
        # the time spent is not part of what has to agree
        b.func_times = a.func_times
    with guard("comparison"):
        if not a == b:
            raise Violation("%s: searchers differ after the same calls" % what)
    return outs, done


def tail_ops(css, case):
    """finish the search by the call given in the case"""
    small = bool(case["smallest"]) and smallest_ok(css)
    if case["tail"] == "ones":
        return [["one"]] * 40
    if case["tail"] == "levels":
        return [["level"]] * 4 + [["has"], ["auto", [0.5], None, 1, small]]
    return [["auto", case["steps"], None, case["perc"], small]]


def check_resume(case):
    css = mk_searcher(case)
    cuts = []
    k = 0
    last = None
    blobs = []
    while k <= 60:
        new = restored(css, "searcher restored after %d packets" % k)
        if k in case["at"]:
            same_snapshot(snapshot(css), snapshot(new), "restored after %d packets" % k)
        # the original is continued from a copy, so that every prefix is reached
        blobs.append(new)
        last = call(css, ["one"], case["stream"])
        k += 1
        if last != ("raise", "ExceededMaxtimeError"):
            break
    todo = sorted({i % len(blobs) for i in case["at"]})
    work = 0
    for i in todo:
        orig = blobs[i]
        new = restored(orig)
        what = "restored after %d packets" % i
        outs, done = continue_both(orig, new, tail_ops(orig, case), case["stream"], what)
        if done and i:
            work += 1
        if outs[-1][0] == "spec":
            judge(orig, outs[-1][1])
    n = len(list(css.classdb))
    tags = {case["db"], "end:%s" % (last[1] if last[0] == "raise" else last[0])}
    tags.add("packets:%s" % ("<5" if k < 5 else "5-19" if k < 20 else ">=20"))
    return {"nt": n >= 5 and k >= 5 and work > 0, "tags": sorted(tags)}


def check_interrupt(case):
    """one packet per slice: an interrupted search does the work of an uninterrupted one"""
    steps = [4000.0]
    small = bool(case["smallest"])
    css = mk_searcher(case)
    small = small and smallest_ok(css)
    n0 = len(LOG)
    whole = call(css, ["auto", steps, None, 100, small], case["stream"])
    log = log_of(css, n0)
    want = snapshot(css)
    other = mk_searcher(case)
    got = []
    calls = 0
    cuts = 0
    while True:
        limit = case["limits"][calls % len(case["limits"])]
        calls += 1
        n = len(LOG)
        out = call(other, ["auto", steps, limit * 4000.0, 100, small], case["stream"])
        part = log_of(other, n)
        got += part
        if out != ("raise", "ExceededMaxtimeError"):
            break
        if not part:
            # both hold: the limit is reached and there is no work left
            if remaining(other):
                raise Violation("a time limited call did no work")
            case = {**case, "limits": [10**6]}
        cuts += 1
        if case["pickle"] and calls % 2:
            other = restored(other, "searcher restored after its time limit")
        if len(got) > len(log):
            raise Violation("more work when interrupted: %d packets" % len(got))
    if got != log:
        raise Violation("other work when interrupted: %s" % first_difference(got, log))
    if out[0] != whole[0] or (out[0] == "raise" and out != whole):
        raise Violation("answers %r when interrupted, else %r" % (out[:2], whole[:2]))
    have = snapshot(other)
    if case["db"] == "Forget":
        # recomputing rules (in a comparison, or for a specification, which may be
        # a random one) asks for the emptiness of the classes met
        for i, (x, y) in enumerate(zip(want["empty"], have["empty"])):
            if x is None or y is None:
                want["empty"][i] = have["empty"][i] = None
    same_snapshot(want, have, "after an interrupted search")
    tags = {case["db"], "cuts:%s" % ("0" if not cuts else "1-3" if cuts < 4 else ">3")}
    if out[0] == "spec":
        judge(other, out[1])
        judge(css, whole[1])
        tags |= spec_tags(out[1])
    n = len(want["classes"])
    return {"nt": n >= 5 and len(log) >= 5 and cuts > 0, "tags": sorted(tags)}


def check_chain(case):
    css = mk_searcher(case)
    small = bool(case["smallest"]) and smallest_ok(css)
    tags = {case["db"]}
    work = 0
    cuts = 0
    found = 0
    for op in case["ops"]:
        op = list(op)
        if op[0] == "pickle":
            twin = restored(css)
            ops = [[*o[:-1], small] if o[0] in ("auto", "spec") else o for o in op[1]]
            outs, done = continue_both(css, twin, ops, case["stream"], "after a pickle")
            if work and done:
                cuts += 1
            work += done
            if op[2]:
                css = twin
        else:
            if op[0] in ("auto", "spec"):
                op[-1] = small
            n = len(LOG)
            outs = [call(css, op, case["stream"])]
            work += len(log_of(css, n))
        for out in outs:
            tags.add(out[1] if out[0] == "raise" else out[0])
            if out[0] == "spec":
                found += 1
                judge(css, out[1])
    n = len(list(css.classdb))
    return {"nt": n >= 5 and work >= 5 and cuts > 0, "tags": sorted(tags)}


STEP = st.sampled_from([0.0, 0.01, 0.1, 0.5, 1.0, 4.0])


@st.composite
def op_doc(draw):
    k = draw(ints(0, 9))
    if k < 3:
        return ["one"]
    if k < 5:
        return ["level"]
    if k < 8:
        return [
            "auto",
            draw(st.lists(STEP.filter(bool), min_size=1, max_size=3)),
            draw(st.sampled_from([0, 1, 3, 10, 30, 100])),
            draw(st.sampled_from([1, 1, 10, 100])),
            False,
        ]
    if k == 8:
        return draw(st.sampled_from([["has"], ["status", [0.0], True], ["status", [0.1], False]]))
    return ["spec", [0.1], False]


@st.composite
def base(draw):
    if draw(st.integers(0, 15)) == 0:
        return draw(gen.net_case())
    return draw(gen.search_case())


@st.composite
def resume_case(draw):
    case = draw(base())
    case["at"] = draw(st.lists(ints(0, 40), min_size=1, max_size=3))
    case["tail"] = draw(st.sampled_from(["ones", "levels", "auto", "auto"]))
    return case


@st.composite
def interrupt_case(draw):
    case = draw(base())
    case["limits"] = draw(st.lists(ints(0, 25), min_size=1, max_size=5))
    case["pickle"] = draw(st.booleans())
    return case


@st.composite
def chain_case(draw):
    case = draw(base())
    ops = []
    for _ in range(draw(ints(1, 4))):
        if draw(ints(0, 1)):
            ops.append(draw(op_doc()))
        sub = draw(st.lists(op_doc(), min_size=1, max_size=3))
        ops.append(["pickle", sub, draw(st.booleans())])
    case["ops"] = ops
    return case


PARTS = [
    Part("resume", resume_case, check_resume, 1500, 40000, timeout=20),
    Part("interrupt", interrupt_case, check_interrupt, 2500, 80000, timeout=20),
    Part("chain", chain_case, check_chain, 2000, 60000, timeout=20),
]
