"""C16: the work queue schedules completely, once, in order, and terminates."""
from collections import defaultdict

from hypothesis import strategies as st

from lib import gen
from lib.engine import Violation, mk_searcher, more_levels, run_search, start_and_pack
from lib.gen import ints
from lib.runner import Part
from lib.specoracle import guard

from comb_spec_searcher import AtomStrategy, StrategyPack
from comb_spec_searcher.class_queue import DefaultQueue
from comb_spec_searcher.exception import NoMoreClassesToExpandError

RULE = (
    "part ops: packs with 0-3 inferral, 0-3 initial strategies and 0-3 expansion sets of 0-3 "
    "strategies; random histories of add / stop / verified / not-inferrable / next / partial "
    "and whole levels, then drained twice; the transcript is judged by a predicate "
    "(never after stop, never twice, order per label, completeness after draining, "
    "exhaustion). part search: transcripts of real searches. Non-trivial: at least two "
    "labels, some work handed out and at least one stop or repeated add"
)


class S(AtomStrategy):
    """distinct dummy strategies"""

    def __init__(self, name):
        super().__init__()
        self.name = name

    def __repr__(self):
        return "S(%s)" % self.name

    def __hash__(self):
        return hash(self.name)


class Transcript:
    def __init__(self, pack):
        self.inferral = list(pack.inferral_strats)
        self.initial = list(pack.initial_strats)
        self.sets = [list(x) for x in pack.expansion_strats]
        self.stopped = set()
        self.added = set()
        self.notinf = {}  # label -> True if marked before it was first added
        self.notinf_any = set()
        self.work = defaultdict(list)  # label -> [(stage, index)]
        self.count = 0

    def stage_of(self, strat, inferral):
        """position(s) of a strategy in the pack"""
        for i, s in enumerate(self.inferral):
            if s is strat and inferral:
                return (0, i)
        for i, s in enumerate(self.initial):
            if s is strat and not inferral:
                return (1, i)
        for j, ss in enumerate(self.sets):
            for i, s in enumerate(ss):
                if s is strat and not inferral:
                    return (2 + j, i)
        raise Violation("strategy %r (inferral=%r) is not in the pack" % (strat, inferral))

    def packet(self, wp):
        label, strats, inferral = wp
        self.count += 1
        if label in self.stopped:
            raise Violation("work handed out for the stopped label %r" % label)
        if label not in self.added:
            raise Violation("work for the unknown label %r" % label)
        for s in strats:
            pos = self.stage_of(s, inferral)
            if pos in self.work[label]:
                raise Violation("label %r got %r twice" % (label, s))
            if self.work[label] and pos < self.work[label][-1]:
                raise Violation(
                    "label %r: stage %r after %r" % (label, pos, self.work[label][-1])
                )
            if pos[0] == 0 and self.notinf.get(label):
                raise Violation("inferral work for the not-inferrable label %r" % label)
            self.work[label].append(pos)

    def drained(self):
        for label in self.added - self.stopped:
            want = []
            if label not in self.notinf_any:
                want += [(0, i) for i in range(len(self.inferral))]
            want += [(1, i) for i in range(len(self.initial))]
            for j, ss in enumerate(self.sets):
                want += [(2 + j, i) for i in range(len(ss))]
            got = self.work[label]
            if label in self.notinf_any:
                got = [p for p in got if p[0] != 0]
            if got != want:
                raise Violation(
                    "label %r got work %r, expected %r" % (label, got, want)
                )


def mk_pack(case):
    names = iter(range(1000))
    mk = lambda k: [S(next(names)) for _ in range(k)]  # noqa: E731
    return StrategyPack(
        inferral_strats=mk(case["inf"]),
        initial_strats=mk(case["init"]),
        expansion_strats=[mk(k) for k in case["sets"]],
        ver_strats=[],
        name="q",
    )


def drain(q, tr, limit):
    for _ in range(limit):
        try:
            with guard("next", allow=(StopIteration,)):
                wp = next(q)
        except StopIteration:
            return
        tr.packet(wp)
    raise Violation("queue not exhausted after %d work packets" % limit)


def check_ops(case):
    pack = mk_pack(case)
    q = DefaultQueue(pack)
    tr = Transcript(pack)
    per_label = case["inf"] + case["init"] + sum(case["sets"]) + 1
    limit = 12 * per_label + 10
    repeated = False
    tags = set()
    dead = False  # exhausted and nothing added since
    for op in case["ops"] + [["drain"], ["again"]]:
        k = op[0]
        if k == "add":
            repeated = repeated or op[1] in tr.added
            with guard("add"):
                q.add(op[1])
            tr.added.add(op[1])
            dead = False
        elif k in ("stop", "verified"):
            with guard(k):
                (q.set_stop_yielding if k == "stop" else q.set_verified)(op[1])
            tr.stopped.add(op[1])
            tags.add(k)
        elif k == "notinf":
            with guard("set_not_inferrable"):
                q.set_not_inferrable(op[1])
            if op[1] not in tr.added:
                tr.notinf[op[1]] = True
            tr.notinf_any.add(op[1])
            tags.add("notinf")
        elif k == "next":
            for _ in range(op[1]):
                try:
                    with guard("next", allow=(StopIteration,)):
                        wp = next(q)
                except StopIteration:
                    dead = True
                    tr.drained()
                    break
                if dead:
                    raise Violation("work after exhaustion though nothing was added")
                tr.packet(wp)
        elif k == "level":
            before = q.levels_completed
            n = 0
            err = False
            it = q.do_level()
            try:
                with guard("do_level", allow=(NoMoreClassesToExpandError,)):
                    for wp in it:
                        if dead:
                            raise Violation("work after exhaustion")
                        tr.packet(wp)
                        n += 1
                        if n > 20 * limit:
                            raise Violation("a level never ends")
                        if q.levels_completed > before + 1:
                            raise Violation("a level spans two level changes")
            except NoMoreClassesToExpandError:
                err = True
                tags.add("ran dry")
            if err:
                if q.levels_completed != before:
                    raise Violation("error although the level advanced")
                try:
                    with guard("next", allow=(StopIteration,)):
                        next(q)
                    raise Violation("documented error although work is left")
                except StopIteration:
                    pass
                dead = True
                tr.drained()
            elif q.levels_completed == before:
                raise Violation("level ended without the level counter advancing")
            else:
                tags.add("level")
        elif k == "partial":
            it = q.do_level()
            before = q.levels_completed
            try:
                with guard("do_level", allow=(NoMoreClassesToExpandError,)):
                    for _ in range(op[1]):
                        moved = q.levels_completed != before
                        try:
                            wp = next(it)
                        except StopIteration:
                            if q.levels_completed == before:
                                raise Violation("level ended early") from None
                            break
                        if moved:
                            raise Violation("work handed out after the level advanced")
                        tr.packet(wp)
            except NoMoreClassesToExpandError:
                dead = True
                tr.drained()
            it.close()
        elif k == "drain":
            drain(q, tr, 20 * limit)
            tr.drained()
            dead = True
            for _ in range(2):
                try:
                    with guard("next", allow=(StopIteration,)):
                        next(q)
                    raise Violation("work after exhaustion")
                except StopIteration:
                    pass
            try:
                with guard("do_level", allow=(NoMoreClassesToExpandError,)):
                    for _ in q.do_level():
                        raise Violation("level-wise work after exhaustion")
                raise Violation("no error for a level of an exhausted queue")
            except NoMoreClassesToExpandError:
                pass
        elif k == "again":
            # something is added to an exhausted queue: it works again
            for x in (0, 11):
                with guard("add"):
                    q.add(x)
                tr.added.add(x)
            drain(q, tr, 20 * limit)
            tr.drained()
        with guard("status"):
            q.status()
    return {
        "nt": len(tr.added) >= 3
        and tr.count > 0
        and (repeated or bool(tags & {"stop", "verified"})),
        "tags": sorted(tags)
        + [
            "inf:%d" % case["inf"],
            "init:%d" % case["init"],
            "sets:%d" % len(case["sets"]),
        ],
    }


@st.composite
def ops_case(draw):
    lab = ints(0, draw(st.sampled_from([2, 4, 7])))
    op = st.one_of(
        st.tuples(st.just("add"), lab),
        st.tuples(st.just("add"), lab),
        st.tuples(st.just("add"), lab),
        st.tuples(st.just("next"), ints(1, 6)),
        st.tuples(st.just("next"), ints(1, 6)),
        st.tuples(st.sampled_from(["stop", "verified"]), lab),
        st.tuples(st.just("notinf"), lab),
        st.tuples(st.just("level")),
        st.tuples(st.just("partial"), ints(1, 6)),
    )
    size = draw(st.sampled_from([1, 5, 15]))
    ops = [list(o) for o in draw(st.lists(op, min_size=size, max_size=30))]
    if draw(ints(0, 5)) == 0:
        ops.append(["drain"])
        ops += [list(o) for o in draw(st.lists(op, max_size=8))]
    return {
        "inf": draw(ints(0, 2)),
        "init": draw(ints(0, 3)),
        "sets": draw(st.lists(ints(0, 3), max_size=3)),
        "ops": ops,
    }


def check_search(case):
    from lib.engine import mk_db
    from lib.boot import reset
    from comb_spec_searcher import CombinatorialSpecificationSearcher

    reset(case.get("steps", (1.0,)), case.get("stream", ()))
    start, pack = start_and_pack(case)
    q = DefaultQueue(pack)
    tr = Transcript(pack)
    repeated = [False]
    orig = {
        k: getattr(q, k)
        for k in ("add", "set_stop_yielding", "set_verified", "set_not_inferrable")
    }
    done = [False]

    def add(label):
        repeated[0] = repeated[0] or label in tr.added
        tr.added.add(label)
        orig["add"](label)

    own = [False]

    def stop(label):
        # the queue itself marks labels that are finished
        if not own[0]:
            tr.stopped.add(label)
        orig["set_stop_yielding"](label)

    def ver(label):
        tr.stopped.add(label)
        orig["set_verified"](label)

    def notinf(label):
        if not own[0]:
            if label not in tr.added:
                tr.notinf[label] = True
            tr.notinf_any.add(label)
        orig["set_not_inferrable"](label)

    q.add, q.set_stop_yielding, q.set_verified, q.set_not_inferrable = (
        add,
        stop,
        ver,
        notinf,
    )

    class Feed:
        """hands the queue's work on while writing the transcript"""

        def __getattr__(self, name):
            return getattr(q, name)

        def __iter__(self):
            return self

        def __next__(self):
            own[0] = True
            try:
                wp = next(q)
            finally:
                own[0] = False
            tr.packet(wp)
            return wp

        def do_level(self):
            before = q.levels_completed
            it = q.do_level()
            while True:
                moved = q.levels_completed != before
                own[0] = True
                try:
                    wp = next(it)
                except StopIteration:
                    if q.levels_completed == before:
                        raise Violation("level ended early") from None
                    return
                finally:
                    own[0] = False
                if moved:
                    raise Violation("work handed out after the level advanced")
                tr.packet(wp)
                yield wp

    with guard("building the searcher"):
        css = CombinatorialSpecificationSearcher(
            start,
            pack,
            ruledb=mk_db(case["db"]),
            expand_verified=bool(case.get("expand_verified", False)),
            classqueue=Feed(),
        )
    with guard("search"):
        run_search(case, css)
    with guard("levels"):
        done[0] = more_levels(css, 6, 60)
    if done[0]:
        tr.drained()
    return {
        "nt": len(tr.added) >= 3 and repeated[0],
        "tags": ["drained" if done[0] else "partial"],
    }


PARTS = [
    Part("ops", ops_case, check_ops, 20000, 400000, timeout=20, hang=True),
    Part("search", lambda: gen.search_case(), check_search, 3000, 30000),
]
