"""C15: the class database is a stable bijection classes <-> dense labels."""
import json

from hypothesis import strategies as st

from lib import gen
from lib.engine import Violation, mk_searcher, more_levels, run_search
from lib.gen import ints
from lib.runner import Part
from lib.specoracle import guard

from comb_spec_searcher import CombinatorialClass
from comb_spec_searcher.class_db import ClassDB

RULE = (
    "part ops: random histories of label lookups (by class, by known / unknown / negative "
    "label), class lookups, membership tests with arbitrary objects, emptiness queries, "
    "truthful set_empty, iteration, over classes with and without byte compression (also "
    "compressing to equal prefixes / empty bytes), compared with a dictionary model after "
    "every operation; part search: the database of real searches. Non-trivial: at least two "
    "classes, one asked twice as a distinct equal object, and a membership test"
)


class PC(CombinatorialClass):
    """plain class: (kind, key, empty)"""

    asked = None

    def __init__(self, key, empty):
        self.key = key
        self.empty = empty

    def is_empty(self):
        if PC.asked is not None:
            PC.asked.append(self.key)
        return self.empty

    def is_atom(self):
        return False

    def minimum_size_of_object(self):
        return 0

    @classmethod
    def from_dict(cls, d):
        return cls(d["key"], d["empty"])

    def __eq__(self, other):
        if not isinstance(other, PC):
            return NotImplemented
        return type(self) is type(other) and self.key == other.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return "%s(%r,%r)" % (type(self).__name__, self.key, self.empty)

    def __str__(self):
        return repr(self)


class HC(PC):
    """colliding hashes"""

    def __hash__(self):
        return 7


class BC(PC):
    """compressed"""

    def to_bytes(self):
        return json.dumps([self.key, self.empty]).encode()

    @classmethod
    def from_bytes(cls, b):
        return cls(*json.loads(b.decode()))


class RC(PC):
    """compressed; raw bytes, possibly empty"""

    def to_bytes(self):
        return bytes((2 + self.key % 200,)) * self.key + (
            b"\x01" if self.empty else b""
        )

    @classmethod
    def from_bytes(cls, b):
        empty = len(b) > 0 and (b[-1] == 1 and len(b) != 1 or b == b"\x01")
        body = b[:-1] if empty else b
        return cls(len(body), empty)


class SC(PC):
    """subclass of the database's type"""


TABLE = [
    b"",
    b"\x00",
    b"\x00\x00",
    b"a",
    b"a\x00",
    b"A",
    b"a ",
    b" a",
    b"a\n",
    b"\na",
    b"\xff",
    b"\xc3\xa9",
    b"e\xcc\x81",
    b"a" * 5000,
    b"a" * 5001,
    b"\x78\x9c",
    b"1",
    b"01",
]


class ZC(PC):
    """compressed; keys are byte strings that are easy to confuse"""

    def to_bytes(self):
        body = TABLE[self.key] if self.key < len(TABLE) else b"k%d\x00" % self.key
        return (b"E" if self.empty else b"") + body + (b"\x00" if self.empty else b"")

    @classmethod
    def from_bytes(cls, b):
        empty = b[:1] == b"E"
        body = b[1:-1] if empty else b
        if body in TABLE:
            return cls(TABLE.index(body), empty)
        return cls(int(body[1:-1]), empty)


class FC(PC):
    """a class that counts as false, like one with a length of zero"""

    def __len__(self):
        return 0


KINDS = {"PC": PC, "HC": HC, "BC": BC, "RC": RC, "SC": PC, "ZC": ZC, "FC": FC}


def build(kind, i, empty):
    cls = KINDS[kind]
    if kind == "RC":
        # key = length; 1 would be ambiguous with the marker
        return cls(0 if i == 0 else i + 1, empty)
    if kind == "SC" and i % 2:
        return SC(i, empty)
    return cls(i, empty)


class Other(CombinatorialClass):
    """a class of an unrelated type, equal to everything of its type"""

    def is_empty(self):
        return False

    def is_atom(self):
        return False

    def minimum_size_of_object(self):
        return 0

    @classmethod
    def from_dict(cls, d):
        return cls()

    def __eq__(self, other):
        return isinstance(other, Other)

    def __hash__(self):
        return 7

    def __repr__(self):
        return "Other()"

    def __str__(self):
        return "Other()"


WEIRD = [
    Other(),
    None,
    "a",
    b"",
    b"x",
    1.5,
    (),
    (1, 2),
    object(),
    [],
    {},
    float("nan"),
    "0",
    frozenset(),
]


def check_ops(case):
    kind = case["kind"]
    db = ClassDB(KINDS[kind])
    emp = set(case["empty"])
    mk = lambda i: build(kind, i, i in emp)  # noqa: E731
    order = []  # class index by label
    asked_twice = members = False

    def expect(what, got, want):
        if got != want or (isinstance(want, bool) and got is not want):
            raise Violation("%s gives %r, expected %r (labels %r)" % (what, got, want, order))

    def lab(i):
        nonlocal asked_twice
        if i in order:
            asked_twice = True
        else:
            order.append(i)
        return order.index(i)

    def raises(what, f):
        try:
            with guard(what, allow=(KeyError, TypeError)):
                r = f()
        except (KeyError, TypeError):
            return
        raise Violation("%s returned %r" % (what, r))

    for op in case["ops"]:
        k, i = op[0], op[1]
        if k == "label":
            with guard("get_label"):
                got = db.get_label(mk(i))
            expect("get_label(class %d)" % i, got, lab(i))
        elif k == "add":
            with guard("add"):
                db.add(mk(i))
            lab(i)
        elif k == "bulk":
            for j in range(10 * i, 10 * i + 70):
                with guard("get_label"):
                    got = db.get_label(mk(j))
                expect("get_label(class %d)" % j, got, lab(j))
            with guard("is_empty"):
                got = db.is_empty(mk(j))
            expect("is_empty(class %d)" % j, got, j in emp)
        elif k == "label_of_label":
            if i < len(order):
                with guard("get_label"):
                    got = db.get_label(i)
                expect("get_label(%d)" % i, got, i)
            else:
                raises("get_label(%d)" % i, lambda: db.get_label(i))
        elif k == "class":
            if i < len(order):
                with guard("get_class"):
                    got = db.get_class(i)
                if got != mk(order[i]) or type(got) is not type(mk(order[i])):
                    raise Violation("get_class(%d) is %r" % (i, got))
                if got.empty != (order[i] in emp):
                    raise Violation("get_class(%d) returns a damaged class" % i)
            else:
                raises("get_class(%d)" % i, lambda: db.get_class(i))
        elif k == "class_neg":
            raises("get_class(%d)" % (-1 - i), lambda: db.get_class(-1 - i))
            raises("get_label(%d)" % (-1 - i), lambda: db.get_label(-1 - i))
        elif k == "class_of_class":
            with guard("get_class"):
                got = db.get_class(mk(i))
            lab(i)
            if got != mk(i):
                raise Violation("get_class of a class")
        elif k == "in_class":
            members = True
            with guard("membership"):
                got = mk(i) in db
            expect("class %d in db" % i, got, i in order)
        elif k == "in_label":
            members = True
            with guard("membership"):
                got = i in db
            expect("%d in db" % i, got, i < len(order))
        elif k == "in_neg":
            with guard("membership"):
                got = (-1 - i) in db or (10**9 + i) in db or len(order) in db
            expect("%d in db" % (-1 - i), got, False)
        elif k == "in_weird":
            members = True
            x = WEIRD[i % len(WEIRD)]
            with guard("membership of %r" % (x,)):
                got = x in db
            expect("%r in db" % (x,), got, False)
        elif k == "empty":
            with guard("is_empty"):
                got = db.is_empty(mk(i))
            lab(i)
            expect("is_empty(class %d)" % i, got, i in emp)
        elif k == "empty_label":
            if i < len(order):
                c = mk(order[i])
                if op[2]:
                    with guard("get_class"):
                        c = db.get_class(i)
                with guard("is_empty"):
                    got = db.is_empty(c, i)
                expect("is_empty(class, %d)" % i, got, order[i] in emp)
        elif k == "set_empty":
            if i < len(order):
                val = order[i] in emp
                with guard("set_empty"):
                    if op[2]:
                        db.set_empty(i, val)
                    else:
                        db.set_empty(mk(order[i]), empty=val)
        elif k == "twice":
            # the emptiness of a class is computed at most once
            if i < len(order):
                with guard("is_empty"):
                    a = db.is_empty(mk(order[i]), i)
                PC.asked = []
                try:
                    with guard("is_empty"):
                        b = db.is_empty(mk(order[i]), i)
                    again = list(PC.asked)
                finally:
                    PC.asked = None
                expect("is_empty", b, a)
                if again:
                    raise Violation("emptiness recomputed")
        elif k == "foreign":
            raises("get_label of an object of another type", lambda: db.get_label("x"))
        with guard("iteration"):
            labels = list(db)
        if sorted(labels) != list(range(len(order))):
            raise Violation("labels are %r for %d classes" % (labels, len(order)))
    # everything is still there
    for n, i in enumerate(order):
        with guard("final lookups"):
            if db.get_label(mk(i)) != n or db.get_class(n) != mk(i):
                raise Violation("label %d lost its class" % n)
            if db.is_empty(db.get_class(n), n) != (i in emp):
                raise Violation("emptiness of label %d" % n)
    return {
        "nt": len(order) >= 2 and asked_twice and members,
        "tags": [kind, "classes:%d" % len(order)],
    }


@st.composite
def ops_case(draw):
    kinds = [
        "label",
        "label",
        "add",
        "label_of_label",
        "class",
        "class",
        "class_neg",
        "class_of_class",
        "in_class",
        "in_label",
        "in_neg",
        "in_weird",
        "empty",
        "empty_label",
        "set_empty",
        "twice",
        "foreign",
    ]
    n = draw(st.sampled_from([1, 2, 4, 8, 8, 18, 40]))
    if draw(ints(0, 9)) == 0:
        kinds += ["bulk", "bulk"]
    size = draw(st.sampled_from([1, 8, 8, 20]))
    op = st.tuples(st.sampled_from(kinds), ints(0, n), ints(0, 1))
    return {
        "kind": draw(st.sampled_from(sorted(KINDS))),
        "empty": draw(st.lists(ints(0, n), max_size=4, unique=True)),
        "ops": [list(o) for o in draw(st.lists(op, min_size=size, max_size=45))],
    }


def check_search(case):
    with guard("building the searcher"):
        css = mk_searcher(case)
    db = css.classdb
    seen = {}
    bylabel = {}
    origs = (db.get_label, db.get_class, db.is_empty)

    def get_label(key):
        r = origs[0](key)
        if not isinstance(key, int):
            if seen.setdefault(key, r) != r or bylabel.setdefault(r, key) != key:
                raise Violation("label of %r changed to %r" % (key, r))
        elif r != key:
            raise Violation("get_label(%r) = %r" % (key, r))
        return r

    def get_class(key):
        r = origs[1](key)
        if isinstance(key, int):
            if bylabel.setdefault(key, r) != r or seen.setdefault(r, key) != key:
                raise Violation("get_class(%r) = %r" % (key, r))
        elif key != r:
            raise Violation("get_class(%r) = %r" % (key, r))
        return r

    def is_empty(c, label=None):
        r = origs[2](c, label)
        if r != c.is_empty():
            raise Violation("is_empty(%r) = %r" % (c, r))
        return r

    db.get_label, db.get_class, db.is_empty = get_label, get_class, is_empty
    with guard("search"):
        run_search(case, css)
    with guard("levels"):
        more_levels(css, 1, 60)
    n = len(list(db))
    for i in range(n):
        c = db.get_class(i)
        if db.get_label(c) != i:
            raise Violation("label %d" % i)
        if c not in db or i not in db:
            raise Violation("known class or label reported missing")
        if db.is_empty(c, i) != c.is_empty():
            raise Violation("emptiness of %d" % i)
    if n in db or -1 in db:
        raise Violation("unknown label reported present")
    return {
        "nt": n >= 4,
        "tags": ["compressed" if case["gram"].get("compress") else "plain"],
    }


PARTS = [
    Part("ops", ops_case, check_ops, 20000, 400000, timeout=20, hang=True),
    Part("search", lambda: gen.search_case(), check_search, 3000, 30000),
]
