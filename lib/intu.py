"""Integer universes: real classes, strategies, packs and searchers around
arbitrary rules between numbered classes.

document: {"n": N, "empty": [labels], "rules": [rule, ...], "start": s,
           "iterative": bool}
rule: {"p": parent, "c": [children], "s": [shifts], "k": "n" | "v",
       "tw": two way, "rv": reversible, "pe": possibly empty, "eq": can be an equivalence}
"""
import json

from . import boot  # noqa: F401
from comb_spec_searcher import (
    CombinatorialClass,
    CombinatorialObject,
    CombinatorialSpecificationSearcher,
    StrategyFactory,
    StrategyPack,
    VerificationStrategy,
)
from comb_spec_searcher.strategies.strategy import Strategy


class IO(CombinatorialObject):
    def __len__(self):
        return 0


class IC(CombinatorialClass):
    __slots__ = ("i", "e")

    def __init__(self, i, e=False):
        self.i = i
        self.e = bool(e)

    def is_empty(self):
        return self.e

    def is_atom(self):
        return False

    def minimum_size_of_object(self):
        return 0

    @classmethod
    def from_dict(cls, d):
        return cls(d["i"], d["e"])

    def to_jsonable(self):
        d = super().to_jsonable()
        d["i"], d["e"] = self.i, self.e
        return d

    def __eq__(self, other):
        if not isinstance(other, IC):
            return NotImplemented
        return (self.i, self.e) == (other.i, other.e)

    def __hash__(self):
        return hash((self.i, self.e))

    def __repr__(self):
        return "IC(%d%s)" % (self.i, ",empty" if self.e else "")

    def __str__(self):
        return "class %d" % self.i


class IS(Strategy):
    """one rule of the universe"""

    def __init__(self, rule, empties=()):
        self.rule = json.loads(json.dumps(rule))
        self.empties = tuple(empties)
        super().__init__(
            ignore_parent=False,
            inferrable=True,
            possibly_empty=bool(rule.get("pe", False)),
            workable=True,
        )

    def _cls(self, i):
        return IC(i, i in self.empties)

    def decomposition_function(self, comb_class):
        if comb_class != self._cls(self.rule["p"]):
            return None
        return tuple(self._cls(i) for i in self.rule["c"])

    def can_be_equivalent(self):
        return bool(self.rule.get("eq", True))

    def is_two_way(self, comb_class):
        return bool(self.rule.get("tw", False))

    def is_reversible(self, comb_class):
        return bool(self.rule.get("rv", False))

    def shifts(self, comb_class, children=None):
        return tuple(self.rule["s"])

    def formal_step(self):
        return "rule %s" % json.dumps(self.rule, sort_keys=True)

    def constructor(self, comb_class, children=None):
        return _NoConstructor()

    def reverse_constructor(self, idx, comb_class, children=None):
        return _NoConstructor()

    def forward_map(self, comb_class, obj, children=None):
        raise NotImplementedError

    def backward_map(self, comb_class, objs, children=None):
        raise NotImplementedError

    def extra_parameters(self, comb_class, children=None):
        return tuple({} for _ in self.rule["c"])

    @staticmethod
    def get_op_symbol():
        return "?"

    @staticmethod
    def get_reverse_op_symbol():
        return "?"

    def to_jsonable(self):
        d = super().to_jsonable()
        d["rule"], d["empties"] = self.rule, self.empties
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(d["rule"], d["empties"])

    def __repr__(self):
        return "IS(%s,%r)" % (json.dumps(self.rule, sort_keys=True), self.empties)

    def __str__(self):
        return "IS"


class _NoConstructor:
    def can_be_equivalent(self):
        return True

    def __repr__(self):
        return "no constructor"


class IV(VerificationStrategy):
    """verifies the given classes"""

    def __init__(self, which, empties=()):
        self.which = tuple(which)
        self.empties = tuple(empties)
        super().__init__(ignore_parent=False)

    def verified(self, comb_class):
        return (
            isinstance(comb_class, IC)
            and comb_class.i in self.which
            and comb_class.e == (comb_class.i in self.empties)
        )

    def formal_step(self):
        return "verified"

    def to_jsonable(self):
        d = super().to_jsonable()
        d["which"], d["empties"] = self.which, self.empties
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(d["which"], d["empties"])

    def __repr__(self):
        return "IV(%r,%r)" % (self.which, self.empties)

    def __str__(self):
        return "IV"


class IFac(StrategyFactory):
    def __init__(self, rules, empties=()):
        self.rules = json.loads(json.dumps(rules))
        self.empties = tuple(empties)

    def __call__(self, comb_class):
        for r in self.rules:
            if r["p"] == comb_class.i and r.get("k", "n") == "n":
                yield IS(r, self.empties)

    def __repr__(self):
        return "IFac(%s)" % json.dumps(self.rules, sort_keys=True)

    def __str__(self):
        return "IFac"

    @classmethod
    def from_dict(cls, d):
        return cls(d["rules"], d["empties"])


def mk_pack(doc):
    emp = tuple(doc.get("empty", ()))
    rules = doc["rules"]
    ver = [r["p"] for r in rules if r.get("k", "n") == "v"]
    if doc.get("as_strats"):
        strats = [IS(r, emp) for r in rules if r.get("k", "n") == "n"]
    else:
        strats = [IFac(rules, emp)]
    vers = [IV((v,), emp) for v in sorted(set(ver))]
    # verification strategies are kept among the expansions: the searcher must not
    # apply them by itself
    return StrategyPack(
        initial_strats=[],
        inferral_strats=[],
        expansion_strats=[strats + vers],
        ver_strats=[],
        name="ints",
        iterative=bool(doc.get("iterative", False)),
    )


def mk_searcher(doc, ruledb):
    emp = tuple(doc.get("empty", ()))
    s = doc.get("start", 0)
    return CombinatorialSpecificationSearcher(
        IC(s, s in emp), mk_pack(doc), ruledb=ruledb
    )


def mk_rule(doc, r):
    emp = tuple(doc.get("empty", ()))
    if r.get("k", "n") == "v":
        return IV((r["p"],), emp)(IC(r["p"], r["p"] in emp))
    return IS(r, emp)(IC(r["p"], r["p"] in emp))


def add_rule(css, doc, r):
    """feed one rule to the rule database of a searcher"""
    rule = mk_rule(doc, r)
    lab = css.classdb.get_label
    start = lab(rule.comb_class)
    ends = tuple(lab(c) for c in rule.children)
    css.ruledb.add(start, ends, rule)
    return start, ends, rule
