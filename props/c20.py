"""C20: equations and generating functions agree with the enumeration."""
import re
from fractions import Fraction

import sympy
from hypothesis import strategies as st

from lib import gen, ruleforms
from lib.engine import Skip, Violation, choose_n, run_search
from lib.gen import ints
from lib.runner import Part
from lib.series import INFP, Ser, Unsupported, evaluate
from lib.specoracle import guard, spec_tags
from comb_spec_searcher.exception import IncorrectGeneratingFunctionError
from comb_spec_searcher.strategies.rule import VerificationRule

RULE = (
    "parts eqs/params/reverse/revparams: specifications from real searches (all databases, "
    "0-3 statistics, reverse rules), every emitted equation evaluated with the DP truth of "
    "every class function substituted, as truncated series in x and the statistics; part "
    "rules: the same for all rule forms of C09; part genf: closed forms of small "
    "specifications expanded by an independent Puiseux evaluator well beyond the orders used "
    "to select them. Non-trivial: at least 2 equations with class functions on both sides "
    "compared to order >= 4 (eqs), a non-verification form (rules), a closed form compared "
    "beyond the selection order (genf)"
)


def class_series(c, N):
    """true generating series of a class up to x^N (own parameters by position)"""
    d = {}
    for n in range(N + 1):
        for p, v in c.true_terms(n).items():
            d[(n, p)] = v
    return d


def oracle(get_class, N, cap, seen):
    """function values: class series substituted at the given arguments"""
    cache = {}

    def fun(name, args):
        c = get_class(name)
        seen.add(c)
        if len(args) != 1 + len(c.extra_parameters):
            raise Violation("%s applied to %d arguments" % (name, len(args)))
        x0 = args[0]
        xs = Ser({(Fraction(1), ()): Fraction(1)})
        if x0.c != xs.c:
            raise Violation("%s is not applied to x" % name)
        if c not in cache:
            cache[c] = class_series(c, N)
        out = {}
        pw = {}
        for (n, p), v in cache[c].items():
            if p not in pw:
                t = Ser.const(1)
                for a, e in zip(args[1:], p):
                    t = t.mul(a.power(e, cap), cap)
                pw[p] = t
            for (i, m), w in pw[p].c.items():
                k = (i + n, m)
                out[k] = out.get(k, 0) + v * w
        return Ser(out, N + 1)

    return fun


def check_eq(eq, comb_class, get_class, N, what):
    """-> number of x-orders compared, or None when nothing is claimed"""
    if not hasattr(eq, "lhs"):
        raise Violation("%s: not an equation: %r" % (what, eq))
    names = {f.func.__name__ for f in eq.atoms(sympy.core.function.AppliedUndef)}
    if "NOTIMPLEMENTED" in names:
        return None
    expr = eq.lhs - eq.rhs
    den = None
    if any(a.is_Pow and not a.exp.is_positive for a in expr.atoms(sympy.Pow)):
        expr, den = sympy.together(expr).as_numer_denom()
    seen = set()
    cap = N + 8
    fun = oracle(get_class, N, cap, seen)
    try:
        s = evaluate(expr, fun, cap)
    except Unsupported as e:
        raise Violation("%s: equation is not evaluable (%s): %s" % (what, e, eq))
    if s.c:
        k = min(s.c)
        raise Violation(
            "%s: equation %s of %r is off at x^%s %s by %s (order %d)"
            % (what, eq, comb_class, k[0], dict(k[1]), s.c[k], N)
        )
    if not den_ok(den, get_class, N, cap):
        raise Violation("%s: zero denominator in %s" % (what, eq))
    return N if s.p >= INFP else s.p


def den_ok(den, get_class, N, cap):
    if den is None:
        return True
    d = evaluate(den, oracle(get_class, N, cap, set()), cap)
    # a denominator that vanishes to the whole precision proves nothing
    return bool(d.c) or d.p < INFP


def order(classes):
    return min(max(4, choose_n(c, cap=500, top=9)) for c in classes)


def has_den(rule):
    return any("Reverse" in type(r).__name__ for r in getattr(rule, "rules", [rule]))


def check_rules(case):
    cls, rules = ruleforms.derive(case)
    if not rules:
        raise Skip("no rule")
    tags = set()
    nt = False
    for name, rule in rules:
        if rule.comb_class.is_empty() and name != "reverse":
            continue
        tags |= ruleforms.features(name, rule)
        labels = {}
        back = {}

        def get_function(c):
            i = labels.setdefault(c, len(labels))
            back["F_%d" % i] = c
            return c.get_function(lambda k: labels[k])

        classes = (rule.comb_class,) + tuple(rule.children)
        N = order(classes)
        with guard("equation of the %s form of %r" % (name, rule.strategy)):
            try:
                eq = rule.get_equation(get_function)
            except NotImplementedError:
                tags.add(name + ":noeq")
                continue
        if isinstance(eq, (bool, sympy.logic.boolalg.BooleanAtom)):
            if not bool(eq):
                raise Violation("%s: equation is False" % name)
            tags.add(name + ":trivial")
            continue
        # the variables must be those of the class the equation is about
        owner = rule.comb_class
        if name == "reverse" and eq.lhs.func.__name__ != "F_%d" % labels[owner]:
            owner = rule.children[0]
            tags.add("reverse:fallback")
        check_eq(eq, owner, back.__getitem__, N, "%s form of %r" % (name, rule.strategy))
        tags.add("form:" + name + ("+p" if owner.extra_parameters else ""))
        nt = True
    return {"nt": nt, "tags": sorted(tags)}


def check_spec_eqs(spec, tags):
    labels = {}
    with guard("labels"):
        for c in spec.rules_dict:
            labels["F_%d" % spec.get_label(c)] = c
        for c, r in list(spec.rules_dict.items()):
            for ch in r.children:
                labels["F_%d" % spec.get_label(ch)] = ch
    with guard("get_equations", allow=(IncorrectGeneratingFunctionError,)):
        try:
            eqs = list(spec.get_equations())
        except IncorrectGeneratingFunctionError:
            raise Skip("no closed form of a verified class")
    used = 0
    lhs = set()
    N = order(labels.values())
    for eq in eqs:
        if isinstance(eq, sympy.logic.boolalg.BooleanAtom):
            if not bool(eq):
                raise Violation("an emitted equation is False")
            tags.add("trivial")
            continue
        try:
            owner = labels[eq.lhs.func.__name__]
        except (KeyError, AttributeError):
            raise Violation("left side of %s is no class of the specification" % eq)
        lhs.add(owner)
        o = check_eq(eq, owner, labels.__getitem__, N, "specification")
        if o is None:
            tags.add("noeq")
            if not isinstance(spec.rules_dict[owner], VerificationRule):
                tags.add("noeq:rule")
            continue
        if o >= 4 and eq.rhs.atoms(sympy.core.function.AppliedUndef):
            used += 1
    if len(eqs) <= 12:
        check_texts(spec, eqs, labels, tags)
    # every class whose rule has an equation is covered by one
    if len(eqs) > len(spec.rules_dict):
        raise Violation("more equations than rules")
    tags.add("eqs:%s" % ("0" if not used else "1-3" if used < 4 else "4+"))
    return used


class Indexed(dict):
    """k[0] -> symbol k_0"""

    def __init__(self, name):
        self.name = name

    def __missing__(self, i):
        return sympy.Symbol("%s_%s" % (self.name, i))


class FTable:
    """F[3, x, ...] -> F_3(x, ...)"""

    def __getitem__(self, k):
        return sympy.Function("F_%s" % k[0])(*[sympy.sympify(a) for a in k[1:]])


NUM = re.compile(r"(?<![\w.])(\d+)(?![\w.])")
BARE = re.compile(r"\b(F_\d+)(?![\d(])")


def read_text(text, names, what):
    """-> (root function, [(lhs, rhs)], count list) of an emitted text"""
    m = re.search(r"root_func := (.*?):\neqs := \[\n(.*?)\n?\]:\ncount := \[(.*)\]:\s*$", text, re.S)
    if not m:
        raise Violation("%s: unexpected layout: %s" % (what, text[:300]))

    def value(s):
        s = NUM.sub(r"Integer(\1)", BARE.sub(r"\1(x)", s))
        try:
            return sympy.sympify(eval(s, {"__builtins__": {}}, names))
        except Exception as e:
            raise Violation("%s: cannot read %r (%s)" % (what, s[:300], e))

    eqs = []
    for line in m.group(2).split(",\n"):
        if line:
            a, _, b = line.partition(" = ")
            eqs.append((value(a), value(b)))
    return value(m.group(1)), eqs, [value(v) for v in m.group(3).split(",") if v.strip()]


def check_texts(spec, eqs, labels, tags):
    """the two texts a specification prints are the equations it emits"""
    if any(not isinstance(e, sympy.Eq) for e in eqs):
        return
    if any(f.func.__name__ == "NOTIMPLEMENTED" for e in eqs
           for f in e.atoms(sympy.core.function.AppliedUndef)):
        return
    names = {"Integer": sympy.Integer, "sqrt": sympy.sqrt, "x": sympy.Symbol("x"), "F": FTable()}
    ps = [sympy.Symbol(k) for k in spec.root.extra_parameters]
    root = spec.get_function(spec.root)
    for a in set(ps).union(root.free_symbols, *[e.free_symbols for e in eqs]):
        names[a.name] = a
        if "_" in a.name:
            names[a.name.split("_")[0]] = Indexed(a.name.split("_")[0])
    for name, c in labels.items():
        names[name] = sympy.Function(name)
    n = 5
    counts = [
        sum(v * sympy.Mul(*[a**e for a, e in zip(ps, p)])
            for p, v in spec.root.true_terms(i).items())
        for i in range(n + 1)
    ]
    for what, f in (("maple text", spec.get_maple_equations), ("pretty text", spec.get_pretty_equations)):
        with guard(what):
            text = f(n)
        r, got, cnt = read_text(text, names, what)
        if r != root:
            raise Violation("%s: root function %s, is %s" % (what, r, root))
        if cnt != counts:
            raise Violation("%s: count %s, is %s" % (what, cnt, counts))
        if len(got) != len(eqs):
            raise Violation("%s: %d equations, emitted %d" % (what, len(got), len(eqs)))
        for (a, b), e in zip(got, eqs):
            if a != e.lhs or (b != e.rhs and sympy.simplify(b - e.rhs) != 0):
                raise Violation("%s: %s = %s for the equation %s" % (what, a, b, e))
    with guard("equations_string"):
        text = spec.equations_string()
    lines = [x for x in text.split("\n") if x]
    if sorted(lines) != sorted("%s = %s" % (e.lhs, e.rhs) for e in eqs):
        raise Violation("equations_string: %s for %s" % (text, eqs))
    tags.add("texts")


def check_eqs(case):
    with guard("search"):
        css, spec = run_search(case)
    if spec is None:
        return {"nt": False, "tags": ["nospec"]}
    tags = {case["db"]}
    tags |= spec_tags(spec)
    used = check_spec_eqs(spec, tags)
    return {"nt": used >= 2, "tags": sorted(tags)}


# -------------------------------------------------------------------- genf


@st.composite
def genf_case(draw):
    nn = draw(st.sampled_from([1, 2, 2, 2, 3]))
    terms = [[draw(st.sampled_from([1, 1, 1, 2])), []] for _ in range(draw(ints(1, 2)))]
    nt = len(terms)
    n = []
    for i in range(nn):
        alts = [[-draw(ints(1, nt))] if draw(ints(0, 2)) else []]
        for _ in range(draw(ints(1, 2))):
            k = draw(st.sampled_from([1, 1, 2, 2, 3]))
            a = [-draw(ints(1, nt))]
            for _ in range(k - 1):
                a.append(draw(ints(0, nn - 1)))
            if draw(ints(0, 4)) == 0:
                a.append(-1)
            if draw(st.booleans()):
                a.reverse()
            if a not in alts:
                alts.append(a)
        n.append(alts)
    seq = draw(st.sampled_from([[0], [0], [0, nn - 1], [-1, 0]]))
    pre = draw(st.sampled_from([0, 0, 0, 1, 7, 8]))
    if pre:
        seq = [-1] * pre + seq
    vers = [["VAtom", {}]]
    k = draw(ints(0, 4))
    if k == 0:
        vers.append(["VBrute", {"seqs": [[nn - 1]]}])
    elif k == 1:
        sub = {
            "initial": [["Factor", {"cut": "all", "prod": True}]],
            "inferral": [],
            "expansion": [[["Expand", {"pos": "first", "L": 4}]]],
            "ver": [["VAtom", {}]],
            "name": "sub",
        }
        vers.append(["VPack", {"seqs": [[nn - 1]], "pack": sub}])
    case = {
        "gram": {"S": 0, "t": terms, "n": n},
        "start": {"seq": seq, "tag": 0, "params": []},
        "T": 1,
        "pack": {
            "initial": [["Factor", {"cut": draw(st.sampled_from(["all", "first"]))}]],
            "inferral": [],
            "expansion": [[["Expand", {"pos": draw(st.sampled_from(["first", "last"])), "L": 12}]]],
            "ver": vers,
            "sym": [],
            "iterative": False,
            "name": "g",
        },
        "db": draw(st.sampled_from(["Forest", "RuleDB"])),
        "expand_verified": False,
        "smallest": False,
        "perc": 1,
        "steps": [0.01],
        "stream": [],
        "check": draw(st.sampled_from([None, None, None, 2, 4, 8])),
    }
    if case["db"] == "RuleDB":
        gen.set_prod(case["pack"])
    return case


def check_genf(case):
    with guard("search"):
        css, spec = run_search(case)
    if spec is None:
        return {"nt": False, "tags": ["nospec"]}
    if len(spec.rules_dict) > case.get("max", 8):
        raise Skip("too many rules")
    root = spec.root
    tags = set(spec_tags(spec))
    check = case["check"]
    if check is not None and check < root.minimum_size_of_object():
        tags.add("late")
    try:
        g = spec.get_genf() if check is None else spec.get_genf(check)
    except IncorrectGeneratingFunctionError:
        return {"nt": False, "tags": sorted(tags | {"none found"})}
    except (NotImplementedError, KeyError) as e:
        return {"nt": False, "tags": sorted(tags | {"none:" + type(e).__name__})}
    except Exception as e:  # failures inside the solver claim nothing
        return {"nt": False, "tags": sorted(tags | {"none:" + type(e).__name__})}
    g = sympy.sympify(g)
    if g.atoms(sympy.core.function.AppliedUndef):
        # still contains the marker of a class without equation
        return {"nt": False, "tags": sorted(tags | {"not closed"})}
    top = max(12, 2 * (check or 6), root.minimum_size_of_object() + 6)
    s = None
    for cap in (top + 10, top + 30, top + 80):
        try:
            s = evaluate(g, None, cap)
        except Unsupported as e:
            s = None
            why = str(e)
            continue
        if s.p > top:
            break
    if s is None:
        return {"nt": False, "tags": sorted(tags | {"unsupported", "unsupported:" + why[:30]})}
    got = {k: v for k, v in s.c.items() if k[0] <= top}
    want = {}
    top = min(top, int(s.p) - 1) if s.p < INFP else top
    for n in range(top + 1):
        v = sum(root.true_terms(n).values())
        if v:
            want[(Fraction(n), ())] = Fraction(v)
    got = {k: v for k, v in got.items() if k[0] <= top}
    if got != want:
        k = min(k for k in set(got) | set(want) if got.get(k) != want.get(k))
        raise Violation(
            "generating function %s of %r: coefficient of x^%s is %s, count is %s"
            % (g, root, k[0], got.get(k, 0), want.get(k, 0))
        )
    tags.add("sqrt" if g.atoms(sympy.Pow) and any(
        a.exp.is_Rational and a.exp.q > 1 for a in g.atoms(sympy.Pow)) else "rational")
    return {"nt": top > (check or 6), "tags": sorted(tags)}


PARTS = [
    Part("rules", lambda: ruleforms.rule_case(), check_rules, 5000, 80000),
    Part("eqs", lambda: gen.search_case(), check_eqs, 2500, 40000, timeout=20),
    Part("params", lambda: gen.search_case(min_S=2), check_eqs, 2000, 40000, timeout=20),
    Part("reverse", lambda: gen.reverse_case(), check_eqs, 800, 20000, timeout=20),
    Part("revparams", lambda: gen.reverse_case(min_S=2), check_eqs, 800, 20000, timeout=20),
    Part("genf", lambda: genf_case(), check_genf, 120, 4000, timeout=12),
]
