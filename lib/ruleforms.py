"""Rules and the forms the library derives from them, over grammar classes."""
from hypothesis import strategies as st

from . import gen
from .boot import reset
from .engine import Skip, Violation
from .gen import ints
from .gram import GC, Fold, Gram, mk_strat  # noqa: F401
from .specoracle import guard
from comb_spec_searcher.exception import StrategyDoesNotApply
from comb_spec_searcher.strategies.rule import (
    EquivalencePathRule,
    EquivalenceRule,
    ReverseRule,
)


def unary_forms(base):
    """(down, up) equivalence rules between the parent and the only non-empty
    child of base, exactly as rule extraction builds them; up may be None"""
    kids = [c for c in base.children if not c.is_empty()]
    if len(kids) != 1 or not base.is_equivalence():
        return None, None
    down = base if len(base.children) == 1 else base.to_equivalence_rule()
    up = None
    if base.is_two_way():
        up = down.to_reverse_rule(0)
    return down, up


def up_candidates(cls, strat, T):
    """classes P on which strat has cls as only non-empty child"""
    g = cls.g
    seqs = [cls.seq]
    for i, alts in enumerate(g.nt):
        for a in alts:
            for j in range(len(cls.seq) - len(a) + 1):
                if cls.seq[j : j + len(a)] == a:
                    seqs.append(cls.seq[:j] + (i,) + cls.seq[j + len(a) :])
    variants = [cls.params]
    names = [a for a, _ in cls.params]
    for k in range(g.S):
        variants.append(cls.params + (("z%d" % k, k),))
        variants.append((("z%d" % k, k),) + cls.params)
    if names and all(a.startswith("q") for a in names):
        variants.append(
            tuple(("w%d" % i, k) for i, (a, k) in enumerate(reversed(cls.params)))
        )
    if len(names) > 1:
        rot = names[-1:] + names[:-1]
        variants.append(tuple((b, k) for b, (a, k) in zip(rot, cls.params)))
    out = []
    for seq in dict.fromkeys(seqs):
        for t in range(T):
            for params in variants:
                p = GC(g, seq, t, params)
                if p == cls or len(out) > 40:
                    continue
                try:
                    rule = strat(p)
                    kids = [c for c in rule.children if not c.is_empty()]
                except StrategyDoesNotApply:
                    continue
                if kids == [cls]:
                    out.append(p)
    return out


def path_rules(case, cls):
    """a chain of unary equivalence rules starting at cls"""
    cur = cls
    chain = []
    T = case["T"]
    for step in case["path"]:
        strat = mk_strat(step["strat"])
        if step["dir"] == "down":
            try:
                base = strat(cur)
            except StrategyDoesNotApply:
                continue
            down, _ = unary_forms(base)
            if down is None or down.children[0] == cur:
                continue
            chain.append(down)
        else:
            ps = up_candidates(cur, strat, T)
            if not ps:
                continue
            base = strat(ps[step["pick"] % len(ps)])
            _, up = unary_forms(base)
            if up is None:
                continue
            chain.append(up)
        cur = chain[-1].children[0]
    return chain


def derive(case):
    """list of (name, rule)"""
    reset((0.01,), case.get("stream", ()))
    g = Gram.get(case["gram"])
    s = case["start"]
    cls = GC(g, s["seq"], s["tag"], s["params"])
    if cls.is_empty():
        raise Skip("empty class")
    out = []

    def fresh():
        try:
            rule = mk_strat(case["strat"])(cls)
            return rule if rule.children is not None else None
        except StrategyDoesNotApply:
            return None

    base = fresh()
    if base is not None:
        out.append(("plain", base))
        if case["strat"][0] == "Factor" and any(c.is_empty() for c in base.children):
            raise Skip("product with an empty factor")
        with guard("derived forms"):
            if base.is_reversible():
                for i in range(len(base.children)):
                    out.append(("reverse", fresh().to_reverse_rule(i)))
            b = fresh()
            if b.is_equivalence():
                down, up = unary_forms(b)
                out.append(("equiv", fresh().to_equivalence_rule()))
                if base.is_two_way():
                    out.append(("revequiv", fresh().to_equivalence_rule().to_reverse_rule(0)))
                    if len(base.children) == 1:
                        out.append(("revunary", fresh().to_reverse_rule(0)))
    with guard("equivalence path"):
        chain = path_rules(case, cls)
        # only rules that are equivalences themselves are put on paths
        runs = [[]]
        for r in chain:
            if r.is_equivalence():
                runs[-1].append(r)
            else:
                out.append(("unary", r))
                runs.append([])
        for run in runs:
            if run:
                out.append(("path%d" % min(3, len(run)), EquivalencePathRule(run)))
    return cls, out


def features(name, rule):
    """tags of a derived rule"""
    tags = {name + ":" + type(rule.strategy).__name__}
    r = rule
    while isinstance(r, (EquivalenceRule, ReverseRule)):
        r = r.original_rule
    if isinstance(rule, EquivalencePathRule):
        k = "".join("u" if up_rule(x) else "d" for x in rule.rules)
        if len(k) > 3:
            tags.add("path of %d" % min(len(k), 6))
        tags.add("path:" + k[:3])
        base = rule.rules
    else:
        base = [r]
    for b in base:
        while isinstance(b, (EquivalenceRule, ReverseRule)):
            b = b.original_rule
        p = b.comb_class
        if not p.params:
            continue
        maps = b.strategy.extra_parameters(p, b.children)
        kind = "path" if len(base) > 1 else name
        if any(len(m) < len(p.params) for m in maps):
            tags.add(kind + "+dropped")
        if any(len(set(m.values())) < len(m) for m in maps):
            tags.add(kind + "+merged")
        if any(a != c for m in maps for a, c in m.items()):
            tags.add(kind + "+renamed")
    if any(c.is_empty() for c in rule.children):
        tags.add("emptychild")
    return tags


def up_rule(r):
    while isinstance(r, EquivalenceRule):
        r = r.original_rule
    return isinstance(r, ReverseRule)


@st.composite
def rule_case(draw, max_S=3, min_S=0, dup=False):
    if dup:
        doc = draw(gen.dup_gram_doc(max_S=max_S, min_S=min_S))
    else:
        doc = draw(gen.gram_doc(max_S=max_S, min_S=min_S, wide=11))
    T = draw(st.sampled_from([1, 1, 2, 3]))
    params = draw(gen.params_doc(doc["S"]))
    nn, nt = len(doc["n"]), len(doc["t"])
    sym = st.one_of(ints(0, nn - 1), ints(0, nn - 1), ints(-nt, -1))
    most = 4 if dup or draw(ints(0, 9)) else 7
    seq = draw(st.lists(sym, min_size=1 if most == 4 else 4, max_size=most))
    kind = draw(ints(0, 9))
    if dup:
        seq.insert(
            draw(ints(0, len(seq))), next(i for i, a in enumerate(doc["n"]) if len(a) > 1 and a[0] == a[1])
        )
        strat = ["Fold", {"pol": draw(gen.pol)}]
    elif kind < 4:
        strat = draw(gen.factor(T))
        if draw(ints(0, 14)) == 0:
            strat[1]["cut"] = "one"
        if len(seq) < 2:
            seq = seq + [draw(sym)]
    elif kind < 8:
        strat = draw(gen.expand(T, 6))
    elif kind == 8:
        strat = draw(gen.retag(T, sym=draw(st.booleans())))
    else:
        strat = draw(gen.unit(T, 6))
    strat[1].pop("notseqs", None)
    un = st.one_of(
        gen.retag(max(T, 2)), gen.unit(T, 6), gen.expand(T, 6), gen.retag(max(T, 2), sym=True)
    )
    path = draw(
        st.lists(
            st.fixed_dictionaries(
                {"dir": st.sampled_from(["down", "up"]), "strat": un, "pick": ints(0, 30)}
            ),
            min_size=0,
            max_size=draw(st.sampled_from([4, 4, 8])),
        )
    )
    return {
        "gram": doc,
        "start": {"seq": seq, "tag": draw(ints(0, T - 1)), "params": params},
        "T": max(T, 2) if path else T,
        "strat": strat,
        "path": path,
        "order": draw(ints(0, 2)),
    }
