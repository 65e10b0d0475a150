"""Pairs of searches whose specifications are isomorphic, nearly isomorphic or
plainly different."""
import copy

from hypothesis import strategies as st

from . import gen
from .gen import ints


@st.composite
def family_doc(draw, S=0, dup=False):
    """a grammar with several near copies of the same nonterminals"""
    nterm = draw(ints(1, 2))
    terms = []
    for i in range(nterm):
        w = 1 if i == 0 else draw(st.sampled_from([1, 1, 2]))
        terms.append([w, [draw(st.sampled_from([0, 1, 1, 2])) for _ in range(S)]])
    base = draw(ints(1, 3))
    n = []
    for i in range(base):
        alts = []
        for _ in range(draw(st.sampled_from([1, 2, 2, 3]))):
            k = draw(st.sampled_from([0, 1, 1, 2, 2]))
            a = [draw(ints(0, base - 1)) for _ in range(k)]
            a.insert(draw(ints(0, len(a))), -draw(ints(1, nterm)))
            if draw(ints(0, 5)) == 0:
                a = [s for s in a if s < 0]
            alts.append(a)
        if draw(ints(0, 2)) == 0:
            alts.append([])
        n.append(alts)
    # copies: the same productions, references going to copies at random
    copies = {i: [i] for i in range(base)}
    for _ in range(draw(ints(0, 3))):
        i = draw(ints(0, base - 1))
        copies[i].append(len(n))
        n.append(copy.deepcopy(n[i]))
    for alts in n:
        for a in alts:
            for j, s in enumerate(a):
                if s >= 0 and len(copies.get(s, [s])) > 1:
                    a[j] = draw(st.sampled_from(copies[s]))
    for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2]))):
        mutate(draw, n, nterm)
    if dup:
        i = draw(ints(0, len(n) - 1))
        n[i] = [n[i][0]] * draw(ints(2, 3))
    if draw(ints(0, 1)):
        # a start symbol that reaches several of them
        alts = []
        for _ in range(draw(ints(1, 3))):
            alts.append([draw(ints(0, len(n) - 1)) for _ in range(draw(ints(1, 3)))])
        n = shift(n, 1)
        n.insert(0, [[s + 1 if s >= 0 else s for s in a] for a in alts])
    if draw(ints(0, 4)) == 0:
        # a nonterminal generating nothing
        dead = len(n)
        n.append([[-1, dead]])
        i = draw(ints(0, dead - 1))
        n[i] = n[i] + [[dead]]
    return {"t": terms, "n": n, "S": S}


@st.composite
def nf_doc(draw, S=0):
    """a grammar in normal form: every nonterminal is a union, a product or a renaming
    of single symbols, so products nest directly in products and unions in unions"""
    nterm = draw(ints(1, 2))
    terms = [
        [1 if i == 0 else draw(st.sampled_from([1, 1, 2])), [draw(st.sampled_from([0, 1, 1, 2])) for _ in range(S)]]
        for i in range(nterm)
    ]
    nn = draw(ints(2, 6))
    n = []
    for i in range(nn):
        kind = draw(st.sampled_from("UUPPPE")) if i else draw(st.sampled_from("UPPE"))
        later = st.one_of(ints(min(i + 1, nn - 1), nn - 1), ints(0, nn - 1))
        if kind == "U":
            alts = [[]] if draw(ints(0, 2)) else [[-draw(ints(1, nterm))]]
            for _ in range(draw(st.sampled_from([1, 1, 2]))):
                alts.append([draw(later)])
            if draw(ints(0, 1)):
                alts.reverse()
            n.append(alts)
        elif kind == "P":
            a = []
            for _ in range(draw(st.sampled_from([1, 2, 2, 3]))):
                a.append(draw(later) if draw(ints(0, 2)) else -draw(ints(1, nterm)))
            if draw(ints(0, 3)):
                a.insert(draw(ints(0, len(a))), -draw(ints(1, nterm)))
            n.append([a])
        else:
            n.append([[draw(later)]])
    return guard_doc({"t": terms, "n": n, "S": S})


def guard_doc(doc):
    """finitely many words of every size: a terminal on every cycle of references"""
    n = doc["n"]
    while True:
        null = set()
        while True:
            new = {i for i, alts in enumerate(n) if any(all(s in null for s in a) for a in alts)}
            if new == null:
                break
            null = new
        edges = {}
        for i, alts in enumerate(n):
            for k, a in enumerate(alts):
                for j, s in enumerate(a):
                    if s >= 0 and all(x in null for y, x in enumerate(a) if y != j):
                        edges.setdefault(i, []).append((s, k, j))

        def reaches(x, goal):
            seen, todo = set(), [x]
            while todo:
                y = todo.pop()
                if y == goal:
                    return True
                if y not in seen:
                    seen.add(y)
                    todo.extend(e[0] for e in edges.get(y, ()))
            return False

        bad = [(i, e) for i in sorted(edges, reverse=True) for e in edges[i] if reaches(e[0], i)]
        if not bad:
            return doc
        i, (s, k, j) = bad[0]
        if len(n[i][k]) > 1:
            n[i][k].append(-1)
        else:
            n.append([[-1, s]])
            n[i][k][j] = len(n) - 1


def shape(alts):
    return (len(alts), len(alts[0])) if len(alts) == 1 else (len(alts), 1)


def redirect(draw, doc):
    """references sent to another nonterminal of the same shape, or through a renaming"""
    doc = copy.deepcopy(doc)
    n = doc["n"]
    for _ in range(draw(st.sampled_from([1, 1, 2]))):
        refs = [(i, k, j) for i, alts in enumerate(n) for k, a in enumerate(alts) for j, s in enumerate(a) if s >= 0]
        if not refs:
            break
        i, k, j = draw(st.sampled_from(refs))
        s = n[i][k][j]
        same = [x for x in range(len(n)) if x != s and shape(n[x]) == shape(n[s])]
        if same and draw(ints(0, 3)):
            n[i][k][j] = draw(st.sampled_from(same))
        elif draw(ints(0, 1)):
            # a copy of the nonterminal, the reference goes to the copy
            n.append(copy.deepcopy(n[s]))
            n[i][k][j] = len(n) - 1
        else:
            n.append([[s]])
            n[i][k][j] = len(n) - 1
    return guard_doc(doc)


def shift(n, k):
    return [[[s + k if s >= 0 else s for s in a] for a in alts] for alts in n]


def mutate(draw, n, nterm):
    i = draw(ints(0, len(n) - 1))
    k = draw(ints(0, 5))
    if k == 0 and len(n[i]) > 1:
        n[i].pop(draw(ints(0, len(n[i]) - 1)))
    elif k == 1:
        n[i].append([-draw(ints(1, nterm)), draw(ints(0, len(n) - 1))])
    else:
        a = n[i][draw(ints(0, len(n[i]) - 1))]
        if a and k < 4:
            j = draw(ints(0, len(a) - 1))
            a[j] = draw(ints(0, len(n) - 1)) if a[j] >= 0 else -draw(ints(1, nterm))
        elif a and k == 4 and sum(1 for s in a if s < 0) > 1:
            a.pop()
        else:
            a.append(-draw(ints(1, nterm)))


def transform(draw, doc, seq):
    """an isomorphic copy of a grammar: renamed, alternatives and factors permuted"""
    n = copy.deepcopy(doc["n"])
    perm = list(draw(st.permutations(range(len(n)))))
    out = [None] * len(n)
    for i, alts in enumerate(n):
        if len({tuple(a) for a in alts}) == len(alts):
            alts = [alts[j] for j in draw(st.permutations(range(len(alts))))]
        new = []
        for a in alts:
            new.append([perm[s] if s >= 0 else s for s in a])
        kind = draw(ints(0, 3))
        if kind == 1:
            new = [a[::-1] for a in new]
        elif kind == 2:
            p = [draw(ints(0, 99)) for _ in range(4)]
            new = [[s for _, _, s in sorted((p[j % 4], j, s) for j, s in enumerate(a))] for a in new]
        elif kind == 3 and len(new) > 1 and draw(ints(0, 2)) == 0:
            # an alternative behind a new nonterminal: an equivalence on one side
            new = [list(a) for a in new]
        out[perm[i]] = new
    res = {**doc, "n": out}
    if draw(ints(0, 2)) == 0:
        # some references go through an extra nonterminal with one production
        i = draw(ints(0, len(out) - 1))
        k = len(out)
        for alts in out:
            for a in alts:
                for j, s in enumerate(a):
                    if s == i and draw(st.booleans()):
                        a[j] = k
        out.append([[i]])
    return res, [perm[s] if s >= 0 else s for s in seq]


@st.composite
def plain_pack(draw, T, dup, rich=False):
    L = draw(ints(4, 6))
    fac = draw(gen.factor(1))
    fac[1]["cut"] = draw(st.sampled_from(["each", "each", "each", "first", "last"]))
    exp = draw(gen.expand(T, L))
    exp[1].pop("only", None)
    if draw(ints(0, 2)):
        exp[1].pop("tag", None)
    sets = [[exp]]
    initial = [fac]
    if dup:
        initial.insert(0, ["Fold", {"pol": draw(gen.pol)}])
    if rich:
        # several ways to decompose the same class
        for pos in draw(st.sampled_from([["first"], ["last"], ["first", "last"]])):
            more = draw(gen.expand(T, L))
            more[1].pop("only", None)
            more[1]["pos"] = pos
            sets[draw(ints(0, len(sets) - 1))].append(more)
        for cut in draw(st.sampled_from([["first"], ["last"], ["half", "last"], ["first", "each"]])):
            more = draw(gen.factor(1))
            more[1]["cut"] = cut
            if draw(ints(0, 1)):
                more[1]["order"] = "rev"
            (initial if draw(ints(0, 1)) else sets[0]).append(more)
    infer = []
    if draw(ints(0, 3)) == 0:
        infer.append(draw(gen.unit(T, L)))
    if T > 1 and draw(ints(0, 1)) == 0:
        # unary steps between copies of the same class
        sets[0].insert(0, draw(gen.retag(T)))
    return {
        "initial": initial,
        "inferral": infer,
        "expansion": sets,
        "ver": [["VAtom", {"strict": True} if draw(ints(0, 2)) == 0 else {}]],
        "sym": [],
        "iterative": False,
        "name": "iso",
    }


@st.composite
def search_of(draw, doc, seq, params, dup, T, dbs, rich=False):
    case = {
        "gram": doc,
        "start": {"seq": seq, "tag": draw(ints(0, T - 1)), "params": params},
        "T": T,
        "pack": draw(plain_pack(T, dup, rich)),
        "db": draw(st.sampled_from(dbs)),
        "expand_verified": False,
        "smallest": False,
        "perc": 1,
        "steps": [0.01],
        "stream": draw(st.lists(ints(0, 1000), max_size=4)),
    }
    if not case["db"].startswith("Forest"):
        gen.set_prod(case["pack"], keep_eq=True)
    return case


DBS = ("Forest", "ForestNoRev", "ForestNoRev", "RuleDB")


@st.composite
def pair_case(draw, S_max=1, dbs=DBS, dup=False, nf=False, rich=False):
    S = draw(ints(0, S_max))
    doc = draw(nf_doc(S=S) if nf else family_doc(S=S, dup=dup))
    params = draw(gen.params_doc(S))
    nn = len(doc["n"])
    seq = draw(st.sampled_from([[0], [0], [0], [0, nn - 1], [-1, 0], [nn - 1]]))
    T = draw(st.sampled_from([1, 1, 1, 2, 3]))
    a = draw(search_of(doc, seq, params, dup, T, dbs, rich))
    kinds = ["same", "iso", "iso", "iso", "mut", "sub"]
    if nf:
        kinds += ["redir", "redir", "redir"]
    kind = draw(st.sampled_from(kinds))
    if kind == "same":
        doc2, seq2 = doc, seq
    else:
        doc2, seq2 = transform(draw, doc, seq)
        if kind == "mut":
            doc2 = copy.deepcopy(doc2)
            mutate(draw, doc2["n"], len(doc["t"]))
            guard_doc(doc2)
        elif kind == "redir":
            doc2 = redirect(draw, doc2)
        elif kind == "sub":
            seq2 = [draw(ints(0, len(doc2["n"]) - 1))]
    b = draw(search_of(doc2, seq2, params, dup, T, dbs, rich))
    if draw(ints(0, 1)):
        b["pack"] = copy.deepcopy(a["pack"])
        if not b["db"].startswith("Forest"):
            gen.set_prod(b["pack"], keep_eq=True)
    return {"a": a, "b": b, "kind": kind}


@st.composite
def finder_case(draw, S_max=1, rich=False):
    form = draw(st.sampled_from(["nf", "plain"] if rich else ["plain", "plain", "dup", "nf"]))
    case = draw(
        pair_case(S_max=S_max, dbs=("RuleDB",), dup=form == "dup", nf=form == "nf", rich=rich)
    )
    case["variant"] = draw(st.sampled_from(["plain", "path"]))
    return case


@st.composite
def label_case(draw):
    """equivalence labels made of several unary steps, some of them no equivalences"""
    case = draw(pair_case(S_max=1, dbs=("RuleDB",)))
    case["variant"] = draw(st.sampled_from(["path", "path", "path", "plain"]))
    T = draw(st.sampled_from([2, 3, 3, 4, 5]))
    steps = []
    for i in range(T):
        for _ in range(draw(st.sampled_from([1, 1, 2]))):
            cfg = {
                "tag": str(draw(st.sampled_from([(i + 1) % T] * 3 + list(range(T))))),
                "T": T,
                "from": [i],
                "pol": draw(st.sampled_from(["keep", "keep", "keep", "clean", "rename"])),
                "eq": draw(st.sampled_from([True, True, False])),
            }
            if draw(ints(0, 3)) == 0:
                cfg["two_way"] = False
            if draw(ints(0, 5)) == 0:
                cfg["onlylen"] = [draw(ints(1, 2))]
            steps.append(["Retag", cfg])
    for k in "ab":
        c = case[k]
        c["T"] = T
        c["start"]["tag"] = draw(ints(0, T - 1))
        sets = c["pack"]["expansion"]
        own = steps if k == "a" or draw(ints(0, 3)) else steps[: draw(ints(0, len(steps)))]
        sets[0] = copy.deepcopy(own) + [x for x in sets[0] if x[0] != "Retag"]
        for x in c["pack"]["initial"] + sets[0]:
            if x[0] in ("Expand", "Factor") and draw(ints(0, 1)):
                x[1]["tag"] = draw(st.sampled_from(["alt", "inc"]))
                x[1]["T"] = T
        gen.set_prod(c["pack"], keep_eq=True)
    return case


@st.composite
def eqpath_case(draw):
    """every class is reached through a chain of unary steps, most of them no
    equivalences, of two kinds that do not match each other"""
    case = draw(pair_case(S_max=1, dbs=("RuleDB",)))
    case["variant"] = draw(st.sampled_from(["path", "path", "path", "plain"]))
    T = draw(st.sampled_from([3, 3, 4, 5]))
    eq = [draw(st.sampled_from([True, False, False])) for _ in range(T)]
    kind = [draw(st.booleans()) for _ in range(T)]
    two = [draw(st.booleans()) for _ in range(T)]
    at = draw(ints(1, T - 1))
    back = draw(st.sampled_from([0, 0, 0, at - 1]))
    for k in "ab":
        c = case[k]
        c["T"] = T
        c["start"]["tag"] = 0
        steps = []
        for i in range(T):
            cfg = {"tag": str((i + 1) % T), "T": T, "from": [i], "eq": eq[i], "two_way": two[i]}
            retag = kind[i] != (k == "b" and draw(ints(0, 5)) == 0)
            if retag:
                cfg["pol"] = draw(st.sampled_from(["keep", "keep", "keep", "clean", "rename"]))
                steps.append(["Retag", cfg])
            else:
                cfg.update({"cut": "one", "pol": "keep", "ignore_parent": False})
                steps.append(["Factor", cfg])
        sets = c["pack"]["expansion"]
        if draw(ints(0, 3)):
            for x in c["pack"]["initial"] + [x for s in sets for x in s]:
                if x[0] in ("Expand", "Factor"):
                    x[1]["only" if x[0] == "Expand" else "from"] = [at]
                    x[1]["tag"] = str(back)
                    x[1]["T"] = T
                    if x[0] == "Factor":
                        x[1]["ignore_parent"] = False
        c["pack"]["inferral"] = []
        sets[0] = steps + [x for x in sets[0] if x[0] != "Retag"]
        gen.set_prod(c["pack"], keep_eq=True)
    return case
