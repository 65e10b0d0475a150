"""Hypothesis strategies producing JSON case documents."""
from . import boot  # noqa: F401
from hypothesis import strategies as st

from .gram import POLICIES, Gram


def ints(a, b):
    return st.integers(min_value=a, max_value=b)


@st.composite
def gram_doc(
    draw, max_nt=4, max_alts=3, max_len=3, max_S=3, min_S=0, dead=3, wide=0
):
    S = draw(st.sampled_from([k for k in (0, 1, 1, 2, 2, 3) if min_S <= k <= max_S]))
    nterm = draw(ints(1, 3))
    terms = []
    for i in range(nterm):
        w = 1 if i == 0 else draw(st.sampled_from([1, 1, 1, 2, 0, 3]))
        terms.append([w, [draw(st.sampled_from([0, 1, 1, 0, 2])) for _ in range(S)]])
    nn = draw(st.sampled_from([k for k in (1, 2, 2, 3, 3, 4, 4, 5) if k <= max_nt]))
    nts = []
    sym = st.one_of(ints(-nterm, -1), ints(0, nn - 1))
    # references to other nonterminals, so that universes are not tiny
    ref = st.one_of(ints(0, nn - 1), ints(0, nn - 1), ints(-nterm, -1))
    for i in range(nn):
        alts = []
        kinds = [1, 2, 2, 2, 3, 3] if i else [1, 2, 2, 2, 3, 3, 3]
        for _ in range(draw(st.sampled_from([k for k in kinds if k <= max_alts]))):
            a = draw(st.lists(sym, min_size=0, max_size=max_len))
            if len(alts) == 1 and nn > 1 and len(a) < max_len and draw(ints(0, 3)):
                a = a + [draw(ref)]
            # the last nonterminal and first alternative tend to terminate
            if any(s >= 0 and s <= i for s in a) and not any(
                s < 0 and terms[-s - 1][0] >= 1 for s in a
            ):
                a = [-1] + a[: max_len - 1]
            alts.append(a)
        nts.append(alts)
    if wide and draw(ints(0, wide)) == 0:
        # one nonterminal with many alternatives, or with a long one
        i = draw(ints(0, nn - 1))
        if draw(st.booleans()):
            more = st.lists(sym, min_size=0, max_size=1)
            nts[i] += [
                [-1] + a for a in draw(st.lists(more, min_size=2, max_size=4))
            ]
        else:
            tail = st.lists(sym, min_size=4, max_size=6)
            nts[i].append([-1] + draw(tail))
    doc = {"t": terms, "n": nts, "S": S}
    if draw(ints(0, 3)) == 0:
        doc["compress"] = True
    if draw(ints(0, 4)) == 0:
        doc["loose"] = True
    if nn > 1 and draw(ints(0, dead)) == 0:
        # a nonterminal generating nothing, used as an extra alternative
        dead = draw(ints(1, nn - 1))
        nts[dead] = [[-1, dead]]
        i = draw(ints(0, nn - 1))
        if i != dead:
            nts[i] = nts[i] + [[dead] if draw(st.booleans()) else [-1, dead]]
    # repair: make the start nonterminal productive most of the time
    if draw(ints(0, 19)) != 0:
        g = Gram.get(doc)
        for i in reversed(range(nn)):
            if g.empty((i,)) and (i == 0 or draw(ints(0, 3)) == 0):
                doc["n"][i][0] = [-1] if draw(st.booleans()) else []
                g = Gram.get(doc)
    return doc


NAMES = ("k", "l", "m", "x1", "E", "N_0")


@st.composite
def dup_gram_doc(draw, **kw):
    """some nonterminal has identical alternatives (objects in several copies)"""
    doc = draw(gram_doc(**kw))
    i = draw(ints(0, len(doc["n"]) - 1))
    doc["n"][i] = [doc["n"][i][0]] * draw(ints(2, 3))
    return doc


@st.composite
def params_doc(draw, S, max_p=3):
    if S == 0:
        return []
    n = draw(st.sampled_from([k for k in (0, 1, 1, 1, 2, 2, 2, 3) if k <= max_p]))
    names = draw(st.permutations(NAMES))[:n]
    return [[nm, draw(ints(0, S - 1))] for nm in names]


@st.composite
def flags(draw, weights=6):
    """random admissible overrides of the optional flags"""
    cfg = {}
    if draw(ints(0, weights)) == 0:
        cfg["ignore_parent"] = draw(st.booleans())
    if draw(ints(0, weights)) == 0:
        cfg["inferrable"] = draw(st.booleans())
    if draw(ints(0, 2 * weights)) == 0:
        cfg["workable"] = draw(st.booleans())
    if draw(ints(0, weights)) == 0:
        cfg["two_way"] = False
    if draw(ints(0, weights)) == 0:
        cfg["reversible"] = False
    return cfg


pol = st.sampled_from(("keep",) * 3 + POLICIES + ("mix",) * 3)


@st.composite
def tagcfg(draw, T):
    if T <= 1 or draw(ints(0, 2)) == 0:
        return {}
    return {
        "tag": draw(st.sampled_from(["keep", "inc", "alt"] + [str(i) for i in range(T)])),
        "T": T,
    }


@st.composite
def expand(draw, T, L):
    cfg = {"pos": draw(st.sampled_from(["first", "last"])), "L": L}
    cfg["order"] = draw(st.sampled_from(["fwd", "fwd", "rev", "rot"]))
    cfg["pol"] = draw(pol)
    cfg.update(draw(tagcfg(T)))
    cfg.update(draw(flags()))
    if draw(ints(0, 5)) == 0:
        cfg["live"] = True
        cfg["skip_empty"] = True
        cfg["possibly_empty"] = False
    if draw(ints(0, 7)) == 0:
        cfg["skip_empty"] = True
    if T > 1 and draw(ints(0, 5)) == 0:
        cfg["only"] = [draw(ints(0, T - 1))]
    return ["Expand", cfg]


@st.composite
def factor(draw, T):
    cfg = {"cut": draw(st.sampled_from(["each", "first", "last", "half", "runs"]))}
    cfg["order"] = draw(st.sampled_from(["fwd", "fwd", "rev", "rot"]))
    cfg["pol"] = draw(pol)
    cfg.update(draw(tagcfg(T)))
    if T > 1 and cfg.get("tag", "keep") != "keep" and draw(ints(0, 5)) == 0:
        # a product with a single factor, which is an equivalence
        cfg["cut"] = "one"
        cfg["ignore_parent"] = False
    if draw(ints(0, 4)) == 0:
        cfg["ignore_parent"] = False
    if draw(ints(0, 4)) == 0:
        cfg["inferrable"] = True
    if draw(ints(0, 7)) == 0:
        cfg["possibly_empty"] = True
    if draw(ints(0, 9)) == 0:
        cfg["two_way"] = False
    if draw(ints(0, 9)) == 0:
        cfg["reversible"] = False
    return ["Factor", cfg]


@st.composite
def retag(draw, T, sym=False):
    cfg = {"tag": draw(st.sampled_from(["inc"] + [str(i) for i in range(T)])), "T": T}
    cfg["pol"] = draw(pol)
    if not sym:
        cfg.update(draw(flags(4)))
        if draw(ints(0, 3)) == 0:
            cfg["from"] = [draw(ints(0, max(0, T - 1)))]
        if draw(ints(0, 4)) == 0:
            cfg["onlylen"] = draw(st.lists(ints(1, 3), min_size=1, max_size=2))
        if draw(ints(0, 7)) == 0:
            cfg["eq"] = False
    return ["SymTag" if sym else "Retag", cfg]


@st.composite
def unit(draw, T, L):
    cfg = {"L": L, "all": draw(st.booleans()), "pol": draw(pol)}
    cfg.update(draw(tagcfg(T)))
    cfg.update(draw(flags()))
    if draw(ints(0, 9)) == 0:
        cfg["eq"] = False
    return ["Unit", cfg]


@st.composite
def factory(draw, T, L):
    kind = draw(
        st.sampled_from(["FacStrats", "FacRules", "FacLazy", "FacForeign", "FacForeign"])
    )
    if kind == "FacForeign":
        cfg = {"mode": draw(st.sampled_from(["expand", "product", "both", "tag"])), "T": T}
        cfg["L"] = draw(ints(1, 3))
        cfg["expand"] = {"pol": draw(st.sampled_from(["keep", "keep", "clean", "rename"]))}
        cfg["factor"] = {"pol": draw(st.sampled_from(["keep", "keep", "clean", "rename"]))}
        return [kind, cfg]
    one = st.one_of(expand(T, L), factor(T), retag(T), unit(T, L))
    return [kind, {"strats": draw(st.lists(one, min_size=1, max_size=3))}]


@st.composite
def simple_pack(draw, T, L, has_params):
    """a pack meant to enumerate any class of the grammar"""
    return set_prod({
        "initial": [draw(factor(T))],
        "inferral": [],
        "expansion": [[["Expand", {"pos": "first", "L": L, "pol": draw(pol)}]]],
        "ver": [["VAtom", {}]],
        "name": "sub",
    })


@st.composite
def seqs_doc(draw, doc):
    nn, nt = len(doc["n"]), len(doc["t"])
    sym = st.one_of(ints(0, nn - 1), ints(-nt, -1))
    one = st.one_of(
        st.lists(ints(0, nn - 1), min_size=1, max_size=1),
        st.lists(sym, min_size=1, max_size=2),
        st.sampled_from([a for alts in doc["n"] for a in alts]),
    )
    out = draw(st.lists(one, min_size=1, max_size=3))
    if draw(ints(0, 4)):
        # seldom the start class itself
        out = [s for s in out if list(s) != [0]] or [[nn - 1] if nn > 1 else [-1]]
    return out


@st.composite
def pack_doc(
    draw, doc, has_params, T, L, ver="any", iterative=None, rich=True, nsym=0
):
    atom = ["VAtom", {"ignore_parent": True}]
    if not has_params and draw(st.booleans()):
        atom = ["Atom", {}]
    vers = [atom] if draw(ints(0, 29)) else []
    if ver == "any":
        k = draw(ints(0, 9))
        if k in (0, 1, 2):
            vers.append(["VBrute", {"seqs": draw(seqs_doc(doc))}])
        if k in (2, 3):
            vers.append(
                [
                    draw(st.sampled_from(["VPack", "VPackOracle"])),
                    {
                        "seqs": draw(seqs_doc(doc)),
                        "pack": draw(simple_pack(1, 6, has_params)),
                    },
                ]
            )
        if len(vers) > 1 and draw(st.booleans()):
            vers.reverse()
    initial = draw(st.lists(factor(T), min_size=0, max_size=2))
    sets = []
    for _ in range(draw(st.sampled_from([1, 1, 1, 2, 2, 3]))):
        sets.append(draw(st.lists(expand(T, L), min_size=1, max_size=2)))
    if not any(s[0] == "Factor" for s in initial) and draw(ints(0, 3)):
        sets[-1].append(draw(factor(T)))
    infer = []
    sym = []
    if rich:
        if draw(ints(0, 2)) == 0:
            infer = draw(
                st.lists(st.one_of(unit(T, L), retag(T)), min_size=1, max_size=3)
            )
        if T > 1 and draw(ints(0, 2)) == 0:
            sym = draw(st.lists(retag(T, sym=True), min_size=1, max_size=2))
        if nsym:
            sym = draw(st.lists(retag(T, sym=True), min_size=1, max_size=nsym))
        if draw(ints(0, 3)) == 0:
            sets[draw(ints(0, len(sets) - 1))].append(draw(retag(T)))
        if draw(ints(0, 2)) == 0:
            f = draw(factory(T, L))
            where = draw(ints(0, 2))
            if where == 0:
                initial = initial + [f]
            else:
                sets[draw(ints(0, len(sets) - 1))].insert(0, f)
        if draw(ints(0, 5)) == 0:
            initial = initial + [draw(expand(T, L))]
    it = draw(ints(0, 5)) == 0 if iterative is None else iterative
    return {
        "initial": initial,
        "inferral": infer,
        "expansion": sets,
        "ver": vers,
        "sym": sym,
        "iterative": it,
        "name": "p",
    }


def set_prod(doc, value=True, keep_eq=False):
    """mark every Factor of a pack document as restricted to productive cuts; no
    unary strategies that do not allow equivalences (they could run in circles)"""
    if isinstance(doc, dict):
        for k, v in doc.items():
            if k == "factor" and isinstance(v, dict):
                v["prod"] = value
            set_prod(v, value, keep_eq)
    elif isinstance(doc, list):
        if doc and doc[0] == "Factor" and isinstance(doc[1], dict):
            doc[1]["prod"] = value
        if doc and doc[0] in ("Retag", "Unit", "SymTag") and isinstance(doc[1], dict):
            if not keep_eq:
                doc[1].pop("eq", None)
        for v in doc:
            set_prod(v, value, keep_eq)
    return doc


# ways to ask for a specification (lib/engine.py)
VIA = ["auto"] * 12 + ["levels"] * 3 + ["mixed", "limit", "limit", "status"]


@st.composite
def search_case(
    draw,
    dbs=("RuleDB", "Forget", "Forest", "ForestNoRev"),
    ver="any",
    iterative=None,
    rich=True,
    max_S=3,
    min_S=0,
    max_nt=4,
    dup=False,
    nsym=0,
):
    mk = dup_gram_doc if dup else gram_doc
    kw = {} if dup else {"wide": 15}
    dead = 1 if nsym else 3
    doc = draw(mk(max_S=max_S, min_S=min_S, max_nt=max_nt, dead=dead, **kw))
    T = draw(st.sampled_from([2, 2, 3, 4, 5] if nsym else [1, 1, 2, 2, 3]))
    L = draw(ints(3, 4))
    params = draw(params_doc(doc["S"]))
    if min_S and not params:
        params = [["k", 0]]
    k = draw(ints(0, 9))
    if k < 5:
        seq = [0]
    elif k < 7 and len(doc["n"]) > 1:
        seq = [0, 1] if k == 5 else [1, 0]
    else:
        sym = st.one_of(
            ints(0, len(doc["n"]) - 1), ints(-len(doc["t"]), -1)
        )
        seq = draw(st.lists(sym, min_size=0, max_size=3))
    case = {
        "gram": doc,
        "start": {"seq": seq, "tag": draw(ints(0, T - 1)), "params": params},
        "T": T,
        "pack": draw(pack_doc(doc, bool(params), T, L, ver, iterative, rich, nsym)),
        "db": draw(st.sampled_from(list(dbs))),
        "expand_verified": draw(ints(0, 4)) == 0,
        "smallest": draw(ints(0, 4)) == 0,
        "perc": draw(st.sampled_from([1, 1, 10, 100])),
        "steps": draw(
            st.lists(st.sampled_from([0.0, 0.001, 0.01, 0.3, 5.0]), min_size=1, max_size=6)
        ),
        "stream": draw(st.lists(ints(0, 1000), min_size=0, max_size=12)),
        "via": draw(st.sampled_from(VIA)),
    }
    if draw(ints(0, 24)) == 0:
        case["debug"] = True
    if dup:
        fold = ["Fold", {"pol": draw(pol)}]
        sets = case["pack"]["expansion"]
        where = draw(ints(0, len(sets)))
        (sets[where] if where < len(sets) else case["pack"]["initial"]).insert(0, fold)
    if not case["db"].startswith("Forest"):
        set_prod(case["pack"])
    return case


@st.composite
def net_case(draw, dbs=("RuleDB", "RuleDB", "Forget", "Forest", "ForestNoRev")):
    """big equivalence labels: every class comes with many tags, connected by a random
    network of unary steps; the decompositions apply to some tags only and give
    children of all kinds of tags"""
    case = draw(search_case(dbs=dbs))
    T = case["T"] = draw(ints(3, 7))
    case["start"]["tag"] = draw(ints(0, T - 1))
    steps = []
    for i in range(T):
        for _ in range(draw(st.sampled_from([1, 1, 2, 2, 3]))):
            cfg = {
                "tag": str(draw(ints(0, T - 1))),
                "T": T,
                "from": [i],
                "pol": draw(st.sampled_from(["keep"] * 8 + ["clean", "rename", "swap"])),
            }
            if draw(ints(0, 3)) == 0:
                cfg["two_way"] = False
            if draw(ints(0, 7)) == 0:
                cfg["onlylen"] = [draw(ints(1, 2))]
            if draw(ints(0, 9)) == 0:
                cfg["ignore_parent"] = True
            if cfg["tag"] != str(i):
                steps.append(["Retag", cfg])
    steps = list(draw(st.permutations(steps)))
    pack = case["pack"]
    place = draw(st.sampled_from(["first", "last", "own", "initial", "inferral"]))
    sets = pack["expansion"]
    for x in pack["initial"] + [x for s in sets for x in s]:
        if x[0] in ("Expand", "Factor"):
            x[1]["tag"] = draw(st.sampled_from(["keep", "alt", "inc", "alt"] + [str(i) for i in range(T)]))
            x[1]["T"] = T
            if x[0] == "Expand" and draw(ints(0, 1)):
                x[1]["only"] = draw(st.lists(ints(0, T - 1), min_size=1, max_size=2))
    if place == "first":
        sets[0][:0] = steps
    elif place == "last":
        sets[-1].extend(steps)
    elif place == "own":
        sets.insert(draw(ints(0, len(sets))), steps)
    else:
        pack[place].extend(steps)
    if not case["db"].startswith("Forest"):
        set_prod(pack)
    return case


@st.composite
def reverse_case(draw, dbs=("Forest",), max_S=3, min_S=0):
    """universes in which the start class is only counted through reverse rules:
    a bigger class is verified, and the rule leading from it to the start class
    is known (given by a factory with a foreign parent or by expanding it)"""
    doc = draw(gram_doc(max_S=max_S, min_S=min_S, max_nt=3))
    g = Gram.get(doc)
    T = draw(st.sampled_from([1, 1, 1, 1, 1, 2]))
    L = draw(ints(3, 5))
    params = draw(params_doc(doc["S"]))
    nn, nt = len(doc["n"]), len(doc["t"])
    cands = [
        (i, a)
        for i, alts in enumerate(doc["n"])
        for a in alts
        if len(alts) > 1 and any(s >= 0 for s in a) and not g.empty(tuple(a))
    ]
    fac = {
        "mode": draw(st.sampled_from(["expand", "product", "both"])),
        "T": T,
        "L": draw(ints(2, 5)),
        "cond": draw(ints(0, 2)) == 0,
        "expand": {"pol": draw(st.sampled_from(["keep", "keep", "clean", "drop", "merge"]))},
        "factor": {"pol": draw(st.sampled_from(["keep", "keep", "clean", "drop", "merge"]))},
    }
    tag = 0
    big = None
    if cands and draw(ints(0, 2)):
        i, a = draw(st.sampled_from(cands))
        refused = list(a)
        big = [i]
        fac["mode"] = draw(st.sampled_from(["expand", "both"]))
    else:
        i = draw(ints(0, nn - 1))
        refused = [i]
        big = draw(
            st.sampled_from([[-draw(ints(1, nt)), i], [i, -1], [i, nn - 1], [0, i]])
        )
        fac["mode"] = draw(st.sampled_from(["product", "both"]))
        fac["cond"] = False
    known = [big]
    if draw(ints(0, 2)) == 0:
        known += draw(seqs_doc(doc))
    # the start class leads to both the refused class and the bigger one
    doc = {**doc, "n": doc["n"] + [[list(refused), list(big)]]}
    if draw(ints(0, 2)) == 0:
        doc["n"][-1].append([-1])
    if draw(ints(0, 3)) == 0:
        doc["n"][-1].reverse()
    seq = draw(st.sampled_from([[nn], [nn], [-1, nn], [nn, -1], [nn, i]]))
    known = [k for k in known if list(k) != refused and list(k) != seq]
    brute = {"seqs": known}
    if draw(ints(0, 4)) == 0:
        brute["ignore_parent"] = True
    vers = [["VAtom", {}], ["VBrute", brute]]
    no = {"notseqs": [refused]}
    exp = draw(expand(T, L))
    exp[1].update(no)
    exp[1].pop("only", None)
    fct = draw(factor(T))
    fct[1].update(no)
    sets = [[fct]]
    if draw(ints(0, 3)) == 0:
        sets[0].insert(0, ["FacForeign", fac])
    if draw(ints(0, 9)):
        sets[0].append(exp)
    elif draw(st.booleans()):
        sets.append([exp])
    sets[-1] += draw(
        st.lists(
            st.sampled_from(
                [
                    ["Unit", {"L": L, "all": True, **no}],
                    ["Expand", {"pos": "first", "L": L, "pol": "clean", **no}],
                    ["Expand", {"pos": "last", "L": L, "pol": "drop", **no}],
                ]
            ),
            max_size=1,
        )
    )
    return {
        "gram": doc,
        "start": {"seq": seq, "tag": tag, "params": params},
        "T": T,
        "pack": {
            "initial": [],
            "inferral": [],
            "expansion": sets,
            "ver": vers,
            "sym": [],
            "iterative": False,
            "name": "rev",
        },
        "db": draw(st.sampled_from(list(dbs))),
        "expand_verified": draw(ints(0, 4)) > 0,
        "smallest": False,
        "perc": draw(st.sampled_from([1, 10])),
        "steps": draw(
            st.lists(st.sampled_from([0.0, 0.01, 0.3]), min_size=1, max_size=3)
        ),
        "stream": draw(st.lists(ints(0, 1000), min_size=0, max_size=8)),
        "via": draw(st.sampled_from(VIA)),
    }


@st.composite
def long_case(draw):
    """a chain of several hundred nonterminals: a specification much longer than
    the recursion limit allows when it is not raised"""
    k = draw(ints(345, 420))
    alts = []
    for i in range(k):
        alts.append([[i + 1], [-1]] if i < k - 1 else [[], [-1]])
    for _ in range(draw(ints(0, 3))):
        i = draw(ints(0, k - 1))
        j = draw(ints(0, k - 1))
        alts[i].append([-1] + ([j] if draw(ints(0, 1)) else [-1]))
    case = {
        "gram": {"t": [[1, []]], "n": alts, "S": 0},
        "start": {"seq": [0], "tag": 0, "params": []},
        "T": 1,
        "pack": {
            "initial": [],
            "inferral": [],
            "expansion": [
                [["Expand", {"pos": "first", "L": 3, "pol": "keep"}], ["Factor", {}]]
            ],
            "ver": [["VAtom", {}]],
            "sym": [],
            "iterative": False,
            "name": "p",
        },
        "db": draw(st.sampled_from(["RuleDB", "Forget"])),
        "steps": [0.001],
        "stream": draw(st.lists(ints(0, 1000), min_size=0, max_size=4)),
    }
    return case


@st.composite
def deep_case(draw):
    """small right-recursive grammars with words of every size"""
    nt = draw(ints(1, 2))
    k = draw(ints(1, 3))
    alts = []
    for i in range(k):
        out = [draw(st.sampled_from([[], [-1]]))]
        for t in range(1, draw(ints(1, nt)) + 1):
            tail = [draw(ints(0, k - 1))]
            if draw(ints(0, 5)) == 0:
                tail.append(draw(ints(0, k - 1)))
            out.append([-t] + tail)
        alts.append(out)
    return {
        "gram": {"t": [[draw(st.sampled_from([1, 1, 1, 2])), []] for _ in range(nt)], "n": alts, "S": 0},
        "start": {"seq": [0], "tag": 0, "params": []},
        "T": 1,
        "pack": {
            "initial": [],
            "inferral": [],
            "expansion": [
                [
                    ["Expand", {"pos": "first", "L": 4, "pol": "keep"}],
                    ["Factor", {"prod": True}],
                ]
            ],
            "ver": [draw(st.sampled_from([["VAtom", {}], ["Atom", {}]]))],
            "sym": [],
            "iterative": False,
            "name": "p",
        },
        "db": draw(st.sampled_from(["RuleDB", "Forget"])),
        "steps": [0.001],
        "stream": draw(st.lists(ints(0, 1000), min_size=0, max_size=4)),
        "extra": draw(ints(0, 36)),
    }
