"""Random-grammar universe: combinatorial classes, objects and strategies.

A grammar document is
  {"t": [[weight, [stat values...]], ...],      terminals
   "n": [[[sym, ...], ...], ...],               nonterminals: list of alternatives
   "S": number of base statistics,
   "compress": bool}                            classes implement to_bytes/from_bytes
with symbols: k >= 0 is nonterminal k, -(i+1) is terminal i.

A class is (sequence of symbols, tag, ((param name, stat), ...)): the set of
tuples of derivation trees, wrapped with the tag.  All strategies below are
bijections by construction.
"""
import json
from collections import Counter, defaultdict
from functools import lru_cache
from itertools import product as iproduct

import sympy

from . import boot  # noqa: F401
from comb_spec_searcher import (
    AtomStrategy,
    CartesianProductStrategy,
    CombinatorialClass,
    CombinatorialObject,
    DisjointUnionStrategy,
    Strategy,
    StrategyFactory,
    StrategyPack,
    SymmetryStrategy,
    VerificationStrategy,
)
from comb_spec_searcher.exception import SpecificationNotFound, StrategyDoesNotApply
from comb_spec_searcher.strategies.constructor import DisjointUnion
from comb_spec_searcher.strategies.rule import NonBijectiveRule

INF = 10**9


class Gram:
    _interned = {}

    @classmethod
    def get(cls, doc):
        key = doc if isinstance(doc, str) else json.dumps(doc, sort_keys=True)
        g = cls._interned.get(key)
        if g is None:
            if len(cls._interned) > 400:
                cls._interned.clear()
            g = cls(json.loads(key), key)
            cls._interned[key] = g
        return g

    def __reduce__(self):
        return (Gram.get, (self.key,))

    def __deepcopy__(self, memo):
        return self

    def __init__(self, doc, key):
        self.doc = doc
        self.key = key
        self.term = [(int(w), tuple(int(v) for v in st)) for w, st in doc["t"]]
        self.nt = [[tuple(a) for a in alts] for alts in doc["n"]]
        self.S = int(doc["S"])
        self.compress = bool(doc.get("compress", False))
        self.loose = bool(doc.get("loose", False))
        self._min = self._minimum(lambda s: self.term[s][0])
        self._minstat = [
            self._minimum(lambda s, k=k: self.term[s][1][k]) for k in range(self.S)
        ]
        self._usable = self._usable_terms()
        self._single = self._singletons()
        self._osym = {}
        self._oseq = {}
        self._tsym = {}
        self._tseq = {}

    # ---- static analysis -------------------------------------------------
    def _minimum(self, value):
        best = [INF] * len(self.nt)
        changed = True
        while changed:
            changed = False
            for i, alts in enumerate(self.nt):
                for a in alts:
                    tot = 0
                    for s in a:
                        tot += best[s] if s >= 0 else value(-s - 1)
                    if tot < best[i] and tot < INF:
                        best[i] = tot
                        changed = True
        return best

    def _usable_terms(self):
        use = [set() for _ in self.nt]
        changed = True
        while changed:
            changed = False
            for i, alts in enumerate(self.nt):
                for a in alts:
                    if any(s >= 0 and self._min[s] >= INF for s in a):
                        continue
                    new = set(use[i])
                    for s in a:
                        if s >= 0:
                            new |= use[s]
                        else:
                            new.add(-s - 1)
                    if new != use[i]:
                        use[i] = new
                        changed = True
        return use

    def _singletons(self):
        """nonterminals with exactly one derivation tree"""
        one = [False] * len(self.nt)
        changed = True
        while changed:
            changed = False
            for i, alts in enumerate(self.nt):
                live = [
                    a
                    for a in alts
                    if not any(s >= 0 and self._min[s] >= INF for s in a)
                ]
                ok = len(live) == 1 and all(s < 0 or one[s] for s in live[0])
                if ok and not one[i]:
                    one[i] = True
                    changed = True
        return one

    def live_alts(self, i):
        return [
            k
            for k, a in enumerate(self.nt[i])
            if not any(s >= 0 and self._min[s] >= INF for s in a)
        ]

    def msize(self, seq):
        tot = 0
        for s in seq:
            tot += self._min[s] if s >= 0 else self.term[-s - 1][0]
        return min(tot, INF)

    def mstat(self, seq, k):
        tot = 0
        for s in seq:
            tot += self._minstat[k][s] if s >= 0 else self.term[-s - 1][1][k]
        return min(tot, INF)

    def empty(self, seq):
        return any(s >= 0 and self._min[s] >= INF for s in seq)

    def terminals(self, seq):
        if self.empty(seq):
            return set()
        out = set()
        for s in seq:
            if s >= 0:
                out |= self._usable[s]
            else:
                out.add(-s - 1)
        return out

    def stat_zero(self, seq, k):
        return all(self.term[t][1][k] == 0 for t in self.terminals(seq))

    def stat_equal(self, seq, k, m):
        return k == m or all(
            self.term[t][1][k] == self.term[t][1][m] for t in self.terminals(seq)
        )

    def singleton(self, seq):
        return all(s < 0 or self._single[s] for s in seq)

    # ---- enumeration (the oracle) ------------------------------------------
    def osym(self, s, n):
        """derivation trees of symbol s of size n"""
        key = (s, n)
        r = self._osym.get(key)
        if r is None:
            if s < 0:
                r = [(-s - 1, ())] if self.term[-s - 1][0] == n else []
            else:
                r = []
                for k, a in enumerate(self.nt[s]):
                    for t in self.oseq(a, n):
                        r.append((k, t))
            self._osym[key] = r
        return r

    def oseq(self, seq, n):
        key = (seq, n)
        r = self._oseq.get(key)
        if r is None:
            if n < 0 or self.empty(seq) or n < self.msize(seq):
                r = []
            elif not seq:
                r = [()] if n == 0 else []
            else:
                r = []
                head, rest = seq[0], seq[1:]
                lo = self.msize((head,))
                for m in range(lo, n - self.msize(rest) + 1):
                    right = self.oseq(rest, n - m)
                    if not right:
                        continue
                    for t in self.osym(head, m):
                        for u in right:
                            r.append((t,) + u)
            self._oseq[key] = r
        return r

    def tsym(self, s, n):
        key = (s, n)
        r = self._tsym.get(key)
        if r is None:
            r = Counter()
            if s < 0:
                w, st = self.term[-s - 1]
                if w == n:
                    r[st] = 1
            else:
                for a in self.nt[s]:
                    for v, c in self.tseq(a, n).items():
                        r[v] += c
            self._tsym[key] = r
        return r

    def tseq(self, seq, n):
        key = (seq, n)
        r = self._tseq.get(key)
        if r is None:
            r = Counter()
            if n >= 0 and not self.empty(seq) and n >= self.msize(seq):
                if not seq:
                    if n == 0:
                        r[(0,) * self.S] = 1
                else:
                    head, rest = seq[0], seq[1:]
                    for m in range(self.msize((head,)), n - self.msize(rest) + 1):
                        right = self.tseq(rest, n - m)
                        if not right:
                            continue
                        for v, c in self.tsym(head, m).items():
                            for w, d in right.items():
                                r[tuple(a + b for a, b in zip(v, w))] += c * d
            self._tseq[key] = r
        return r

    def tree_stat(self, s, tree, k):
        if s < 0:
            return self.term[-s - 1][1][k]
        alt, sub = tree
        return sum(self.tree_stat(x, t, k) for x, t in zip(self.nt[s][alt], sub))

    def valid_size(self, seq, trees):
        """size of the derivation trees of seq, None when they are not ones
        (without recursion: for large objects)"""
        if len(trees) != len(seq):
            return None
        tot, todo = 0, list(zip(seq, trees))
        while todo:
            s, t = todo.pop()
            if s < 0:
                if t != (-s - 1, ()):
                    return None
                tot += self.term[-s - 1][0]
                continue
            if not 0 <= t[0] < len(self.nt[s]) or len(self.nt[s][t[0]]) != len(t[1]):
                return None
            todo.extend(zip(self.nt[s][t[0]], t[1]))
        return tot

    def tree_size(self, s, tree):
        if s < 0:
            return self.term[-s - 1][0]
        alt, sub = tree
        return sum(self.tree_size(x, t) for x, t in zip(self.nt[s][alt], sub))


class Obj(CombinatorialObject):
    """tag + tuple of derivation trees, with its size"""

    __slots__ = ("tag", "trees", "n")

    def __init__(self, tag, trees, n):
        self.tag = tag
        self.trees = trees
        self.n = n

    def __len__(self):
        return self.n

    def _key(self):
        return (self.tag, self.trees)

    def __eq__(self, other):
        if not isinstance(other, Obj):
            return NotImplemented
        return self._key() == other._key()

    def __hash__(self):
        return hash(self._key())

    def __lt__(self, other):
        return self._key() < other._key()

    def __repr__(self):
        return "Obj(%r,%r)" % (self.tag, self.trees)


class GC(CombinatorialClass):
    __slots__ = ("g", "seq", "tag", "params", "_h")

    def __init__(self, g, seq, tag=0, params=()):
        self.g = g
        self.seq = tuple(seq)
        self.tag = tag
        self.params = tuple((str(a), int(b)) for a, b in params)
        self._h = hash((self.seq, self.tag, self.params))

    # -- CombinatorialClass interface
    def is_empty(self):
        return self.g.empty(self.seq)

    def is_atom(self):
        return not self.is_empty() and self.g.singleton(self.seq)

    def minimum_size_of_object(self):
        if self.is_empty():
            # the size of the smallest object is undefined
            return sum(self.g.msize((s,)) for s in self.seq if not self.g.empty((s,)))
        return self.g.msize(self.seq)

    @property
    def extra_parameters(self):
        return tuple(a for a, _ in self.params)

    def get_minimum_value(self, parameter):
        k = dict(self.params)[parameter]
        if self.is_empty():
            return 0
        if self.g.loose and not self.is_atom():
            return 0
        return self.g.mstat(self.seq, k)

    def _all_trees(self, n):
        return self.g.oseq(self.seq, n)

    def get_parameters(self, obj):
        return tuple(
            sum(self.g.tree_stat(s, t, k) for s, t in zip(self.seq, obj.trees))
            for _, k in self.params
        )

    def objects_of_size(self, n, **parameters):
        for trees in self._all_trees(n):
            obj = Obj(self.tag, trees, n)
            if parameters:
                vals = dict(zip(self.extra_parameters, self.get_parameters(obj)))
                if any(vals[k] != v for k, v in parameters.items()):
                    continue
            yield obj

    def possible_parameters(self, n):
        if not self.params:
            yield {}
            return
        seen = set()
        for v in self.g.tseq(self.seq, n):
            p = tuple(v[k] for _, k in self.params)
            if p not in seen:
                seen.add(p)
                yield dict(zip(self.extra_parameters, p))

    def to_bytes(self):
        if not self.g.compress:
            raise NotImplementedError
        return json.dumps([self.g.key, self.seq, self.tag, self.params]).encode()

    @classmethod
    def from_bytes(cls, b):
        key, seq, tag, params = json.loads(b.decode())
        g = Gram.get(key)
        if not g.compress:
            raise NotImplementedError
        return cls(g, seq, tag, params)

    def to_jsonable(self):
        d = super().to_jsonable()
        d.update(
            g=self.g.key,
            seq=list(self.seq),
            tag=self.tag,
            params=[list(p) for p in self.params],
        )
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(Gram.get(d["g"]), d["seq"], d["tag"], d["params"])

    def __eq__(self, other):
        if not isinstance(other, GC):
            return NotImplemented
        return (
            self.seq == other.seq
            and self.tag == other.tag
            and self.params == other.params
            and self.g.key == other.g.key
        )

    def __hash__(self):
        return self._h

    def __repr__(self):
        return "GC(%s,%d,%s)" % (
            ".".join(map(str, self.seq)),
            self.tag,
            ",".join("%s=s%d" % p for p in self.params),
        )

    __str__ = __repr__

    # -- oracle
    def true_terms(self, n):
        """Counter param tuple -> number, computed by the DP"""
        res = Counter()
        idx = [k for _, k in self.params]
        for v, c in self.g.tseq(self.seq, n).items():
            res[tuple(v[k] for k in idx)] += c
        return res

    def true_objects(self, n):
        return [Obj(self.tag, t, n) for t in self._all_trees(n)]

    def contains(self, obj):
        if not isinstance(obj, Obj) or obj.tag != self.tag:
            return False
        return obj.trees in self.g.oseq(self.seq, obj.n)


# --------------------------------------------------------------------------
# parameter policies


def child_params(g, pseq, pparams, cseq, policy):
    """(child params, map parent name -> child name); exact by construction"""
    if policy == "keep" or not pparams:
        return tuple(pparams), {a: a for a, _ in pparams}
    pairs = list(pparams)
    if policy in ("clean", "cleanrename"):
        kept = []
        mp = {}
        for a, k in pairs:
            if g.stat_zero(cseq, k):
                continue
            for b, m in kept:
                if g.stat_equal(cseq, k, m):
                    mp[a] = b
                    break
            else:
                kept.append((a, k))
                mp[a] = a
    elif policy == "drop":
        kept = [(a, k) for a, k in pairs if not g.stat_zero(cseq, k)]
        mp = {a: a for a, _ in kept}
    elif policy == "merge":
        kept = []
        mp = {}
        for a, k in pairs:
            for b, m in kept:
                if g.stat_equal(cseq, k, m):
                    mp[a] = b
                    break
            else:
                kept.append((a, k))
                mp[a] = a
    else:
        kept = pairs
        mp = {a: a for a, _ in kept}
    if policy in ("rename", "cleanrename"):
        order = list(reversed(kept))
        new = {a: "q%d" % i for i, (a, _) in enumerate(order)}
        kept = [(new[a], k) for a, k in order]
        mp = {a: new[b] for a, b in mp.items()}
    elif policy == "swap":
        # exchange names between positions: the classic capture trap
        names = [a for a, _ in kept]
        rot = names[1:] + names[:1]
        new = dict(zip(names, rot))
        kept = [(new[a], k) for a, k in kept]
        mp = {a: new[b] for a, b in mp.items()}
    return tuple(kept), mp


POLICIES = ("keep", "clean", "drop", "merge", "rename", "cleanrename", "swap")


class _Cfg:
    """Strategy settings as a JSON-able dict in self.cfg"""

    DEFAULT = {}

    def _cfg(self, cfg):
        self.cfg = {**self.DEFAULT, **cfg}

    def to_jsonable(self):
        d = super().to_jsonable()
        d["cfg"] = json.loads(json.dumps(self.cfg))
        return d

    def __repr__(self):
        return "%s(%s)" % (self.__class__.__name__, json.dumps(self.cfg, sort_keys=True))

    def __str__(self):
        return self.__class__.__name__


def ctag(cfg, tag, i=0):
    mode = cfg.get("tag", "keep")
    if mode == "keep":
        return tag
    if mode == "inc":
        return (tag + 1) % max(1, int(cfg.get("T", 1)))
    if mode == "alt":
        return (tag + i) % max(1, int(cfg.get("T", 1)))
    return int(mode)


def _flags(cfg, **dflt):
    return {
        k: bool(cfg.get(k, v))
        for k, v in dict(
            {
                "ignore_parent": False,
                "inferrable": True,
                "possibly_empty": True,
                "workable": True,
            },
            **dflt,
        ).items()
    }


class _Base(_Cfg):
    FL = {}

    def __init__(self, cfg=None, **flags):
        self._cfg(cfg or {})
        fl = _flags(self.cfg, **self.FL)
        fl.update(flags)
        super().__init__(**fl)

    @classmethod
    def from_dict(cls, d):
        cfg = d.pop("cfg")
        return cls(cfg, **d)

    def formal_step(self):
        return self.__class__.__name__

    def is_two_way(self, comb_class):
        # a rule used in both directions must have a reverse
        return bool(self.cfg.get("two_way", True)) and bool(
            self.cfg.get("reversible", True)
        )

    def is_reversible(self, comb_class):
        return bool(self.cfg.get("reversible", True))

    def can_be_equivalent(self):
        # generated only for strategies with a single child
        return bool(self.cfg.get("eq", True)) and super().can_be_equivalent()

    # decomposition yields list of (seq, tag, policy) or None
    def _raw(self, c):
        raise NotImplementedError

    def _full(self, c):
        if "notseqs" in self.cfg and list(c.seq) in self.cfg["notseqs"]:
            return None
        raw = self._raw(c)
        if raw is None:
            return None
        pol = self.cfg.get("pol", "keep")
        out = []
        for i, (seq, tag) in enumerate(raw):
            p = pol
            if pol == "mix":
                p = POLICIES[(i + len(seq)) % len(POLICIES)]
            params, mp = child_params(c.g, c.seq, c.params, seq, p)
            out.append((GC(c.g, seq, tag, params), mp))
        return out

    def decomposition_function(self, c):
        if not isinstance(c, GC):
            return None
        full = self._full(c)
        if full is None:
            return None
        return tuple(x for x, _ in full)

    def extra_parameters(self, comb_class, children=None):
        full = self._full(comb_class)
        if full is None:
            raise StrategyDoesNotApply
        return tuple(dict(mp) for _, mp in full)


def _order(cfg, k):
    o = cfg.get("order", "fwd")
    idx = list(range(k))
    if o == "rev":
        idx.reverse()
    elif o == "rot" and k:
        idx = idx[1:] + idx[:1]
    return idx


class Expand(_Base, DisjointUnionStrategy):
    """Replace one nonterminal by each of its alternatives."""

    DEFAULT = {"pos": "first", "L": 4}
    FL = {"ignore_parent": False, "inferrable": True, "possibly_empty": True}

    def _pos(self, c):
        ps = [i for i, s in enumerate(c.seq) if s >= 0]
        if not ps:
            return None
        return ps[0] if self.cfg["pos"] == "first" else ps[-1]

    def _alts(self, c):
        i = self._pos(c)
        if i is None:
            return None
        if self.cfg.get("skip_empty", False) and c.is_empty():
            return None
        only = self.cfg.get("only")
        if only is not None and c.tag not in only:
            return None
        alts = c.g.nt[c.seq[i]]
        ks = [k for k in _order(self.cfg, len(alts))]
        if self.cfg.get("live", False):
            live = set(c.g.live_alts(c.seq[i]))
            ks = [k for k in ks if k in live]
        if not self.cfg.get("live", False):
            # a child with extra empties is fine, but at least keep it bounded
            pass
        return i, ks

    def _raw(self, c):
        r = self._alts(c)
        if r is None:
            return None
        i, ks = r
        out = []
        for j, k in enumerate(ks):
            seq = c.seq[:i] + c.g.nt[c.seq[i]][k] + c.seq[i + 1 :]
            if len(seq) > self.cfg["L"]:
                return None
            out.append((seq, ctag(self.cfg, c.tag, j)))
        return out

    def forward_map(self, comb_class, obj, children=None):
        c = comb_class
        i, ks = self._alts(c)
        alt, sub = obj.trees[i]
        j = ks.index(alt)
        res = [None] * len(ks)
        res[j] = Obj(
            ctag(self.cfg, c.tag, j), obj.trees[:i] + sub + obj.trees[i + 1 :], obj.n
        )
        return tuple(res)

    def backward_map(self, comb_class, objs, children=None):
        c = comb_class
        i, ks = self._alts(c)
        j = self.backward_map_index(objs)
        o = objs[j]
        k = ks[j]
        m = len(c.g.nt[c.seq[i]][k])
        tree = (k, o.trees[i : i + m])
        yield Obj(c.tag, o.trees[:i] + (tree,) + o.trees[i + m :], o.n)


class Factor(_Base, CartesianProductStrategy):
    """Cut the sequence into blocks."""

    DEFAULT = {"cut": "each"}
    FL = {
        "ignore_parent": True,
        "inferrable": False,
        "possibly_empty": False,
        "workable": True,
    }

    def _blocks(self, c):
        n = len(c.seq)
        cut = self.cfg["cut"]
        if "from" in self.cfg and c.tag not in self.cfg["from"]:
            return None
        if n < (1 if cut == "one" else 2) or c.is_empty():
            return None
        if cut == "each":
            b = [(i, i + 1) for i in range(n)]
        elif cut == "first":
            b = [(0, 1), (1, n)]
        elif cut == "last":
            b = [(0, n - 1), (n - 1, n)]
        elif cut == "half":
            b = [(0, (n + 1) // 2), ((n + 1) // 2, n)]
        elif cut == "one":
            # a product with a single factor (an equivalence)
            b = [(0, n)]
        else:  # runs of terminals / nonterminals
            b = []
            for i, s in enumerate(c.seq):
                if b and (c.seq[b[-1][0]] < 0) == (s < 0) and s < 0:
                    b[-1] = (b[-1][0], i + 1)
                else:
                    b.append((i, i + 1))
            if len(b) < 2:
                return None
        if self.cfg.get("prod", False) and cut != "one":
            # the default databases need productive strategies: a factor that is
            # only the empty object is glued to a neighbour
            b = self._glue(c, b)
            if len(b) < 2:
                b = self._glue(c, [(i, i + 1) for i in range(n)])
            if len(b) < 2:
                return None
        return [b[i] for i in _order(self.cfg, len(b))]

    @staticmethod
    def _glue(c, blocks):
        glued = []
        for lo, hi in blocks:
            sub = c.seq[lo:hi]
            eps = c.g.singleton(sub) and c.g.msize(sub) == 0
            if glued and (eps or glued[-1][2]):
                glued[-1] = (glued[-1][0], hi, eps and glued[-1][2])
            else:
                glued.append((lo, hi, eps))
        return [(lo, hi) for lo, hi, _ in glued]

    def _raw(self, c):
        b = self._blocks(c)
        if b is None:
            return None
        return [
            (c.seq[lo:hi], ctag(self.cfg, c.tag, j)) for j, (lo, hi) in enumerate(b)
        ]

    def forward_map(self, comb_class, obj, children=None):
        c = comb_class
        out = []
        for j, (lo, hi) in enumerate(self._blocks(c)):
            trees = obj.trees[lo:hi]
            n = sum(c.g.tree_size(s, t) for s, t in zip(c.seq[lo:hi], trees))
            out.append(Obj(ctag(self.cfg, c.tag, j), trees, n))
        return tuple(out)

    def backward_map(self, comb_class, objs, children=None):
        c = comb_class
        trees = [None] * len(c.seq)
        n = 0
        for (lo, hi), o in zip(self._blocks(c), objs):
            trees[lo:hi] = o.trees
            n += o.n
        yield Obj(c.tag, tuple(trees), n)


class _Retag(_Base):
    """Same sequence, other tag and/or cleaned parameters."""

    DEFAULT = {"tag": "inc", "T": 2}

    def _raw(self, c):
        t = ctag(self.cfg, c.tag)
        src = self.cfg.get("from")
        if src is not None and c.tag not in src:
            return None
        onlylen = self.cfg.get("onlylen")
        if onlylen is not None and len(c.seq) not in onlylen:
            return None
        return [(c.seq, t)]

    def forward_map(self, comb_class, obj, children=None):
        return (Obj(ctag(self.cfg, comb_class.tag), obj.trees, obj.n),)

    def backward_map(self, comb_class, objs, children=None):
        yield Obj(comb_class.tag, objs[0].trees, objs[0].n)


class Retag(_Retag, DisjointUnionStrategy):
    # contract: an equivalence of an empty class has an empty child
    FL = {"possibly_empty": True}


class SymTag(_Retag, SymmetryStrategy):
    FL = {
        "ignore_parent": False,
        "inferrable": False,
        "possibly_empty": False,
        "workable": False,
    }


class Unit(_Base, DisjointUnionStrategy):
    """Inferral: replace nonterminals having a single live alternative."""

    DEFAULT = {"L": 4, "all": False}
    FL = {"possibly_empty": True}

    def _which(self, c):
        if c.is_empty():
            return None
        hits = [i for i, s in enumerate(c.seq) if s >= 0 and len(c.g.live_alts(s)) == 1]
        if not hits:
            return None
        return hits if self.cfg["all"] else hits[:1]

    def _raw(self, c):
        w = self._which(c)
        if w is None:
            return None
        seq = ()
        for i, s in enumerate(c.seq):
            seq += c.g.nt[s][c.g.live_alts(s)[0]] if i in w else (s,)
        if len(seq) > self.cfg["L"]:
            return None
        return [(seq, ctag(self.cfg, c.tag))]

    def forward_map(self, comb_class, obj, children=None):
        c = comb_class
        w = self._which(c)
        trees = ()
        for i, t in enumerate(obj.trees):
            trees += t[1] if i in w else (t,)
        return (Obj(ctag(self.cfg, c.tag), trees, obj.n),)

    def backward_map(self, comb_class, objs, children=None):
        c = comb_class
        w = self._which(c)
        rest = objs[0].trees
        out = []
        for i, s in enumerate(c.seq):
            if i in w:
                k = c.g.live_alts(s)[0]
                m = len(c.g.nt[s][k])
                out.append((k, rest[:m]))
                rest = rest[m:]
            else:
                out.append(rest[0])
                rest = rest[1:]
        yield Obj(c.tag, tuple(out), objs[0].n)


class Multiple(DisjointUnion):
    """constructor of a rule whose objects come in m copies"""

    def __init__(self, m, parent, children, extra_parameters):
        super().__init__(parent, children, extra_parameters)
        self.m = m
        self.k = len(parent.seq) + sum(parent.seq)

    def can_be_equivalent(self):
        return False

    def get_equation(self, lhs_func, rhs_funcs):
        eq = super().get_equation(lhs_func, rhs_funcs)
        return sympy.Eq(eq.lhs, self.m * eq.rhs)

    def get_terms(self, parent_terms, subterms, n):
        t = super().get_terms(parent_terms, subterms, n)
        return Counter({k: self.m * v for k, v in t.items()})

    def random_sample_sub_objects(
        self, parent_count, subsamplers, subrecs, n, **parameters
    ):
        # one part is enough: the rule picks among its preimages
        return super().random_sample_sub_objects(
            parent_count // self.m, subsamplers, subrecs, n, **parameters
        )

    def __str__(self):
        return "%d copies" % self.m

    def equiv(self, other, data=None):
        # the data tells how the copies are matched: i goes to data - i
        if not isinstance(other, Multiple) or self.m != other.m:
            return False, None
        return True, (self.k + other.k) % self.m


class FoldRule(NonBijectiveRule):
    def _forward_order(self, obj, image, data=None):
        return obj.trees[self.strategy._pos(self.comb_class)][0]

    def _backward_order_item(self, idx, objs, data=None):
        copies = list(self.backward_map(objs))
        return copies[idx if data is None else (data - idx) % len(copies)]


class Fold(_Base, Strategy):
    """forgets which of its identical alternatives a nonterminal took"""

    DEFAULT = {}
    FL = {"possibly_empty": False}

    def _pos(self, c):
        for i, s in enumerate(c.seq):
            if s >= 0 and len(c.g.nt[s]) > 1 and len(set(c.g.nt[s])) == 1:
                return i
        return None

    def _raw(self, c):
        i = self._pos(c)
        if i is None or c.is_empty():
            return None
        seq = c.seq[:i] + c.g.nt[c.seq[i]][0] + c.seq[i + 1 :]
        return None if len(seq) > 6 else [(seq, ctag(self.cfg, c.tag))]

    def __call__(self, comb_class, children=None):
        if children is None:
            children = self.decomposition_function(comb_class)
            if children is None:
                raise StrategyDoesNotApply("Fold does not apply")
        return FoldRule(self, comb_class, children=children)

    def can_be_equivalent(self):
        return False

    def is_two_way(self, comb_class):
        return False

    def is_reversible(self, comb_class):
        return False

    def shifts(self, comb_class, children=None):
        return (0,)

    def constructor(self, comb_class, children=None):
        i = self._pos(comb_class)
        return Multiple(
            len(comb_class.g.nt[comb_class.seq[i]]),
            comb_class,
            self.decomposition_function(comb_class),
            self.extra_parameters(comb_class),
        )

    def reverse_constructor(self, idx, comb_class, children=None):
        raise NotImplementedError

    def forward_map(self, comb_class, obj, children=None):
        i = self._pos(comb_class)
        _, sub = obj.trees[i]
        trees = obj.trees[:i] + sub + obj.trees[i + 1 :]
        return (Obj(ctag(self.cfg, comb_class.tag), trees, obj.n),)

    def backward_map(self, comb_class, objs, children=None):
        i = self._pos(comb_class)
        alts = comb_class.g.nt[comb_class.seq[i]]
        o = objs[0]
        m = len(alts[0])
        for k in range(len(alts)):
            tree = (k, o.trees[i : i + m])
            yield Obj(comb_class.tag, o.trees[:i] + (tree,) + o.trees[i + m :], o.n)


# --------------------------------------------------------------------------
# factories


class _Fac(StrategyFactory):
    def __init__(self, cfg=None):
        self.cfg = dict(cfg or {})

    def to_jsonable(self):
        d = super().to_jsonable()
        d["cfg"] = json.loads(json.dumps(self.cfg))
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(d["cfg"])

    def __repr__(self):
        return "%s(%s)" % (self.__class__.__name__, json.dumps(self.cfg, sort_keys=True))

    def __str__(self):
        return self.__class__.__name__


class FacStrats(_Fac):
    """yields strategies (possibly not applying)"""

    def __call__(self, comb_class):
        for s in self.cfg["strats"]:
            yield mk_strat(s)


class FacRules(_Fac):
    """yields ready rules of the class"""

    def __call__(self, comb_class):
        for s in self.cfg["strats"]:
            strat = mk_strat(s)
            try:
                rule = strat(comb_class)
                if len(rule.children) >= 0:
                    yield rule
            except StrategyDoesNotApply:
                continue


class FacLazy(_Fac):
    """yields rules whose children are computed lazily (may not apply)"""

    def __call__(self, comb_class):
        from comb_spec_searcher.strategies.rule import Rule

        for s in self.cfg["strats"]:
            strat = mk_strat(s)
            if isinstance(strat, VerificationStrategy):
                continue
            yield Rule(strat, comb_class)


class FacForeign(_Fac):
    """yields rules whose parent is another class: an Expand of a nonterminal
    having this sequence as an alternative, or the product prepending a terminal."""

    def __call__(self, comb_class):
        c = comb_class
        if not isinstance(c, GC) or c.is_empty():
            return
        mode = self.cfg.get("mode", "expand")
        T = max(1, int(self.cfg.get("T", 1)))
        if mode in ("expand", "both"):
            for i, alts in enumerate(c.g.nt):
                if c.seq in alts and c.seq != (i,):
                    parent = GC(c.g, (i,), c.tag, c.params)
                    strat = Expand(
                        {"pos": "first", "L": 99, **self.cfg.get("expand", {})}
                    )
                    yield from self._relevant(strat, parent, c)
        if mode in ("product", "both"):
            lim = int(self.cfg.get("L", 3))
            if 0 < len(c.seq) < lim:
                for t in range(len(c.g.term)):
                    parent = GC(c.g, (-t - 1,) + c.seq, c.tag, c.params)
                    if self.cfg.get("cond", True) and not occurs(c.g, parent.seq):
                        continue
                    strat = Factor({"cut": "first", **self.cfg.get("factor", {})})
                    yield from self._relevant(strat, parent, c)
        if mode == "tag":
            parent = GC(c.g, c.seq, (c.tag + 1) % T, c.params)
            if parent != c:
                yield Retag({"tag": str(c.tag)})(parent)

    @staticmethod
    def _relevant(strat, parent, c):
        """the rule if it applies and the class expanded occurs in it"""
        try:
            rule = strat(parent)
        except StrategyDoesNotApply:
            return
        if c == parent or c in rule.children:
            yield rule


@lru_cache(maxsize=10000)
def _occurs(key, seq):
    g = Gram.get(key)
    for alts in g.nt:
        for a in alts:
            for i in range(len(a) - len(seq) + 1):
                if a[i : i + len(seq)] == seq:
                    return True
    return False


def occurs(g, seq):
    return _occurs(g.key, tuple(seq))


# --------------------------------------------------------------------------
# verification


class VAtom(_Cfg, VerificationStrategy):
    """Atoms, with parameters."""

    def __init__(self, cfg=None, ignore_parent=True):
        self._cfg(cfg or {})
        super().__init__(ignore_parent=ignore_parent)

    @classmethod
    def from_dict(cls, d):
        return cls(d.pop("cfg"), **d)

    def formal_step(self):
        return "atom"

    def verified(self, c):
        if self.cfg.get("strict") and isinstance(c, GC) and any(s >= 0 for s in c.seq):
            # single objects that are not yet written out are left to the others
            return False
        return isinstance(c, GC) and c.is_atom()

    def get_terms(self, c, n):
        return Counter({p: v for p, v in c.true_terms(n).items()})

    def get_objects(self, c, n):
        res = defaultdict(list)
        for o in c.true_objects(n):
            res[c.get_parameters(o)].append(o)
        return res

    def random_sample_object_of_size(self, c, n, **parameters):
        key = tuple(parameters[k] for k in c.extra_parameters)
        objs = self.get_objects(c, n)[key]
        if not objs:
            raise ValueError("no such object")
        return boot.RANDOM.choice(objs)

    def get_genf(self, c, funcs=None):
        import sympy

        x = sympy.var("x")
        n = c.minimum_size_of_object()
        res = sympy.Integer(0)
        for p, v in c.true_terms(n).items():
            mono = v * x**n
            for name, e in zip(c.extra_parameters, p):
                mono *= sympy.var(name) ** e
            res += mono
        return res


class VBrute(VAtom):
    """Verifies chosen classes, counting by the oracle; no pack, no genf."""

    def __init__(self, cfg=None, ignore_parent=False):
        super().__init__(cfg, ignore_parent=ignore_parent)

    def formal_step(self):
        return "known"

    def _match(self, c):
        if not isinstance(c, GC) or c.is_empty():
            return False
        tags = self.cfg.get("tags")
        if tags is not None and c.tag not in tags:
            return False
        return list(c.seq) in [list(s) for s in self.cfg.get("seqs", [])]

    def verified(self, c):
        return self._match(c)

    def get_genf(self, c, funcs=None):
        """an equation for classes that are one nonterminal: its alternatives
        with the own function written F and others taken from funcs"""
        import sympy

        if self.cfg.get("genf", "eq") == "none" or len(c.seq) != 1 or c.seq[0] < 0:
            raise NotImplementedError("no genf")
        own = c.seq[0]
        res = sympy.Integer(0)
        for alt in c.g.nt[own]:
            mono = sympy.Integer(1)
            for s in alt:
                if s >= 0:
                    if s == own:
                        mono *= sympy.var("F")
                        continue
                    d = GC(c.g, (s,), c.tag, c.params)
                    if d.is_empty():
                        mono = sympy.Integer(0)
                    elif funcs and d in funcs:
                        mono *= funcs[d]
                    else:
                        raise NotImplementedError("no genf")
                else:
                    w, stats = c.g.term[-s - 1]
                    mono *= sympy.var("x") ** w
                    for name, k in c.params:
                        mono *= sympy.var(name) ** stats[k]
            res += mono
        return res


class VPack(VBrute):
    """Verifies chosen classes by a pack (terms from the sub-specification)."""

    def formal_step(self):
        return "pack"

    def pack(self, comb_class):
        return mk_pack(self.cfg["pack"])

    def get_terms(self, c, n):
        return VerificationStrategy.get_terms(self, c, n)

    def get_objects(self, c, n):
        return VerificationStrategy.get_objects(self, c, n)

    def get_genf(self, c, funcs=None):
        return VerificationStrategy.get_genf(self, c, funcs)

    def random_sample_object_of_size(self, c, n, **parameters):
        return VerificationStrategy.random_sample_object_of_size(self, c, n, **parameters)

    def verified(self, c):
        # contract: the pack offered does find a specification
        if not self._match(c):
            return False
        if self.cfg.get("free"):
            return True
        key = (json.dumps(self.cfg, sort_keys=True), c)
        return key in _COMPUTING or self._spec(c) is not None

    def _spec(self, comb_class):
        key = (json.dumps(self.cfg, sort_keys=True), comb_class)
        if key not in _PACKSPECS:
            if len(_PACKSPECS) > 200:
                _PACKSPECS.clear()
            _COMPUTING.add(key)
            # a nested search does not advance the clock of the outer one (it is
            # done once per case only)
            saved = [dict(x.__dict__) for x in (boot.CLOCK, boot.RANDOM)]
            boot.CLOCK.reset()
            boot.RANDOM.reset([1, 2, 3])
            try:
                _PACKSPECS[key] = VerificationStrategy.get_specification(
                    self, comb_class
                )
            except SpecificationNotFound:
                _PACKSPECS[key] = None
            finally:
                _COMPUTING.discard(key)
                for x, old in zip((boot.CLOCK, boot.RANDOM), saved):
                    x.__dict__.clear()
                    x.__dict__.update(old)
        return _PACKSPECS[key]

    def get_specification(self, comb_class):
        spec = self._spec(comb_class)
        if spec is None:
            raise SpecificationNotFound
        return spec


class VPackOracle(VPack):
    """Offers a pack, but counts with the oracle."""

    get_terms = VAtom.get_terms
    get_objects = VAtom.get_objects
    random_sample_object_of_size = VAtom.random_sample_object_of_size
    get_genf = VBrute.get_genf


_PACKSPECS = {}
_COMPUTING = set()
boot.RESET_HOOKS.append(_COMPUTING.clear)
boot.RESET_HOOKS.append(_PACKSPECS.clear)

STRATS = {
    "Expand": Expand,
    "Factor": Factor,
    "Retag": Retag,
    "SymTag": SymTag,
    "Unit": Unit,
    "Fold": Fold,
    "FacStrats": FacStrats,
    "FacRules": FacRules,
    "FacLazy": FacLazy,
    "FacForeign": FacForeign,
    "VAtom": VAtom,
    "VBrute": VBrute,
    "VPack": VPack,
    "VPackOracle": VPackOracle,
    "Atom": AtomStrategy,
}


def mk_strat(doc):
    """doc = [name, cfg]"""
    name, cfg = doc[0], (doc[1] if len(doc) > 1 else {})
    cls = STRATS[name]
    if name == "Atom":
        return cls()
    return cls(json.loads(json.dumps(cfg)))


def mk_pack(doc):
    return StrategyPack(
        initial_strats=[mk_strat(s) for s in doc.get("initial", [])],
        inferral_strats=[mk_strat(s) for s in doc.get("inferral", [])],
        expansion_strats=[[mk_strat(s) for s in ss] for ss in doc.get("expansion", [])],
        ver_strats=[mk_strat(s) for s in doc.get("ver", [])],
        name=doc.get("name", "pack"),
        symmetries=[mk_strat(s) for s in doc.get("sym", [])],
        iterative=bool(doc.get("iterative", False)),
    )


def mk_start(case):
    g = Gram.get(case["gram"])
    st = case["start"]
    return GC(g, st["seq"], st.get("tag", 0), st.get("params", ()))
