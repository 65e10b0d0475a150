"""Reference models: slow, obvious, independent of the code under test."""
from collections import Counter, defaultdict
from itertools import product as iproduct

INF = float("inf")


def lfp(rules):
    """Least fixed point of the 'number of computable terms' operator.

    rules: iterable of (parent, children, shifts); returns dict for every class
    mentioned.  value(p) = max over rules of min over children of
    value(c) + shift (a rule without children gives infinity); starts at 0.
    """
    rules = [(p, tuple(c), tuple(s)) for p, c, s in rules]
    val = {}
    W = 1
    for p, c, s in rules:
        val.setdefault(p, 0)
        for x in c:
            val.setdefault(x, 0)
        for x in s:
            W = max(W, abs(x))
    bound = (len(val) + 1) * (W + 1)
    changed = True
    while changed:
        changed = False
        for p, c, s in rules:
            if val[p] == INF:
                continue
            new = min((val[x] + y for x, y in zip(c, s)), default=INF)
            if new > bound:
                # finite values are sums of shifts along simple paths
                new = INF
            if new > val[p]:
                val[p] = new
                changed = True
    return val


def gfp(rules):
    """Greatest fixed point pruning.  rules: dict label -> set of tuples.
    Returns the dict restricted to surviving labels and rules."""
    rules = {k: set(v) for k, v in rules.items()}
    while True:
        alive = set(rules)
        new = {}
        for k, v in rules.items():
            keep = {r for r in v if all(x in alive for x in r)}
            if keep:
                new[k] = keep
        if new == rules:
            return new
        rules = new


def iterative(rules, root):
    """Labels derivable bottom-up, where the root may be used freely.
    Returns (set of derivable labels, root derivable?)"""
    done = {root}
    root_ok = False
    changed = True
    while changed:
        changed = False
        for k, v in rules.items():
            if any(all(x in done for x in r) for r in v):
                if k == root and not root_ok:
                    root_ok = True
                    changed = True
                if k not in done:
                    done.add(k)
                    changed = True
    return done, root_ok


def reach(edges, nodes):
    """reflexive transitive closure as dict of sets"""
    adj = defaultdict(set)
    for a, b in edges:
        adj[a].add(b)
    res = {}
    for n in nodes:
        seen = {n}
        todo = [n]
        while todo:
            x = todo.pop()
            for y in adj[x]:
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        res[n] = seen
    return res


def compositions(n, k):
    if k == 0:
        if n == 0:
            yield ()
        return
    if k == 1:
        yield (n,)
        return
    for i in range(n + 1):
        for rest in compositions(n - i, k - 1):
            yield (i,) + rest


def clean(terms):
    return {tuple(k): v for k, v in terms.items() if v != 0}
