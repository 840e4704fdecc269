"""Skeletons: values whose list counts and string lengths are fixed and whose contents stay symbolic.

A skeleton mirrors a value: None for a scalar/enum leaf, an int for a string (its length in characters or
bytes, the engine decides), a list of skeletons for a list, a dict for a struct.
Lengths decide control flow, so an engine forks on them; this module fixes the set of forks.
"""
import itertools
import random


def variable(t):
    """does the type contain anything whose length varies"""
    if t.kind in ("list", "string"):
        return True
    if t.kind == "struct":
        return any(variable(m) for _, m in t.ref.members)
    return False


def uniform(t, n, s=None, inner=None):
    """every list n long, every string s long; lists below the first level are `inner` long"""
    s = n if s is None else s
    if t.kind == "string":
        return s
    if t.kind == "list":
        k = inner if inner is not None else n
        return [uniform(t.elem, k, s, k) for _ in range(n)]
    if t.kind == "struct":
        return {m: uniform(mt, n, s, inner) for m, mt in t.ref.members}
    return None


def all_of(t, lcap, scap, limit):
    """every skeleton of the type within the caps, or None when there are more than limit"""
    if t.kind == "string":
        return list(range(scap + 1))
    if t.kind == "list":
        el = all_of(t.elem, lcap, scap, limit)
        if el is None:
            return None
        out = []
        for n in range(lcap + 1):
            if len(el) ** n + len(out) > limit:
                return None
            out += [list(x) for x in itertools.product(el, repeat=n)]
        return out
    if t.kind == "struct":
        return product_members(t.ref.members, lcap, scap, limit)
    return [None]


def product_members(members, lcap, scap, limit):
    opts = []
    total = 1
    for n, mt in members:
        o = all_of(mt, lcap, scap, limit)
        if o is None:
            return None
        total *= len(o)
        if total > limit:
            return None
        opts.append(o)
    return [dict(zip([n for n, _ in members], c)) for c in itertools.product(*opts)]


def rand(t, rng, lcap, scap, level=0):
    if t.kind == "string":
        return rng.randint(0, scap)
    if t.kind == "list":
        cap = lcap if level == 0 else max(1, lcap)
        return [rand(t.elem, rng, lcap, scap, level + 1) for _ in range(rng.randint(0, cap))]
    if t.kind == "struct":
        return {m: rand(mt, rng, lcap, scap, level) for m, mt in t.ref.members}
    return None


def shapes(members, lcap=2, scap=2, limit=20):
    """(list of skeleton dicts, exhaustive?)"""
    full = product_members(members, lcap, scap, limit)
    if full is not None:
        return full, True
    out, seen = [], set()

    def add(sk):
        k = repr(sk)
        if k not in seen:
            seen.add(k)
            out.append(sk)
    agg = lambda f: {n: f(t) for n, t in members}
    add(agg(lambda t: uniform(t, 0)))
    add(agg(lambda t: uniform(t, 1)))
    add(agg(lambda t: uniform(t, lcap, scap, min(lcap, 2))))
    add(agg(lambda t: uniform(t, lcap, 0, 0)))
    add(agg(lambda t: uniform(t, 1, scap, lcap)))
    # one member at a time long, the rest empty; and the other way round
    var = [n for n, t in members if variable(t)]
    for v in var:
        add({n: uniform(t, lcap, scap, 1) if n == v else uniform(t, 0) for n, t in members})
        add({n: uniform(t, 0) if n == v else uniform(t, 1, scap, 1) for n, t in members})
    rng = random.Random(20240711)   # fixed: the set is part of the stated bound
    tries = 0
    while len(out) < limit and tries < 50 * limit:
        tries += 1
        add(agg(lambda t: rand(t, rng, lcap, scap)))
    return out[:max(limit, 5)], False


def paths_to(t, pre=()):
    """every list and string a value can contain, as the path of members and list levels to it"""
    if t.kind == "string":
        yield pre
    elif t.kind == "list":
        yield pre
        yield from paths_to(t.elem, pre + (None,))
    elif t.kind == "struct":
        for n, mt in t.ref.members:
            yield from paths_to(mt, pre + (n,))


def along(t, path, n, s, els=lambda t, n: [uniform(t, 0) for _ in range(n)]):
    """the list or string at the end of path is long, lists on the way hold one element, everything else is empty"""
    if t.kind == "string":
        return s if path == () else 0
    if t.kind == "list":
        if path is None:
            return []
        if path == ():
            return els(t.elem, n)
        return [along(t.elem, path[1:], n, s, els)]
    if t.kind == "struct":
        return {m: along(mt, path[1:] if path and path[0] == m else None, n, s, els) for m, mt in t.ref.members}
    return None


def one_long(members, n, s, **kw):
    """one skeleton for each list and string anywhere in the message, that one long and the others empty"""
    return [{m: along(t, p if m == v else None, n, s, **kw) for m, t in members} for v, vt in members for p in paths_to(vt)]


def weight(sk):
    """number of symbolic leaves"""
    if sk is None:
        return 1
    if isinstance(sk, int):
        return sk + 1
    if isinstance(sk, list):
        return 1 + sum(weight(x) for x in sk)
    return sum(weight(x) for x in sk.values())


def lens(t, sk):
    """lengths in drawing order (count before elements)"""
    if t.kind == "string":
        return [sk]
    if t.kind == "list":
        return [len(sk)] + [x for e in sk for x in lens(t.elem, e)]
    if t.kind == "struct":
        return [x for n, mt in t.ref.members for x in lens(mt, sk[n])]
    return []


def msg_lens(members, sk):
    return [x for n, mt in members for x in lens(mt, sk[n])]
