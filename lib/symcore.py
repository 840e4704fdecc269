"""Path exploration by re-execution, and machine-word values that are python ints when concrete and z3 bit-vectors otherwise."""
import threading
import time

import z3

_lock = threading.Lock()
STATS = dict(queries=0, secs=0.0, paths=0, forks=0, proofs=0)


class PathEnd(BaseException):
    """this path is infeasible or deliberately not followed further"""


class Budget(BaseException):
    """bound of paths or time reached: no verdict"""


class Unsupported(BaseException):
    """the encoding does not know this construct: no verdict"""


class Speculative(Exception):
    """a decision would be needed while evaluating code that may not be reached"""


class Ctx:
    spec = False

    def __init__(self, prefix=(), timeout_ms=30000):
        self.prefix = list(prefix)
        self.decisions = []
        self.pending = []
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.model = None
        self.failures = []
        self.notes = {}

    # -- solver ---------------------------------------------------------
    def _check(self, *conds):
        t = time.time()
        r = self.solver.check(*conds)
        STATS["queries"] += 1
        STATS["secs"] += time.time() - t
        if r == z3.unknown:
            raise Budget("solver gave no answer: " + self.solver.reason_unknown())
        return r == z3.sat

    def _add(self, cond):
        self.solver.add(cond)
        if self.model is not None and not z3.is_true(self.model.eval(cond, model_completion=True)):
            self.model = None

    def assume(self, cond):
        if self.spec:
            raise Speculative()
        if isinstance(cond, bool):
            if not cond:
                raise PathEnd()
            return
        self._add(cond)
        if self.model is None:
            if not self._check():
                raise PathEnd()
            self.model = self.solver.model()

    def branch(self, cond):
        """decide a condition, forking when both outcomes are possible"""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.spec:
            raise Speculative()
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.decisions.append(d)
            self._add(cond if d else z3.Not(cond))
            return d
        if self.model is None:
            if not self._check():
                raise PathEnd()
            self.model = self.solver.model()
        d = z3.is_true(self.model.eval(cond, model_completion=True))
        other = z3.Not(cond) if d else cond
        if self._check(other):
            self.pending.append(self.decisions + [not d])
            STATS["forks"] += 1
        self.decisions.append(d)
        self._add(cond if d else z3.Not(cond))
        return d

    def choose(self, n):
        """non-deterministic choice of 0..n-1"""
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            d = 0
            for k in range(1, n):
                self.pending.append(self.decisions + [k])
        self.decisions.append(d)
        return d

    def value(self, x):
        """the concrete values a term may take, forked"""
        if isinstance(x, int):
            return x
        x = z3.simplify(x)
        if z3.is_bv_value(x):
            return x.as_long()
        if self.spec:
            raise Speculative()
        while True:
            if self.model is None:
                if not self._check():
                    raise PathEnd()
                self.model = self.solver.model()
            i = len(self.decisions)
            if i < len(self.prefix):
                # replaying: the value tried is stored with the decision
                d = self.prefix[i]
                self.decisions.append(d)
                v, eq = d
                self._add(x == v if eq else x != v)
                if eq:
                    return v
                continue
            v = self.model.eval(x, model_completion=True).as_long()
            if self._check(x != v):
                self.pending.append(self.decisions + [(v, False)])
            self.decisions.append((v, True))
            self._add(x == v)
            return v

    def feasible(self):
        if self.model is None:
            if not self._check():
                return False
            self.model = self.solver.model()
        return True

    def prove(self, cond, what):
        """the condition must follow from the path condition; else a failure with a model"""
        STATS["proofs"] += 1
        if isinstance(cond, bool):
            if cond:
                return True
            if not self.feasible():
                raise PathEnd()
            self.failures.append((what, self.model))
            return False
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if self._check(z3.Not(cond)):
            self.failures.append((what, self.solver.model()))
            return False
        return True

    def fail(self, what):
        return self.prove(False, what)


class Result:
    def __init__(self):
        self.paths = 0
        self.ended = 0
        self.failures = []
        self.notes = []


def explore(fn, max_paths=20000, deadline=None, stop_on_fail=True):
    """run fn(ctx) on every feasible path"""
    res = Result()
    stack = [[]]
    while stack:
        if res.paths >= max_paths:
            raise Budget(f"more than {max_paths} paths")
        if deadline and time.time() > deadline:
            raise Budget(f"out of time after {res.paths} paths")
        ctx = Ctx(stack.pop())
        try:
            fn(ctx)
            res.paths += 1
            STATS["paths"] += 1
        except PathEnd:
            res.ended += 1
        stack.extend(ctx.pending)
        if ctx.notes:
            res.notes.append(ctx.notes)
        if ctx.failures:
            res.failures.extend(ctx.failures)
            if stop_on_fail:
                break
    return res


# -- machine words: int (already reduced modulo 2^w) or BitVecRef of width w -----------------------
def is_sym(x):
    return isinstance(x, z3.ExprRef)


def mask(w):
    return (1 << w) - 1


def norm(x):
    if isinstance(x, z3.BitVecRef):
        x = z3.simplify(x)
        if z3.is_bv_value(x):
            return x.as_long()
    return x


def bv(x, w):
    if isinstance(x, z3.BitVecRef):
        return x
    if isinstance(x, z3.BoolRef):
        return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return z3.BitVecVal(int(x), w)


def sx(x, w):
    """signed reading of a concrete word"""
    return x - (1 << w) if x >> (w - 1) & 1 else x


def extract(x, hi, lo):
    if is_sym(x):
        return norm(z3.Extract(hi, lo, x))
    return (x >> lo) & mask(hi - lo + 1)


def zext(x, w, to):
    if to <= w:
        return extract(x, to - 1, 0) if to < w else x
    return z3.ZeroExt(to - w, x) if is_sym(x) else x


def sext(x, w, to):
    if to <= w:
        return extract(x, to - 1, 0) if to < w else x
    return z3.SignExt(to - w, x) if is_sym(x) else sx(x, w) & mask(to)


def concat_le(bs):
    """little-endian bytes -> word"""
    if all(isinstance(b, int) for b in bs):
        return int.from_bytes(bytes(bs), "little")
    if len(bs) == 1:
        return bs[0]
    return norm(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))


def split_le(x, n):
    if isinstance(x, int):
        return list((x & mask(8 * n)).to_bytes(n, "little"))
    return [extract(x, 8 * i + 7, 8 * i) for i in range(n)]


def eq(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a & mask(w) == b & mask(w)
    return norm_b(bv(a, w) == bv(b, w))


def norm_b(c):
    if isinstance(c, bool):
        return c
    c = z3.simplify(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return c


def conj(cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            if not c:
                return False
        else:
            out.append(c)
    return True if not out else (out[0] if len(out) == 1 else z3.And(*out))


def disj(cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            if c:
                return True
        else:
            out.append(c)
    return False if not out else (out[0] if len(out) == 1 else z3.Or(*out))


def neg(c):
    return (not c) if isinstance(c, bool) else z3.Not(c)


def model_int(model, x):
    if isinstance(x, int):
        return x
    return model.eval(x, model_completion=True).as_long()


def bytes_eq(a, b):
    if len(a) != len(b):
        return False
    return conj([eq(x, y, 8) for x, y in zip(a, b)])
