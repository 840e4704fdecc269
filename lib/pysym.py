"""Executes the tree's own Python source with symbolic strings and integers.

The source is parsed, a few constructs are rewritten so that they work on proxy values (membership tests, dict and set
displays, string joins and formatted strings, loops get a step counter), and the result is run by CPython itself.
Truth tests of symbolic conditions fork through symcore.Ctx.branch.
"""
import ast
import collections
import collections.abc
import io
import string as _string
import types

import z3

from symcore import PathEnd, Budget, Unsupported, conj, disj, neg

CUR = None          # the running symcore.Ctx
STEPS = [0, 0]      # used, limit


class StepLimit(BaseException):
    """the code under test did not come to an end within the step bound"""


def tick():
    STEPS[0] += 1
    if STEPS[0] > STEPS[1]:
        raise StepLimit()


class SymBool:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return CUR.branch(self.c)

    def __eq__(self, o):
        return bool(self) == o

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        return mkbool(conj([self.c, o.c if isinstance(o, SymBool) else bool(o)]))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(disj([self.c, o.c if isinstance(o, SymBool) else bool(o)]))
    __ror__ = __or__

    def __repr__(self):
        return "<symbolic bool>"


def mkbool(c):
    return c if isinstance(c, bool) else SymBool(c)


class SymInt:
    def __init__(self, e):
        self.e = e

    @staticmethod
    def of(o):
        if isinstance(o, SymInt):
            return o.e
        if isinstance(o, bool):
            return z3.IntVal(int(o))
        if isinstance(o, int):
            return z3.IntVal(o)
        return None

    def _cmp(self, o, f):
        if isinstance(o, float):
            o = z3.RealVal(o)
            return mkbool(f(z3.ToReal(self.e), o))
        e = SymInt.of(o)
        if e is None:
            return NotImplemented
        return mkbool(f(self.e, e))

    def __eq__(self, o):
        e = SymInt.of(o)
        return False if e is None else mkbool(self.e == e)

    def __ne__(self, o):
        e = SymInt.of(o)
        return True if e is None else mkbool(self.e != e)

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __hash__(self): return 7
    def __bool__(self): return CUR.branch(self.e != 0)

    def _ar(self, o, f):
        e = SymInt.of(o)
        return NotImplemented if e is None else SymInt(z3.simplify(f(self.e, e)))

    def __add__(self, o): return self._ar(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._ar(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._ar(o, lambda a, b: b - a)
    def __mul__(self, o): return self._ar(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __neg__(self): return SymInt(-self.e)
    def __pos__(self): return self
    def __abs__(self): return SymInt(z3.If(self.e < 0, -self.e, self.e))

    def __rshift__(self, k):
        if not isinstance(k, int):
            raise Unsupported("shift by symbolic amount")
        return SymInt(self.e / z3.IntVal(1 << k))      # z3 integer division by a positive constant floors

    def __floordiv__(self, k):
        if not isinstance(k, int) or k <= 0:
            raise Unsupported("division of a symbolic int")
        return SymInt(self.e / z3.IntVal(k))

    def __mod__(self, k):
        if not isinstance(k, int) or k <= 0:
            raise Unsupported("modulo of a symbolic int")
        return SymInt(self.e % z3.IntVal(k))

    def __and__(self, k):
        if isinstance(k, int) and k >= 0 and (k & (k + 1)) == 0:
            return SymInt(self.e % z3.IntVal(k + 1))
        raise Unsupported("bitwise and of a symbolic int")

    def bit_length(self):
        a = z3.If(self.e < 0, -self.e, self.e)
        for n in range(0, 70):
            if CUR.branch(a < (1 << n)):
                return n
        raise Unsupported("bit_length")

    def __int__(self): raise Unsupported("int() of a symbolic int")
    def __index__(self): raise Unsupported("symbolic int used as an index")
    def __repr__(self): return "<int>"
    __str__ = __repr__
    def __format__(self, spec): return "<int>"


WS = tuple(ord(c) for c in _string.whitespace)


def cin(ch, codes):
    if isinstance(ch, int):
        return ch in codes
    return disj([ch == z3.BitVecVal(c, 8) for c in codes])


class SymStr:
    """a string of known length whose characters (7-bit) may be symbolic"""
    def __init__(self, chars):
        self.ch = tuple(chars)

    @staticmethod
    def make(chars):
        chars = tuple(chars)
        if all(isinstance(c, int) for c in chars):
            return "".join(map(chr, chars))
        return SymStr(chars)

    @staticmethod
    def chars(o):
        if isinstance(o, SymStr):
            return o.ch
        if isinstance(o, str):
            return tuple(map(ord, o))
        return None

    def _eq(self, o):
        oc = SymStr.chars(o)
        if oc is None or len(oc) != len(self.ch):
            return False
        cs = []
        for a, b in zip(self.ch, oc):
            if isinstance(a, int) and isinstance(b, int):
                if a != b:
                    return False
            else:
                if isinstance(a, int):
                    a, b = b, a
                if isinstance(b, int):
                    if b > 127:
                        return False
                    b = z3.BitVecVal(b, 8)
                cs.append(a == b)
        r = conj(cs)
        return r

    def __eq__(self, o): return mkbool(self._eq(o))
    def __ne__(self, o): return mkbool(neg(self._eq(o)))
    def __hash__(self): return 7
    def __len__(self): return len(self.ch)
    def __bool__(self): return len(self.ch) > 0
    def __iter__(self): return iter([SymStr.make([c]) for c in self.ch])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymStr.make(self.ch[i])
        return SymStr.make([self.ch[i]])

    def has(self, sub):
        n = len(sub)
        return mkbool(disj([SymStr(self.ch[i:i + n])._eq(sub) for i in range(len(self.ch) - n + 1)]))

    def __contains__(self, sub): return bool(self.has(sub))

    def _map(self, lo, hi, d):
        out = []
        for c in self.ch:
            if isinstance(c, int):
                out.append(c + d if lo <= c <= hi else c)
            else:
                out.append(z3.If(z3.And(z3.UGE(c, lo), z3.ULE(c, hi)), c + d, c))
        return SymStr.make(out)

    def lower(self): return self._map(65, 90, 32)
    casefold = lower
    def upper(self): return self._map(97, 122, -32)
    def capitalize(self): return SymStr.make(SymStr.chars(self[:1].upper()) + SymStr.chars(self[1:].lower()))
    def startswith(self, p, *r):
        if isinstance(p, tuple):
            return mkbool(disj([x if isinstance(x, bool) else x.c for x in (self.startswith(q) for q in p)]))
        return mkbool(SymStr(self.ch[:len(p)])._eq(p)) if len(p) <= len(self.ch) else False

    def endswith(self, p):
        if isinstance(p, tuple):
            return mkbool(disj([x if isinstance(x, bool) else x.c for x in (self.endswith(q) for q in p)]))
        n = len(p)
        if n > len(self.ch):
            return False
        return mkbool(SymStr(self.ch[len(self.ch) - n:])._eq(p))

    def removeprefix(self, p): return self[len(p):] if self.startswith(p) else self
    def removesuffix(self, p): return self[:len(self) - len(p)] if self.endswith(p) else self

    def _all(self, f):
        return mkbool(conj([f(c) for c in self.ch])) if self.ch else False

    def isspace(self): return self._all(lambda c: cin(c, WS + (28, 29, 30, 31)))

    @staticmethod
    def _rng(c, *rs):
        if isinstance(c, int):
            return any(a <= c <= b for a, b in rs)
        return disj([z3.And(z3.UGE(c, a), z3.ULE(c, b)) for a, b in rs])

    def isalpha(self): return self._all(lambda c: self._rng(c, (65, 90), (97, 122)))
    def isdigit(self): return self._all(lambda c: self._rng(c, (48, 57)))
    isdecimal = isnumeric = isdigit
    def isalnum(self): return self._all(lambda c: self._rng(c, (48, 57), (65, 90), (97, 122)))
    def isascii(self): return True
    def isprintable(self): return mkbool(conj([self._rng(c, (32, 126)) for c in self.ch]))
    def islower(self): raise Unsupported("islower")

    def isidentifier(self):
        if not self.ch:
            return False
        return mkbool(conj([self._rng(self.ch[0], (65, 90), (97, 122), (95, 95))] +
                           [self._rng(c, (48, 57), (65, 90), (97, 122), (95, 95)) for c in self.ch[1:]]))

    def lstrip(self, chars=None):
        codes = WS + (28, 29, 30, 31) if chars is None else tuple(map(ord, chars))
        i = 0
        while i < len(self.ch) and CUR.branch(cin(self.ch[i], codes)):
            i += 1
        return SymStr.make(self.ch[i:])

    def rstrip(self, chars=None):
        codes = WS + (28, 29, 30, 31) if chars is None else tuple(map(ord, chars))
        i = len(self.ch)
        while i > 0 and CUR.branch(cin(self.ch[i - 1], codes)):
            i -= 1
        return SymStr.make(self.ch[:i])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def split(self, sep=None, maxsplit=-1):
        if maxsplit != -1 or (sep is not None and len(sep) != 1):
            raise Unsupported("split with arguments")
        codes = WS + (28, 29, 30, 31) if sep is None else (ord(sep),)
        out, cur = [], []
        for c in self.ch:
            if CUR.branch(cin(c, codes)):
                if cur or sep is not None:
                    out.append(SymStr.make(cur))
                cur = []
            else:
                cur.append(c)
        if cur or sep is not None:
            out.append(SymStr.make(cur))
        return out

    def replace(self, a, b, n=-1):
        if len(a) != 1 or n != -1:
            raise Unsupported("replace")
        out = []
        for c in self.ch:
            if CUR.branch(cin(c, (ord(a),))):
                out += list(map(ord, b))
            else:
                out.append(c)
        return SymStr.make(out)

    def translate(self, table):
        out = []
        for c in self.ch:
            if isinstance(c, int):
                out += list(map(ord, chr(c).translate(table)))
                continue
            for k, v in dict(table).items():
                if CUR.branch(c == k):
                    out += [] if v is None else ([v] if isinstance(v, int) else list(map(ord, v)))
                    break
            else:
                out.append(c)
        return SymStr.make(out)

    def count(self, sub):
        n = 0
        for c in self.ch:
            if CUR.branch(cin(c, (ord(sub),))):
                n += 1
        return n

    def find(self, sub):
        for i in range(len(self.ch) - len(sub) + 1):
            if CUR.branch(SymStr(self.ch[i:i + len(sub)])._eq(sub)):
                return i
        return -1

    def index(self, sub):
        i = self.find(sub)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def __add__(self, o):
        c = SymStr.chars(o)
        return NotImplemented if c is None else SymStr.make(self.ch + c)

    def __radd__(self, o):
        c = SymStr.chars(o)
        return NotImplemented if c is None else SymStr.make(c + self.ch)

    def _lt(self, o, eq):
        oc = SymStr.chars(o)
        r = eq if len(self.ch) == len(oc) else len(self.ch) < len(oc)
        for a, b in reversed(list(zip(self.ch, oc))):
            a = z3.BitVecVal(a, 8) if isinstance(a, int) else a
            b = z3.BitVecVal(b, 8) if isinstance(b, int) else b
            r = z3.Or(z3.ULT(a, b), z3.And(a == b, r))
        return mkbool(r if isinstance(r, bool) else z3.simplify(r))

    def __lt__(self, o): return self._lt(o, False)
    def __le__(self, o): return self._lt(o, True)
    def __gt__(self, o): return mkbool(neg(self._lt(o, True).c))
    def __ge__(self, o): return mkbool(neg(self._lt(o, False).c))
    def __str__(self): return "<text>"
    __repr__ = __str__
    def __format__(self, spec): return "<text>"
    def encode(self, *a): raise Unsupported("encode of a symbolic string")


class SDict(collections.abc.MutableMapping):
    """association list: keys are compared, never hashed"""
    def __init__(self, *a, **kw):
        self._k, self._v = [], []
        self.update(*a, **kw)

    def __class_getitem__(cls, k):
        return cls

    def _find(self, key):
        if isinstance(key, (list, SDict, SSet)):
            raise TypeError("unhashable type")
        for i, k in enumerate(self._k):
            if k is key or bool(k == key):
                return i
        return -1

    def __getitem__(self, k):
        i = self._find(k)
        if i < 0:
            return self.__missing__(k)
        return self._v[i]

    def __missing__(self, k):
        raise KeyError(k)

    def __setitem__(self, k, v):
        i = self._find(k)
        if i < 0:
            self._k.append(k)
            self._v.append(v)
        else:
            self._v[i] = v

    def __delitem__(self, k):
        i = self._find(k)
        if i < 0:
            raise KeyError(k)
        del self._k[i], self._v[i]

    def __iter__(self): return iter(list(self._k))
    def __reversed__(self): return reversed(list(self._k))
    def __len__(self): return len(self._k)
    def __contains__(self, k): return self._find(k) >= 0
    def keys(self): return list(self._k)
    def values(self): return list(self._v)
    def items(self): return list(zip(self._k, self._v))
    def copy(self): return type(self)(self)
    @classmethod
    def fromkeys(cls, it, v=None): return cls([(k, v) for k in it])

    def get(self, k, d=None):
        i = self._find(k)
        return d if i < 0 else self._v[i]

    def update(self, *a, **kw):
        for x in a:
            for k, v in (x.items() if hasattr(x, "items") else x):
                self[k] = v
        for k, v in kw.items():
            self[k] = v

    def __or__(self, o):
        r = SDict(self)
        r.update(o)
        return r

    def __ror__(self, o):
        r = SDict(o)
        r.update(self)
        return r

    def __repr__(self): return "{" + ", ".join(f"{k!r}: {v!r}" for k, v in self.items()) + "}"


class SOrderedDict(SDict):
    pass


class SDefaultDict(SDict):
    def __init__(self, factory=None, *a, **kw):
        self._f = factory
        super().__init__(*a, **kw)

    def __missing__(self, k):
        if self._f is None:
            raise KeyError(k)
        self[k] = v = self._f()
        return v


class SCounter(SDict):
    def __init__(self, it=()):
        super().__init__()
        for x in it:
            self[x] = self.get(x, 0) + 1

    def __missing__(self, k): return 0

    def most_common(self, n=None):
        r = sorted(self.items(), key=lambda kv: -kv[1])
        return r if n is None else r[:n]


class SSet(collections.abc.MutableSet):
    def __init__(self, it=()):
        self._d = []
        for x in it:
            self.add(x)

    def __class_getitem__(cls, k):
        return cls

    @classmethod
    def _from_iterable(cls, it): return cls(it)

    def __contains__(self, x):
        for y in self._d:
            if y is x or bool(y == x):
                return True
        return False

    def __iter__(self): return iter(list(self._d))
    def __len__(self): return len(self._d)

    def add(self, x):
        if x not in self:
            self._d.append(x)

    def discard(self, x):
        for i, y in enumerate(self._d):
            if y is x or bool(y == x):
                del self._d[i]
                return

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def union(self, *its):
        r = SSet(self)
        r.update(*its)
        return r

    def intersection(self, it): return SSet([x for x in self if x in SSet(it)])
    def difference(self, it): return SSet([x for x in self if x not in SSet(it)])
    def issubset(self, it): return all(x in SSet(it) for x in self)
    def copy(self): return SSet(self)
    def __repr__(self): return "{" + ", ".join(map(repr, self._d)) + "}"


class _StrMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, (str, SymStr))


class XStr(metaclass=_StrMeta):
    """stands for `str` in the executed modules"""
    def __new__(cls, x="", *a):
        return x if isinstance(x, SymStr) else str(x, *a) if a else str(x)
    maketrans = staticmethod(str.maketrans)
    lower = staticmethod(lambda s: s.lower())
    upper = staticmethod(lambda s: s.upper())
    isspace = staticmethod(lambda s: s.isspace())
    strip = staticmethod(lambda s: s.strip())


class _IntMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, (int, SymInt))


class XInt(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        return x if isinstance(x, SymInt) else int(x, *a)


class _DictMeta(type(SDict)):
    def __instancecheck__(cls, x): return isinstance(x, (dict, SDict))


def x_isinstance(x, cls):
    if isinstance(cls, tuple):
        return any(x_isinstance(x, c) for c in cls)
    if isinstance(cls, types.UnionType):
        return any(x_isinstance(x, c) for c in cls.__args__)
    if cls is SDict:
        return isinstance(x, (dict, SDict))
    if cls is SSet:
        return isinstance(x, (set, SSet))
    return isinstance(x, cls)


def x_type(x, *a):
    if a:
        return type(x, *a)
    if isinstance(x, (SymStr, str)) and type(x) in (SymStr, str):
        return XStr
    if type(x) in (SymInt, int):
        return XInt
    if type(x) is SymBool:
        return bool
    if type(x) in (dict, SDict):
        return SDict
    if type(x) in (set, SSet):
        return SSet
    return type(x)


def x_contains(item, cont):
    if isinstance(cont, SymStr):
        if not isinstance(item, (str, SymStr)):
            raise TypeError("in <string> requires string")
        return cont.has(item)
    if isinstance(item, SymStr) and isinstance(cont, str):
        return SymStr(map(ord, cont)).has(item)
    if isinstance(item, (SymStr, SymInt)):
        if isinstance(cont, (set, frozenset, dict)):
            cont = list(cont)
        if isinstance(cont, range) and isinstance(item, SymInt) and cont.step == 1:
            return mkbool(z3.And(item.e >= cont.start, item.e < cont.stop))
        if isinstance(cont, (list, tuple)) and all(isinstance(c, (str, int, SymStr, SymInt)) for c in cont):
            r = [c == item for c in cont]
            return mkbool(disj([x.c if isinstance(x, SymBool) else bool(x) for x in r]))
    return item in cont


def x_notin(item, cont):
    r = x_contains(item, cont)
    return mkbool(neg(r.c)) if isinstance(r, SymBool) else not r


def x_not(x):
    return mkbool(neg(x.c)) if isinstance(x, SymBool) else not x


def x_fmt(*parts):
    if any(isinstance(p, SymStr) for p in parts):
        return SymStr.make([c for p in parts for c in SymStr.chars(p)])
    return "".join(parts)


def x_fval(v, conv, spec):
    if isinstance(v, SymStr) and conv in (-1, 115) and not spec:
        return v
    if conv == 114:
        v = repr(v)
    elif conv == 115:
        v = str(v)
    elif conv == 97:
        v = ascii(v)
    return format(v, spec)


def x_meth(o, name, *a, **kw):
    if name == "join" and isinstance(o, (str, SymStr)):
        items = list(a[0])
        if any(isinstance(i, SymStr) for i in items) or isinstance(o, SymStr):
            out = []
            for k, i in enumerate(items):
                if not isinstance(i, (str, SymStr)):
                    raise TypeError("sequence item: expected str instance")
                if k:
                    out += SymStr.chars(o)
                out += SymStr.chars(i)
            return SymStr.make(out)
        return o.join(items)
    if isinstance(o, str) and any(isinstance(x, SymStr) or (isinstance(x, tuple) and any(isinstance(y, SymStr) for y in x))
                                  for x in a):
        return getattr(SymStr(map(ord, o)), name)(*a, **kw)
    return getattr(o, name)(*a, **kw)


class ReShim:
    """the few uses of re that make sense on symbolic text: single character classes"""
    import re as _re

    def __getattr__(self, n):
        f = getattr(self._re, n)
        if not callable(f):
            return f

        def g(*a, **kw):
            if any(isinstance(x, SymStr) for x in a):
                if n in ("search", "match", "fullmatch") and isinstance(a[0], str):
                    return self._match(n, a[0], a[1])
                raise Unsupported(f"re.{n} on a symbolic string")
            r = f(*a, **kw)
            return PatShim(r) if n == "compile" else r
        return g

    def _match(self, n, pat, s):
        import re as _re
        single = _re.compile(pat)
        # only patterns that match exactly one character (class or literal), optionally with +
        base = pat[:-1] if pat.endswith("+") else pat
        try:
            one = _re.compile(base)
        except _re.error:
            raise Unsupported("re pattern " + pat)
        if n == "search" and _re.fullmatch(r"\\.|\[[^\]]+\]|.", base):
            codes = [c for c in range(128) if one.fullmatch(chr(c))]
            return mkbool(disj([cin(c, codes) for c in s.ch]))
        if n == "fullmatch" and (pat.endswith("+") or pat.endswith("*")) and _re.fullmatch(r"\\.|\[[^\]]+\]", pat[:-1]):
            one = _re.compile(pat[:-1])
            codes = [c for c in range(128) if one.fullmatch(chr(c))]
            return mkbool(conj([cin(c, codes) for c in s.ch])) if s.ch else bool(single.fullmatch(""))
        raise Unsupported(f"re.{n} with pattern {pat}")


class PatShim:
    def __init__(self, p):
        self.p = p

    def __getattr__(self, n):
        f = getattr(self.p, n)
        if not callable(f):
            return f

        def g(*a, **kw):
            if any(isinstance(x, SymStr) for x in a):
                return ReShim()._match(n, self.p.pattern, a[0])
            return f(*a, **kw)
        return g


class Rewrite(ast.NodeTransformer):
    METH = {"join", "startswith", "endswith", "count", "find", "index", "replace", "strip", "lstrip", "rstrip", "split"}

    @staticmethod
    def call(fn, *args):
        return ast.Call(func=ast.Name(id=fn, ctx=ast.Load()), args=list(args), keywords=[])

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            fn = "sx__in" if isinstance(n.ops[0], ast.In) else "sx__notin"
            return ast.copy_location(self.call(fn, n.left, n.comparators[0]), n)
        return n

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            return ast.copy_location(self.call("sx__not", n.operand), n)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        pairs = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                pairs.append(ast.Starred(value=ast.Call(func=ast.Attribute(value=v, attr="items", ctx=ast.Load()), args=[],
                                                        keywords=[]), ctx=ast.Load()))
            else:
                pairs.append(ast.Tuple(elts=[k, v], ctx=ast.Load()))
        return ast.copy_location(self.call("sx__dict", ast.List(elts=pairs, ctx=ast.Load())), n)

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(self.call("sx__dict", ast.ListComp(
            elt=ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()), generators=n.generators)), n)

    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.copy_location(self.call("sx__set", ast.List(elts=n.elts, ctx=ast.Load())), n)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(self.call("sx__set", ast.ListComp(elt=n.elt, generators=n.generators)), n)

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                spec = self.visit(v.format_spec) if v.format_spec else ast.Constant("")
                parts.append(self.call("sx__fval", self.visit(v.value), ast.Constant(v.conversion), spec))
            else:
                parts.append(v)
        return ast.copy_location(self.call("sx__fmt", *parts), n)

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in self.METH and not any(isinstance(a, ast.Starred) for a in n.args):
            if not (isinstance(n.func.value, ast.Name) and n.func.value.id in ("os", "re", "sys", "path")):
                return ast.copy_location(ast.Call(func=ast.Name(id="sx__meth", ctx=ast.Load()),
                                                  args=[n.func.value, ast.Constant(n.func.attr), *n.args],
                                                  keywords=n.keywords), n)
        return n

    def _loop(self, n):
        self.generic_visit(n)
        n.body.insert(0, ast.Expr(self.call("sx__tick")))
        return n
    visit_While = _loop
    visit_For = _loop

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body.insert(0, ast.Expr(self.call("sx__tick")))
        return n


def load(path, name, package, modules):
    """compile one module of the tree for symbolic execution; modules: {name: module} for its imports"""
    import builtins
    src = open(path, encoding="utf-8").read()
    tree = ast.fix_missing_locations(Rewrite().visit(ast.parse(src, path)))
    m = types.ModuleType(name)
    m.__file__ = path
    m.__package__ = package
    coll = types.ModuleType("collections")
    coll.__dict__.update(collections.__dict__)
    coll.Counter, coll.OrderedDict, coll.defaultdict = SCounter, SOrderedDict, SDefaultDict
    coll.deque = collections.deque
    shims = {"collections": coll, "re": ReShim()}
    shims.update(modules)

    def imp(nm, g=None, l=None, fromlist=(), level=0):
        key = "." * level + nm
        if key in shims:
            return shims[key]
        if level:
            raise Unsupported("import of " + key)
        return builtins.__import__(nm, g, l, fromlist, level)
    b = dict(builtins.__dict__)
    b.update({"__import__": imp, "dict": SDict, "set": SSet, "frozenset": SSet, "str": XStr, "int": XInt,
              "isinstance": x_isinstance, "type": x_type})
    b.update(shims.get("__builtins__", {}))
    m.__dict__.update({"__builtins__": b, "sx__in": x_contains, "sx__notin": x_notin, "sx__not": x_not,
                       "sx__dict": SDict, "sx__set": SSet, "sx__fmt": x_fmt, "sx__fval": x_fval,
                       "sx__meth": x_meth, "sx__tick": tick})
    exec(compile(tree, path, "exec"), m.__dict__)
    return m


def fresh_char(name):
    c = z3.BitVec(name, 8)
    CUR.assume(z3.ULT(c, 128))
    return c


def fresh_str(name, n):
    return SymStr.make([fresh_char(f"{name}[{i}]") for i in range(n)])


def fresh_int(name):
    return SymInt(z3.Int(name))


def concrete(model, x):
    """a value of the run under a model, as plain python"""
    if isinstance(x, SymStr):
        return "".join(chr(c if isinstance(c, int) else model.eval(c, model_completion=True).as_long()) for c in x.ch)
    if isinstance(x, SymInt):
        return model.eval(x.e, model_completion=True).as_long()
    if isinstance(x, (SDict, dict)):
        return {concrete(model, k): concrete(model, v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [concrete(model, v) for v in x]
    return x
