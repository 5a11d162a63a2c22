"""Symbolic values: booleans, integers, characters/bytes, strings, amounts."""
import math
import z3
from fractions import Fraction
from .core import C

# ---------------------------------------------------------------- booleans
def b_not(a):
    if a is True:
        return False
    if a is False:
        return True
    return z3.Not(a)

def b_and(xs):
    r = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        r.append(x)
    if not r:
        return True
    if len(r) == 1:
        return r[0]
    return z3.And(*r)

def b_or(xs):
    r = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        r.append(x)
    if not r:
        return False
    if len(r) == 1:
        return r[0]
    return z3.Or(*r)

def mkbool(b):
    if b is True or b is False:
        return b
    return SBool(b)

def rawbool(x):
    """bool/SBool/other -> python bool or BoolRef (forks for truthiness)."""
    if isinstance(x, SBool):
        return x.b
    if x is True or x is False:
        return x
    return bool(x)


class Sym(object):
    """Base class of everything symbolic."""
    __slots__ = ()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce_ex__(self, proto):
        raise TypeError('symbolic value cannot be pickled')


class SBool(Sym):
    __slots__ = ('b',)
    pytype = bool

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return C.decide(self.b)

    def __eq__(self, o):
        if isinstance(o, SBool):
            return mkbool(self.b == o.b)
        if isinstance(o, bool):
            return mkbool(self.b if o else z3.Not(self.b))
        if isinstance(o, (int, SInt)):
            return self.as_int() == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkbool(b_not(rawbool(r)))

    def __hash__(self):
        return id(self)

    def __and__(self, o):
        return mkbool(b_and([self.b, rawbool(o)]))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(b_or([self.b, rawbool(o)]))
    __ror__ = __or__

    def __xor__(self, o):
        o = rawbool(o)
        if o is True:
            return mkbool(b_not(self.b))
        if o is False:
            return self
        return mkbool(z3.Xor(self.b, o))
    __rxor__ = __xor__

    def as_int(self):
        return SInt(z3.If(self.b, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)

    def __add__(self, o):
        return self.as_int() + o
    __radd__ = __add__

    def __int__(self):
        return 1 if bool(self) else 0

    def __index__(self):
        return 1 if bool(self) else 0


# ---------------------------------------------------------------- integers
def need_width(lo, hi):
    w = 1
    for v in (lo, hi):
        n = v.bit_length() + 1 if v >= 0 else (-v - 1).bit_length() + 1
        w = max(w, n)
    return w

def sx(t, w):
    s = t.size()
    if s < w:
        return z3.SignExt(w - s, t)
    if s > w:
        return z3.Extract(w - 1, 0, t)
    return t

def mkint(t, lo, hi):
    if lo == hi:
        return lo
    if z3.is_bv_value(t):
        return t.as_signed_long()
    return SInt(t, lo, hi)

def ival(x):
    """int-like -> (lo, hi)"""
    if isinstance(x, SInt):
        return x.lo, x.hi
    return int(x), int(x)

def iterm(x, w):
    if isinstance(x, SInt):
        return sx(x.t, w)
    return z3.BitVecVal(int(x), w)

def isintlike(x):
    return isinstance(x, (int, SInt, SBool))

def _norm(x):
    if isinstance(x, SBool):
        return x.as_int()
    return x


class SInt(Sym):
    """Exact (unbounded) integer: signed bit vector wide enough for [lo, hi]."""
    __slots__ = ('t', 'lo', 'hi')
    pytype = int

    def __init__(self, t, lo, hi):
        self.t = t
        self.lo = lo
        self.hi = hi

    # arithmetic
    def __add__(self, o):
        o = _norm(o)
        if isinstance(o, SFloat) or isinstance(o, float):
            return SFloat.of(self) + o
        if not isintlike(o):
            return NotImplemented
        a, b = ival(o)
        lo, hi = self.lo + a, self.hi + b
        w = need_width(lo, hi)
        return mkint(iterm(self, w) + iterm(o, w), lo, hi)
    __radd__ = __add__

    def __neg__(self):
        lo, hi = -self.hi, -self.lo
        w = need_width(lo, hi)
        return mkint(-iterm(self, w), lo, hi)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = _norm(o)
        if isinstance(o, (SFloat, float)):
            return SFloat.of(self) - o
        if not isintlike(o):
            return NotImplemented
        a, b = ival(o)
        lo, hi = self.lo - b, self.hi - a
        w = need_width(lo, hi)
        return mkint(iterm(self, w) - iterm(o, w), lo, hi)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        o = _norm(o)
        if isinstance(o, (SFloat, float)):
            return SFloat.of(self) * o
        if isinstance(o, (str, bytes, list, tuple)) or isinstance(o, SSeq):
            return o * self.__index__()
        if not isintlike(o):
            return NotImplemented
        a, b = ival(o)
        c = [self.lo * a, self.lo * b, self.hi * a, self.hi * b]
        lo, hi = min(c), max(c)
        w = need_width(lo, hi)
        return mkint(iterm(self, w) * iterm(o, w), lo, hi)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return SFloat.of(self) / o

    def __rtruediv__(self, o):
        return SFloat.of(o) / self

    def _divmod(self, d):
        d = _norm(d)
        if isinstance(d, SInt):
            d = d.__index__()
        if d == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if d < 0:
            q, r = (-self)._divmod(-d) if isinstance(-self, SInt) else divmod(-self, -d)
            return q, -r
        # floor division by positive constant, introduced as fresh q, r
        ql, qh = self.lo // d, self.hi // d
        if ql == qh:
            return ql, self - ql * d
        w = max(need_width(ql * d, qh * d + d), need_width(self.lo, self.hi)) + 1
        k = ('divmod', self.t.get_id(), d)
        hit = C.memo.get(k)
        if hit is None:
            q = C.fresh('q', w)
            r = C.fresh('r', w)
            C.solver.add(iterm(self, w) == q * z3.BitVecVal(d, w) + r)
            C.solver.add(r >= 0, r < d, q >= ql, q <= qh)
            C.model = None
            C.keep.append(self.t)
            hit = C.memo[k] = (q, r)
        q, r = hit
        return mkint(q, ql, qh), mkint(r, 0, d - 1)

    def __floordiv__(self, d):
        if isinstance(d, (SFloat, float)):
            return SFloat.of(self) // d
        return self._divmod(d)[0]

    def __mod__(self, d):
        return self._divmod(d)[1]

    def __divmod__(self, d):
        return self._divmod(d)

    def __rfloordiv__(self, o):
        return o // self.__index__()

    def __rmod__(self, o):
        return o % self.__index__()

    def __pow__(self, e, m=None):
        return pow(self.__index__(), int(e), m)

    def __rpow__(self, b):
        return b ** self.__index__()

    def __abs__(self):
        if self.lo >= 0:
            return self
        if self.hi <= 0:
            return -self
        hi = max(-self.lo, self.hi)
        w = need_width(-hi, hi)
        t = iterm(self, w)
        return mkint(z3.If(t < 0, -t, t), 0, hi)

    def _bits(self, o, f, g):
        o = _norm(o)
        if not isintlike(o):
            return NotImplemented
        a, b = ival(o)
        w = max(need_width(self.lo, self.hi), need_width(a, b))
        t = f(iterm(self, w), iterm(o, w))
        lo, hi = g(self.lo, self.hi, a, b, w)
        return mkint(t, lo, hi)

    def __and__(self, o):
        def g(l, h, a, b, w):
            if a >= 0 or l >= 0:
                return 0, min([v for v, s in ((h, l >= 0), (b, a >= 0)) if s])
            return -(1 << (w - 1)), (1 << (w - 1)) - 1
        return self._bits(o, lambda x, y: x & y, g)
    __rand__ = __and__

    def __or__(self, o):
        def g(l, h, a, b, w):
            if a >= 0 and l >= 0:
                return 0, (1 << (w - 1)) - 1
            return -(1 << (w - 1)), (1 << (w - 1)) - 1
        return self._bits(o, lambda x, y: x | y, g)
    __ror__ = __or__

    def __xor__(self, o):
        def g(l, h, a, b, w):
            if a >= 0 and l >= 0:
                return 0, (1 << (w - 1)) - 1
            return -(1 << (w - 1)), (1 << (w - 1)) - 1
        return self._bits(o, lambda x, y: x ^ y, g)
    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def __lshift__(self, n):
        return self * (1 << int(n))

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, n):
        n = int(n)
        lo, hi = self.lo >> n, self.hi >> n
        w = need_width(self.lo, self.hi)
        return mkint(iterm(self, w) >> n, lo, hi)

    def __rrshift__(self, o):
        return o >> self.__index__()

    # comparisons
    def _cmp(self, o, op):
        o = _norm(o)
        if isinstance(o, (float, SFloat)):
            return SFloat.of(self)._cmp(o, op)
        if not isintlike(o):
            return NotImplemented
        a, b = ival(o)
        if op == '==' and (self.hi < a or self.lo > b):
            return False
        if op == '<':
            if self.hi < a:
                return True
            if self.lo >= b:
                return False
        if op == '<=':
            if self.hi <= a:
                return True
            if self.lo > b:
                return False
        w = max(need_width(self.lo, self.hi), need_width(a, b))
        x, y = iterm(self, w), iterm(o, w)
        if op == '==':
            return mkbool(x == y) if not x.eq(y) else True
        if x.eq(y):
            return op == '<='
        return mkbool(x < y if op == '<' else x <= y)

    def __eq__(self, o):
        r = self._cmp(o, '==')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return mkbool(b_not(rawbool(self.__eq__(o))))

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        r = self._cmp(o, '<=')
        return r if r is NotImplemented else mkbool(b_not(rawbool(r)))

    def __ge__(self, o):
        r = self._cmp(o, '<')
        return r if r is NotImplemented else mkbool(b_not(rawbool(r)))

    def __hash__(self):
        return id(self)

    def __bool__(self):
        return bool(mkbool(b_not(rawbool(self._cmp(0, '==')))))

    def __index__(self):
        w = need_width(self.lo, self.hi)
        v = C.forkval(iterm(self, w))
        return v - (1 << w) if v >> (w - 1) else v

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self
    __floor__ = __ceil__ = __trunc__

    def bit_length(self):
        a = abs(self)
        n = 0
        while True:
            if not (a >= (1 << n)):
                return n
            n += 1

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        if isinstance(length, SInt):
            length = length.__index__()
        if length < 0:
            raise ValueError('length argument must be non-negative')
        if not signed and self.lo < 0:
            if self < 0:
                raise OverflowError("can't convert negative int to unsigned")
        if signed:
            lo, hi = -(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1
        else:
            lo, hi = 0, (1 << (8 * length)) - 1
        if length == 0:
            lo = hi = 0
        if self < lo or self > hi:
            raise OverflowError('int too big to convert')
        w = max(need_width(self.lo, self.hi), 8 * length)
        t = iterm(self, w)
        els = [byte_el(z3.Extract(8 * i + 7, 8 * i, t)) for i in range(length)]
        if byteorder == 'big':
            els.reverse()
        return mkbytes(els)

    def __str__(self):
        return str(self.__index__())

    def __repr__(self):
        return '<SInt [%d,%d]>' % (self.lo, self.hi)

    def __format__(self, spec):
        return format(self.__index__(), spec)

    @property
    def real(self):
        return self

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1


def int_from_bytes(b, byteorder='big', *, signed=False):
    b = as_sbytes(b)
    els = list(b.els)
    if byteorder == 'little':
        els.reverse()
    if not els:
        return 0
    if all(isinstance(e, int) for e in els):
        return int.from_bytes(bytes(els), 'big', signed=signed)
    ts = [z3.BitVecVal(e, 8) if isinstance(e, int) else e.t for e in els]
    t = ts[0] if len(ts) == 1 else z3.Concat(*ts)
    t = z3.simplify(t)
    n = 8 * len(els)
    if signed:
        return mkint(t, -(1 << (n - 1)), (1 << (n - 1)) - 1)
    return mkint(z3.ZeroExt(1, t), 0, (1 << n) - 1)


# ---------------------------------------------------------------- floats
EPS = Fraction(1, 2 ** 53)

class SFloat(Sym):
    """A double whose exact real value differs from num/den by at most err."""
    __slots__ = ('num', 'den', 'err')
    pytype = float

    def __init__(self, num, den=1, err=Fraction(0)):
        self.num = num
        self.den = den
        self.err = err

    @staticmethod
    def of(x):
        if isinstance(x, SFloat):
            return x
        if isinstance(x, SBool):
            x = x.as_int()
        if isinstance(x, SInt):
            lo, hi = ival(x)
            if max(-lo, hi) >= 2 ** 53:
                for b in (10 ** 15, 1 << 36, 1 << 26, 1 << 18):
                    if not C.implied(z3.And(x.t > -b, x.t < b)):
                        break
                    x = SInt(x.t, max(lo, 1 - b), min(hi, b - 1))
            r = SFloat(x, 1)
            return r._rnd()
        if isinstance(x, int):
            return SFloat(int(float(x)))
        f = Fraction(x)
        return SFloat(f.numerator, f.denominator)

    @staticmethod
    def okfloat(x):
        if isinstance(x, float) and (math.isinf(x) or math.isnan(x)):
            return False
        return isinstance(x, (float, int, SInt, SFloat, SBool))

    def mag(self):
        lo, hi = ival(self.num)
        return Fraction(max(abs(lo), abs(hi)), self.den) + self.err

    def _rnd(self):
        """accounts for rounding the current value to a double"""
        m = self.mag()
        if self.den == 1 and m < 2 ** 53 and self.err == 0:
            return self
        return SFloat(self.num, self.den, self.err + m * EPS + Fraction(1, 2 ** 1000))

    def _simplify(self):
        return self

    def __add__(self, o):
        if not SFloat.okfloat(o):
            return NotImplemented
        o = SFloat.of(o)
        if not isinstance(o.num, Sym) and o.num == 0 and o.err == 0:
            return self
        if not isinstance(self.num, Sym) and self.num == 0 and self.err == 0:
            return o
        g = math.gcd(self.den, o.den)
        den = self.den // g * o.den
        return SFloat(self.num * (den // self.den) + o.num * (den // o.den), den,
                      self.err + o.err)._rnd()
    __radd__ = __add__

    def __neg__(self):
        return SFloat(-self.num, self.den, self.err)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if not SFloat.okfloat(o):
            return NotImplemented
        return self + (-SFloat.of(o))

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if not SFloat.okfloat(o):
            return NotImplemented
        o = SFloat.of(o)
        num = self.num * o.num
        den = self.den * o.den
        err = self.err * o.mag() + o.err * self.mag() + self.err * o.err
        if not isinstance(num, Sym):
            g = math.gcd(num, den) or 1
            num, den = num // g, den // g
        else:
            # cancel constant factors such as (cents * 100) / 100
            for a, b in ((self, o), (o, self)):
                if not isinstance(b.num, Sym):
                    g = math.gcd(b.num, a.den)
                    if g > 1:
                        num = a.num * (b.num // g)
                        den = a.den // g * b.den
                        break
        return SFloat(num, den, err)._rnd()
    __rmul__ = __mul__

    def __truediv__(self, o):
        if not SFloat.okfloat(o):
            return NotImplemented
        if isinstance(o, Sym):
            if isinstance(o, SFloat):
                C.approx = True
            o = o.__float__()
        if o == 0:
            raise ZeroDivisionError('float division by zero')
        f = Fraction(o)
        r = SFloat(self.num * f.denominator if f.denominator != 1 else self.num,
                   self.den * abs(f.numerator), self.err / abs(f))
        if f < 0:
            r = -r
        return r._rnd()

    def __rtruediv__(self, o):
        return o / self.__float__()

    def __abs__(self):
        return SFloat(abs(self.num), self.den, self.err)

    # rounding -------------------------------------------------------------
    def _near(self, lo2, hi2, name):
        """fresh int r with lo2 <= 2*den*(r - exact) <= hi2, widened by err"""
        # lo2, hi2 are Fractions: bounds on r - value
        lo = lo2 - self.err
        hi = hi2 + self.err
        n = self.num
        nl, nh = ival(n)
        rl = math.floor(Fraction(nl, self.den) + lo)
        rh = math.ceil(Fraction(nh, self.den) + hi)
        if rl == rh:
            return rl
        D = self.den
        # scale by common denominator of bounds; approximate bounds outwards
        S = 2 ** 20
        L = math.floor(lo * D * S)
        H = math.ceil(hi * D * S)
        big = max(abs(rl), abs(rh)) * D * S + max(abs(nl), abs(nh)) * S + abs(L) + abs(H) + 1
        w = need_width(-big, big) + 1
        r = C.fresh(name, need_width(rl, rh) + 1)
        rw = sx(r, w)
        d = (rw * D - iterm(n, w)) * S
        C.solver.add(d >= L, d <= H, r >= rl, r <= rh)
        C.model = None
        C.approx = True
        return mkint(r, rl, rh)

    def _exact_int(self):
        """If value is within err < 1/2 of an exact integer term return it."""
        if self.den == 1:
            return self.num
        return None

    def __round__(self, n=None):
        if n is None or n == 0:
            e = self._exact_int()
            if e is not None and self.err < Fraction(1, 2):
                return e if n is None else SFloat.of(e)
            r = self._near(Fraction(-1, 2), Fraction(1, 2), 'round')
            return r if n is None else SFloat.of(r)
        if isinstance(n, int) and n > 0 and (10 ** n) % self.den == 0 \
                and self.err < Fraction(1, 2 * 10 ** n):
            # already a multiple of 10**-n: rounding gives the nearest double of it
            return SFloat(self.num, self.den, self.mag() * EPS)
        return round(self.__float__(), n)

    def _floor(self):
        e = self._exact_int()
        if e is not None and self.err == 0:
            return e
        if e is not None:
            return self._near(Fraction(-1), Fraction(0), 'floor')
        if self.err == 0 and isinstance(self.num, SInt):
            return self.num // self.den
        return self._near(Fraction(-1), Fraction(0), 'floor')

    def __floor__(self):
        return self._floor()

    def __ceil__(self):
        return -((-self)._floor())

    def __trunc__(self):
        e = self._exact_int()
        if e is not None and self.err == 0:
            return e
        if self >= 0:
            return self._floor()
        return -((-self)._floor())

    to_int = __trunc__

    def __floordiv__(self, o):
        return SFloat.of((self / o)._floor())

    def __float__(self):
        if isinstance(self.num, Sym):
            C.approx = True
            n = self.num.__index__()
        else:
            n = self.num
        return n / self.den

    def __int__(self):
        return int(self.__float__())

    def is_integer(self):
        if self._exact_int() is not None and self.err == 0:
            return True
        return self.__float__().is_integer()

    # comparison -----------------------------------------------------------
    def _cmp(self, o, op):
        if isinstance(o, float) and math.isinf(o):
            if op == '==':
                return False
            return o > 0
        if isinstance(o, float) and math.isnan(o):
            return False
        if not SFloat.okfloat(o):
            return NotImplemented
        o = SFloat.of(o)
        den = self.den * o.den // math.gcd(self.den, o.den)
        a = self.num * (den // self.den)
        b = o.num * (den // o.den)
        err = self.err + o.err
        # both results of a single correctly rounded conversion of a decimal
        # compare exactly like the decimals (monotone, injective below 2**53)
        d = a - b
        single = lambda x: x.err <= x.mag() * EPS * 2
        if err == 0 or (single(self) and single(o) and
                        Fraction(1, den) > 4 * err):
            if op == '==':
                return d == 0
            return d < 0 if op == '<' else d <= 0
        E = math.floor(err * den)
        lo, hi = ival(d)
        if op == '==':
            if lo > E or hi < -E:
                return False
            amb = (d >= -E) & (d <= E) if isinstance(d, Sym) else (-E <= d <= E)
            if E == 0:
                amb = d == 0
            if not bool(amb):
                return False
        else:
            if hi < -E:
                return True
            if lo > E:
                return False
            if bool(d < -E):
                return True
            if bool(d > E):
                return False
        C.approx = True
        return mkbool(C.fresh('fcmp', 1) == 1)

    def __eq__(self, o):
        r = self._cmp(o, '==')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return mkbool(b_not(rawbool(self.__eq__(o))))

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        r = self._cmp(o, '<=')
        return r if r is NotImplemented else mkbool(b_not(rawbool(r)))

    def __ge__(self, o):
        r = self._cmp(o, '<')
        return r if r is NotImplemented else mkbool(b_not(rawbool(r)))

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return id(self)

    def __str__(self):
        return str(self.__float__())

    def __repr__(self):
        return '<SFloat>'

    def __format__(self, spec):
        return format(self.__float__(), spec)


# ---------------------------------------------------------------- elements
class El(object):
    """One symbolic character (w=21) or byte (w=8)."""
    __slots__ = ('_t', 'w', 'dom', 'prov', 'link')

    def __init__(self, t, w, dom, prov=None, link=None):
        self._t = t
        self.w = w
        self.dom = dom
        self.prov = prov        # (alphabet, sextet/quintet/nibble term)
        self.link = link        # the same thing as byte/char

    @property
    def t(self):
        if self._t is None:
            alpha, s = self.prov
            self._t = alpha_term(alpha, s, self.w)
        return self._t


_eltab = {}     # z3 id of an 8 bit term -> El (restores domain after re-assembly)

def byte_el(t):
    t = z3.simplify(t)
    if z3.is_bv_value(t):
        return t.as_long()
    e = _eltab.get(t.get_id())
    if e is not None:
        return e
    e = El(t, 8, None)
    reg_el(e)
    return e

def reg_el(e):
    # terms are normalised, otherwise the re-assembled term has another id
    t = z3.simplify(e.t)
    e._t = t
    C.keep.append(t)
    _eltab[t.get_id()] = e

def domset(e):
    if e.dom is None:
        return _ALLB
    return e.dom
_ALLB = frozenset(range(256))

_AT = {}
def alpha_term(alpha, s, w):
    """character for index term s in alphabet string alpha"""
    runs = []
    for i, ch in enumerate(alpha):
        d = ord(ch) - i
        if runs and runs[-1][1] == d:
            runs[-1][2] = i
        else:
            runs.append([i, d, i])
    sw = z3.ZeroExt(w - s.size(), s)
    t = sw + z3.BitVecVal(runs[-1][1], w)
    for a, d, b in reversed(runs[:-1]):
        t = z3.If(z3.ULE(s, b), sw + z3.BitVecVal(d, w), t)
    return t

def member_raw(e, S):
    """is element in set S (frozenset of code points)?  bool or BoolRef"""
    if isinstance(e, int):
        return e in S
    d = domset(e)
    inter = d & S
    if not inter:
        return False
    if len(inter) == len(d):
        return True
    k = ('mem', id(e), inter)
    r = C.memo.get(k)
    if r is not None:
        return r[0]
    neg = len(inter) > len(d) - len(inter)
    target = sorted(d - inter if neg else inter)
    if e.prov is not None:
        alpha, s = e.prov
        idx = [alpha.index(chr(c)) for c in target]
        r = _ranges(s, sorted(idx))
    else:
        r = _ranges(e.t, target)
    if neg:
        r = z3.Not(r)
    C.memo[k] = (r, e)
    return r

def _ranges(t, vals):
    runs = []
    for v in vals:
        if runs and runs[-1][1] == v - 1:
            runs[-1][1] = v
        else:
            runs.append([v, v])
    cs = []
    for a, b in runs:
        if a == b:
            cs.append(t == a)
        else:
            cs.append(z3.And(z3.UGE(t, a), z3.ULE(t, b)))
    return cs[0] if len(cs) == 1 else z3.Or(*cs)

def eq_el(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return a == b
        a, b = b, a
    if isinstance(b, int):
        return member_raw(a, frozenset((b,)))
    if a is b:
        return True
    da, db = domset(a), domset(b)
    if da.isdisjoint(db):
        return False
    if a.prov is not None and b.prov is not None and a.prov[0] == b.prov[0]:
        x, y = a.prov[1], b.prov[1]
        if x.eq(y):
            return True
        return x == y
    if a.t.eq(b.t):
        return True
    return a.t == b.t

def lt_el(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    if a is b:
        return False
    if isinstance(a, int):
        return member_raw(b, frozenset(c for c in domset(b) if c > a))
    if isinstance(b, int):
        return member_raw(a, frozenset(c for c in domset(a) if c < b))
    return z3.ULT(a.t, b.t)

def narrowed(e, S):
    """element known (on this path) to be inside S"""
    if isinstance(e, int):
        return e
    d = domset(e) & S
    if len(d) == len(domset(e)):
        return e
    if len(d) == 1:
        return next(iter(d))
    n = El(e._t, e.w, d, e.prov, None)
    return n

def el_int(e):
    """numeric value of a byte element as int/SInt"""
    if isinstance(e, int):
        return e
    d = domset(e)
    return mkint(z3.ZeroExt(1, e.t), min(d), max(d))


# ---------------------------------------------------------------- memo
# Results of pure operations on the same elements. An entry holds on every
# continuation of the path it was made on, and processes only ever continue
# (fork) paths.
_memo = {}

def memo(kind, els, fn):
    key = (kind, tuple([e if isinstance(e, int) else -1 - id(e) for e in els]))
    h = _memo.get(key)
    if h is None:
        r = fn()
        _memo[key] = (r, list(els))
        return r
    return h[0]


# ---------------------------------------------------------------- sequences
class SSeq(Sym):
    __slots__ = ('els',)

    def __init__(self, els):
        self.els = els

    # subclass hooks: _wrap(els) _lift(x)->list of els or None
    def __len__(self):
        return len(self.els)

    def __bool__(self):
        return len(self.els) > 0

    def __hash__(self):
        return id(self)

    def concrete(self):
        return all(isinstance(e, int) for e in self.els)

    def _other(self, o):
        r = self._lift(o)
        if r is None:
            raise TypeError('expected %s, got %s' % (self.pytype.__name__, type(o).__name__))
        return r

    def eqraw(self, o):
        r = self._lift(o)
        if r is None:
            return False
        a = self.els
        if len(a) != len(r):
            return False
        if a is r:
            return True
        out = []
        for x, y in zip(a, r):
            c = eq_el(x, y)
            if c is False:
                return False
            if c is not True:
                out.append(c)
        return b_and(out)

    def __eq__(self, o):
        return mkbool(self.eqraw(o))

    def __ne__(self, o):
        return mkbool(b_not(self.eqraw(o)))

    def _ltraw(self, o, orequal):
        a, b = self.els, self._other(o)
        n = min(len(a), len(b))
        if len(a) == len(b):
            res = orequal
        else:
            res = len(a) < len(b)
        for i in range(n - 1, -1, -1):
            lt = lt_el(a[i], b[i])
            eq = eq_el(a[i], b[i])
            res = b_or([lt, b_and([eq, res])])
        return res

    def __lt__(self, o):
        if self._lift(o) is None:
            return NotImplemented
        return mkbool(self._ltraw(o, False))

    def __le__(self, o):
        if self._lift(o) is None:
            return NotImplemented
        return mkbool(self._ltraw(o, True))

    def __gt__(self, o):
        if self._lift(o) is None:
            return NotImplemented
        return mkbool(b_not(self._ltraw(o, True)))

    def __ge__(self, o):
        if self._lift(o) is None:
            return NotImplemented
        return mkbool(b_not(self._ltraw(o, False)))

    def __add__(self, o):
        r = self._lift(o)
        if r is None:
            return NotImplemented
        return self._wrap(self.els + r)

    def __radd__(self, o):
        r = self._lift(o)
        if r is None:
            return NotImplemented
        return self._wrap(r + self.els)

    def __mul__(self, n):
        return self._wrap(self.els * int(n))
    __rmul__ = __mul__

    def __getitem__(self, i):
        if isinstance(i, slice):
            f = lambda x: x if x is None else x.__index__()
            return self._wrap(self.els[slice(f(i.start), f(i.stop), f(i.step))])
        return self._item(self.els[i.__index__()])

    def __iter__(self):
        for e in self.els:
            yield self._item(e)

    def _matchat(self, sub, i):
        return b_and([eq_el(x, y) for x, y in zip(self.els[i:i + len(sub)], sub)])

    def __contains__(self, o):
        return C.decide(self.containsraw(o))

    def containsraw(self, o):
        sub = self._other1(o)
        n = len(sub)
        return b_or([self._matchat(sub, i) for i in range(len(self.els) - n + 1)])

    def _other1(self, o):
        if isintlike(o) and self.pytype is bytes:
            return [o if isinstance(o, int) else byte_el(sx(o.t, 8))]
        return self._other(o)

    def startswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return mkbool(b_or([rawbool(self.startswith(x, start, end)) for x in p]))
        s = self.els[start:end]
        sub = self._other(p)
        if len(sub) > len(s):
            return False
        return mkbool(b_and([eq_el(x, y) for x, y in zip(s, sub)]))

    def endswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return mkbool(b_or([rawbool(self.endswith(x, start, end)) for x in p]))
        s = self.els[start:end]
        sub = self._other(p)
        if len(sub) > len(s):
            return False
        if not sub:
            return True
        return mkbool(b_and([eq_el(x, y) for x, y in zip(s[-len(sub):], sub)]))

    def _rng(self, start, end):
        n = len(self.els)
        a, b, _s = slice(start, end).indices(n)
        return a, b

    def find(self, o, start=None, end=None):
        sub = self._other1(o)
        a, b = self._rng(start, end)
        for i in range(a, b - len(sub) + 1):
            if C.decide(self._matchat(sub, i)):
                return i
        return -1

    def rfind(self, o, start=None, end=None):
        sub = self._other1(o)
        a, b = self._rng(start, end)
        for i in range(b - len(sub), a - 1, -1):
            if C.decide(self._matchat(sub, i)):
                return i
        return -1

    def index(self, o, start=None, end=None):
        r = self.find(o, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, o, start=None, end=None):
        r = self.rfind(o, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, o, start=None, end=None):
        sub = self._other1(o)
        a, b = self._rng(start, end)
        if not sub:
            return b - a + 1
        n = 0
        i = a
        while i <= b - len(sub):
            if C.decide(self._matchat(sub, i)):
                n += 1
                i += len(sub)
            else:
                i += 1
        return n

    def _wsset(self):
        raise NotImplementedError

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            out = []
            cur = []
            ws = self._wsset()
            els = self.els
            i = 0
            while i < len(els):
                if C.decide(member_raw(els[i], ws)):
                    if cur:
                        out.append(self._wrap(cur))
                        cur = []
                        if maxsplit >= 0 and len(out) >= maxsplit:
                            rest = self._wrap(els[i:]).lstrip()
                            if len(rest):
                                out.append(rest)
                            return out
                else:
                    cur.append(els[i])
                i += 1
            if cur:
                out.append(self._wrap(cur))
            return out
        sub = self._other(sep)
        if not sub:
            raise ValueError('empty separator')
        out = []
        i = last = 0
        n = len(self.els)
        while i <= n - len(sub):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if C.decide(self._matchat(sub, i)):
                out.append(self._wrap(self.els[last:i]))
                i += len(sub)
                last = i
            else:
                i += 1
        out.append(self._wrap(self.els[last:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            if maxsplit < 0:
                return self.split()
            r = self._wrap(self.els[::-1]).split(None, maxsplit)
            return [self._wrap(as_els(x, self.pytype)[::-1]) for x in r][::-1]
        sub = self._other(sep)
        if not sub:
            raise ValueError('empty separator')
        out = []
        end = len(self.els)
        i = end - len(sub)
        while i >= 0:
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if C.decide(self._matchat(sub, i)):
                out.append(self._wrap(self.els[i + len(sub):end]))
                end = i
                i -= len(sub)
            else:
                i -= 1
        out.append(self._wrap(self.els[:end]))
        out.reverse()
        return out

    def partition(self, sep):
        r = self.split(sep, 1)
        if len(r) == 1:
            return (self._wrap(self.els), self._wrap([]), self._wrap([]))
        return (r[0], sep, r[1])

    def rpartition(self, sep):
        r = self.rsplit(sep, 1)
        if len(r) == 1:
            return (self._wrap([]), self._wrap([]), self._wrap(self.els))
        return (r[0], sep, r[1])

    def replace(self, old, new, count=-1):
        o = self._other(old)
        n = self._other(new)
        if not o:
            if count == 0:
                return self._wrap(self.els)
            out = list(n)
            k = 1
            for e in self.els:
                out.append(e)
                if count < 0 or k < count:
                    out.extend(n)
                    k += 1
            return self._wrap(out)
        if len(o) == 1 and len(n) == 1 and count < 0 and isinstance(o[0], int) \
                and isinstance(n[0], int):
            # one to one: no forking
            out = []
            for e in self.els:
                c = eq_el(e, o[0])
                if c is True:
                    out.append(n[0])
                elif c is False:
                    out.append(e)
                else:
                    d = (domset(e) - {o[0]}) | {n[0]}
                    out.append(El(z3.If(c, z3.BitVecVal(n[0], e.w), e.t), e.w,
                                  frozenset(d)))
            return self._wrap(out)
        parts = self.split(old, count)
        out = []
        for i, p in enumerate(parts):
            if i:
                out.extend(n)
            out.extend(as_els(p, self.pytype))
        return self._wrap(out)

    def join(self, it):
        out = []
        first = True
        for x in it:
            r = self._lift(x)
            if r is None:
                raise TypeError('sequence item: expected %s instance, %s found' % (
                    self.pytype.__name__, type(x).__name__))
            if not first:
                out.extend(self.els)
            out.extend(r)
            first = False
        return self._wrap(out)

    def _stripset(self, chars):
        if chars is None:
            return self._wsset()
        els = self._other(chars)
        if not all(isinstance(e, int) for e in els):
            els = [e if isinstance(e, int) else C.forkval(e.t) for e in els]
        return frozenset(els)

    def lstrip(self, chars=None):
        S = self._stripset(chars)
        i = 0
        while i < len(self.els) and C.decide(member_raw(self.els[i], S)):
            i += 1
        return self._wrap(self.els[i:])

    def rstrip(self, chars=None):
        S = self._stripset(chars)
        i = len(self.els)
        while i > 0 and C.decide(member_raw(self.els[i - 1], S)):
            i -= 1
        return self._wrap(self.els[:i])

    def strip(self, chars=None):
        x = self.lstrip(chars)
        return self._wrap(as_els(x, self.pytype)).rstrip(chars) if not isinstance(x, (str, bytes)) \
            else x.rstrip(chars if not isinstance(chars, Sym) else None)

    def removeprefix(self, p):
        if self.startswith(p):
            return self._wrap(self.els[len(p):])
        return self._wrap(self.els)

    def removesuffix(self, p):
        if len(p) and self.endswith(p):
            return self._wrap(self.els[:-len(p)])
        return self._wrap(self.els)

    def _all(self, pred):
        if not self.els:
            return False
        return mkbool(b_and([member_raw(e, predset(e, pred)) for e in self.els]))

    def zfill(self, w):
        n = w - len(self.els)
        if n <= 0:
            return self._wrap(self.els)
        if self.els and C.decide(member_raw(self.els[0], frozenset((43, 45)))):
            return self._wrap([self.els[0]] + [48] * n + self.els[1:])
        return self._wrap([48] * n + self.els)

    def _fill(self, f):
        if f is None:
            return [32]
        return self._other(f)

    def ljust(self, w, f=None):
        return self._wrap(self.els + self._fill(f) * max(0, w - len(self.els)))

    def rjust(self, w, f=None):
        return self._wrap(self._fill(f) * max(0, w - len(self.els)) + self.els)

    def model_value(self, m):
        r = []
        for e in self.els:
            if isinstance(e, int):
                r.append(e)
            elif e._t is None:
                alpha, s = e.prov
                r.append(ord(alpha[m.eval(s, model_completion=True).as_long()]))
            else:
                r.append(m.eval(e.t, model_completion=True).as_long())
        return r

_predcache = {}
def predset(e, pred):
    """subset of e's domain satisfying string predicate name/func"""
    if isinstance(e, int):
        d = frozenset((e,))
    else:
        d = domset(e)
    k = (pred, d)
    r = _predcache.get(k)
    if r is None:
        f = (lambda c: getattr(chr(c), pred)()) if isinstance(pred, str) else pred
        r = _predcache[k] = frozenset(c for c in d if f(c))
    return r


def as_els(x, ty):
    if isinstance(x, SSeq):
        return x.els
    if ty is str:
        return [ord(c) for c in x]
    return list(x)

WS = frozenset(i for i in range(0x3001) if chr(i).isspace())
WSB = frozenset(b' \t\n\r\x0b\x0c')


class SStr(SSeq):
    __slots__ = ()
    pytype = str

    def _wrap(self, els):
        return mkstr(els)

    def _lift(self, o):
        if isinstance(o, SStr):
            return o.els
        if isinstance(o, str):
            return [ord(c) for c in o]
        return None

    def _item(self, e):
        return mkstr([e])

    def _wsset(self):
        return WS

    def _bytepred(self):
        return chr

    for _n in ('isdigit', 'isalpha', 'isalnum', 'isdecimal', 'isnumeric', 'isspace',
               'isascii', 'isprintable'):
        exec("def %s(self):\n    return self._all('%s')\n" % (_n, _n))

    def isascii(self):
        if not self.els:
            return True
        return self._all('isascii')

    def isprintable(self):
        if not self.els:
            return True
        return self._all('isprintable')

    def _case(self, isx, other):
        lo = b_or([member_raw(e, predset(e, isx)) for e in self.els])
        no = b_and([b_not(member_raw(e, predset(e, lambda c: other(c)))) for e in self.els])
        return mkbool(b_and([lo, no]))

    def isupper(self):
        return self._case('isupper', lambda c: chr(c).islower() or chr(c).istitle() and not chr(c).isupper())

    def islower(self):
        return self._case('islower', lambda c: chr(c).isupper() or chr(c).istitle() and not chr(c).islower())

    def _map(self, name):
        out = []
        for e in self.els:
            if isinstance(e, int):
                out.extend(ord(c) for c in getattr(chr(e), name)())
                continue
            groups = {}
            multi = []
            for c in domset(e):
                r = getattr(chr(c), name)()
                if len(r) != 1 or name == 'lower' and c == 0x3a3:
                    multi.append(c)
                else:
                    groups.setdefault(ord(r) - c, []).append(c)
            for c in multi:
                if C.decide(member_raw(e, frozenset((c,)))):
                    out.extend(ord(x) for x in getattr(chr(c), name)())
                    break
            else:
                e2 = narrowed(e, domset(e) - frozenset(multi))
                if isinstance(e2, int):
                    out.append(ord(getattr(chr(e2), name)()))
                    continue
                if list(groups) == [0]:
                    out.append(e2)
                    continue
                gs = sorted(groups.items(), key=lambda g: len(g[1]))
                big = gs[-1]
                t = e2.t + z3.BitVecVal(big[0], e2.w)
                for d, cs in gs[:-1]:
                    t = z3.If(member_raw(e2, frozenset(cs)), e2.t + z3.BitVecVal(d, e2.w), t)
                out.append(El(t, e2.w, frozenset(c + d for d, cs in gs for c in cs)))
        return mkstr(out)

    def lower(self):
        return self._map('lower')

    def upper(self):
        return self._map('upper')

    def casefold(self):
        return self._map('casefold')

    def swapcase(self):
        return self._map('swapcase')

    def splitlines(self, keepends=False):
        LB = frozenset(map(ord, '\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029'))
        out = []
        cur = []
        els = self.els
        i = 0
        while i < len(els):
            e = els[i]
            if C.decide(member_raw(e, LB)):
                end = [e]
                if C.decide(eq_el(e, 13)) and i + 1 < len(els) and C.decide(eq_el(els[i + 1], 10)):
                    end.append(els[i + 1])
                    i += 1
                out.append(mkstr(cur + (end if keepends else [])))
                cur = []
            else:
                cur.append(e)
            i += 1
        if cur:
            out.append(mkstr(cur))
        return out

    def encode(self, encoding='utf-8', errors='strict'):
        enc = str(encoding).lower().replace('_', '-')
        if enc not in ('utf-8', 'utf8', 'ascii', 'us-ascii', 'latin-1', 'iso-8859-1') or errors != 'strict':
            raise Concretise('encode')
        return memo(('enc', enc), self.els, lambda: self._encode(encoding, enc))

    def _encode(self, encoding, enc):
        out = []
        for i, e in enumerate(self.els):
            if isinstance(e, int):
                try:
                    out.extend(chr(e).encode(encoding))
                except UnicodeEncodeError as x:
                    raise UnicodeEncodeError(x.encoding, '?' * len(self.els), i, i + 1, x.reason)
                continue
            d = domset(e)
            lim = 0x80
            if enc in ('latin-1', 'iso-8859-1'):
                lim = 0x100
            if max(d) < lim or C.decide(member_raw(e, frozenset(c for c in d if c < lim))):
                out.append(char2byte(narrowed(e, frozenset(range(lim))), 0))
                continue
            if enc not in ('utf-8', 'utf8'):
                raise UnicodeEncodeError(enc, '?' * len(self.els), i, i + 1, 'ordinal not in range')
            if C.decide(member_raw(e, frozenset(c for c in d if 0xd800 <= c <= 0xdfff))):
                raise UnicodeEncodeError('utf-8', '?' * len(self.els), i, i + 1, 'surrogates not allowed')
            rest = [c for c in d if c >= 0x80 and not 0xd800 <= c <= 0xdfff]
            t = z3.ZeroExt(3, e.t)      # 24 bits
            X = lambda hi, lo: z3.Extract(hi, lo, t)
            if C.decide(member_raw(e, frozenset(c for c in rest if c < 0x800))):
                bs = [z3.Concat(z3.BitVecVal(6, 3), X(10, 6)), z3.Concat(z3.BitVecVal(2, 2), X(5, 0))]
                n = 2
                sub = [c for c in rest if c < 0x800]
            elif C.decide(member_raw(e, frozenset(c for c in rest if c < 0x10000))):
                bs = [z3.Concat(z3.BitVecVal(14, 4), X(15, 12)), z3.Concat(z3.BitVecVal(2, 2), X(11, 6)),
                      z3.Concat(z3.BitVecVal(2, 2), X(5, 0))]
                n = 3
                sub = [c for c in rest if 0x800 <= c < 0x10000]
            else:
                bs = [z3.Concat(z3.BitVecVal(30, 5), X(20, 18)), z3.Concat(z3.BitVecVal(2, 2), X(17, 12)),
                      z3.Concat(z3.BitVecVal(2, 2), X(11, 6)), z3.Concat(z3.BitVecVal(2, 2), X(5, 0))]
                n = 4
                sub = [c for c in rest if c >= 0x10000]
            e2 = narrowed(e, frozenset(sub))
            if isinstance(e2, int):
                out.extend(chr(e2).encode('utf-8'))
                continue
            enc8 = [chr(c).encode('utf-8') for c in sub]
            for j in range(n):
                b = El(z3.simplify(bs[j]), 8, frozenset(x[j] for x in enc8))
                if len(b.dom) == 1:
                    out.append(next(iter(b.dom)))
                    continue
                b.link = (e2, j, n)
                reg_el(b)
                out.append(b)
        return mkbytes(out)

    def format(self, *a, **k):
        from . import ops
        return ops.str_format(self, a, k)

    def __mod__(self, a):
        raise Concretise('symbolic format string')

    def __str__(self):
        return self.placeholder()

    def placeholder(self):
        from . import ops
        return ops.placeholder(self)

    def __repr__(self):
        return '<SStr %d>' % len(self.els)

    def __format__(self, spec):
        return self.placeholder()


class Concretise(Exception):
    """operation not modelled: the caller concretises the operands"""


def mkstr(els):
    for e in els:
        if not isinstance(e, int):
            return SStr(list(els))
    return ''.join(map(chr, els))

def mkbytes(els):
    for e in els:
        if not isinstance(e, int):
            return SBytes(list(els))
    return bytes(els)

def as_sstr(x):
    if isinstance(x, SStr):
        return x
    return SStr([ord(c) for c in x])

def as_sbytes(x):
    if isinstance(x, SBytes):
        return x
    return SBytes(list(x))

def char2byte(e, _off):
    if isinstance(e, int):
        return e
    if isinstance(e.link, El):
        return e.link
    if e.prov is not None:
        b = El(None, 8, e.dom, e.prov, e)
    else:
        b = El(z3.simplify(z3.Extract(7, 0, e.t)), 8, e.dom, None, e)
        reg_el(b)
    e.link = b
    return b

def byte2char(b):
    if isinstance(b, int):
        return b
    if isinstance(b.link, El):
        return b.link
    if b.prov is not None:
        e = El(None, 21, b.dom, b.prov, b)
    else:
        e = El(z3.ZeroExt(13, b.t), 21, domset(b), None, b)
    b.link = e
    return e


class SBytes(SSeq):
    __slots__ = ()
    pytype = bytes

    def _wrap(self, els):
        return mkbytes(els)

    def _lift(self, o):
        if isinstance(o, SBytes):
            return o.els
        if isinstance(o, (bytes, bytearray)):
            return list(o)
        return None

    def _item(self, e):
        return el_int(e)

    def _wsset(self):
        return WSB

    def decode(self, encoding='utf-8', errors='strict'):
        enc = str(encoding).lower().replace('_', '-')
        if enc not in ('utf-8', 'utf8', 'ascii', 'us-ascii', 'latin-1', 'iso-8859-1') or errors != 'strict':
            raise Concretise('decode')
        return memo(('dec', enc), self.els, lambda: self._decode(enc))

    def _decode(self, enc):
        els = self.els
        out = []
        i = 0
        n = len(els)
        def err(i, why='invalid byte'):
            return UnicodeDecodeError(enc, b'?' * n, i, i + 1, why)
        if enc in ('latin-1', 'iso-8859-1'):
            return mkstr([byte2char(e) for e in els])
        while i < n:
            e = els[i]
            if isinstance(e, El) and isinstance(e.link, tuple):
                ch, j, k = e.link
                if j == 0 and all(isinstance(x, int) or isinstance(x.link, tuple) and x.link[0] is ch
                                  for x in els[i:i + k]) and len(els[i:i + k]) == k:
                    if enc in ('ascii', 'us-ascii'):
                        raise err(i)
                    out.append(ch)
                    i += k
                    continue
            if C.decide(member_raw(e, frozenset(range(0x80)))):
                out.append(byte2char(narrowed(e, frozenset(range(0x80)))))
                i += 1
                continue
            if enc in ('ascii', 'us-ascii'):
                raise err(i)
            # multi byte sequence: value by value domain of the lead byte
            def cont(k, lo=0x80, hi=0xbf):
                if i + k >= n:
                    raise err(i, 'unexpected end of data')
                if not C.decide(member_raw(els[i + k], frozenset(range(lo, hi + 1)))):
                    raise err(i, 'invalid continuation byte')
                return els[i + k]
            T = lambda x: z3.BitVecVal(x, 8) if isinstance(x, int) else x.t
            in_ = lambda a, b: C.decide(member_raw(e, frozenset(range(a, b + 1))))
            if in_(0xc2, 0xdf):
                b1 = cont(1)
                t = z3.Concat(z3.BitVecVal(0, 10), z3.Extract(4, 0, T(e)), z3.Extract(5, 0, T(b1)))
                k = 2
            elif in_(0xe0, 0xef):
                if C.decide(eq_el(e, 0xe0)):
                    b1 = cont(1, 0xa0)
                elif C.decide(eq_el(e, 0xed)):
                    b1 = cont(1, 0x80, 0x9f)
                else:
                    b1 = cont(1)
                b2 = cont(2)
                t = z3.Concat(z3.BitVecVal(0, 5), z3.Extract(3, 0, T(e)), z3.Extract(5, 0, T(b1)), z3.Extract(5, 0, T(b2)))
                k = 3
            elif in_(0xf0, 0xf4):
                if C.decide(eq_el(e, 0xf0)):
                    b1 = cont(1, 0x90)
                elif C.decide(eq_el(e, 0xf4)):
                    b1 = cont(1, 0x80, 0x8f)
                else:
                    b1 = cont(1)
                b2 = cont(2)
                b3 = cont(3)
                t = z3.Concat(z3.Extract(2, 0, T(e)), z3.Extract(5, 0, T(b1)), z3.Extract(5, 0, T(b2)), z3.Extract(5, 0, T(b3)))
                k = 4
            else:
                raise err(i, 'invalid start byte')
            t = z3.simplify(t)
            if z3.is_bv_value(t):
                out.append(t.as_long())
            else:
                if k == 2:
                    dom = frozenset(range(0x80, 0x800))
                elif k == 3:
                    dom = _BMP3
                else:
                    # too many values for a domain: concrete from here
                    dom = frozenset((C.pin(t, 'utf8-4byte'),))
                if len(dom) == 1:
                    out.append(next(iter(dom)))
                else:
                    out.append(El(t, 21, dom))
            i += k
        return mkstr(out)

    def hex(self):
        out = []
        for e in self.els:
            if isinstance(e, int):
                out.extend(ord(c) for c in '%02x' % e)
            else:
                out.append(hexdigit(z3.Extract(7, 4, e.t)))
                out.append(hexdigit(z3.Extract(3, 0, e.t)))
        return mkstr(out)

    def model_bytes(self, m):
        return bytes(self.model_value(m))

    def __str__(self):
        return repr(self)

    def __repr__(self):
        return '<SBytes %d>' % len(self.els)

    def __bytes__(self):
        raise Concretise('bytes()')

    def __mod__(self, a):
        raise Concretise('bytes format')

    def lower(self):
        raise Concretise('bytes.lower')

    def upper(self):
        raise Concretise('bytes.upper')

_BMP3 = frozenset(c for c in range(0x800, 0x10000) if not 0xd800 <= c <= 0xdfff)

HEX = '0123456789abcdef'
HEXU = '0123456789ABCDEF'
def hexdigit(n, alpha=HEX):
    n = z3.simplify(n)
    if z3.is_bv_value(n):
        return ord(alpha[n.as_long()])
    return El(None, 21, frozenset(map(ord, alpha)), (alpha, n))


# ---------------------------------------------------------------- conversions
_digval = {}
def digit_value(c, base):
    k = (c, base)
    if k not in _digval:
        try:
            if chr(c) == '_':
                raise ValueError
            _digval[k] = int(chr(c), base)
        except ValueError:
            _digval[k] = None
    return _digval[k]

def digit_term(e, base):
    """value of a digit element (already known to be a digit) as int/SInt"""
    if isinstance(e, int):
        return digit_value(e, base)
    if e.prov is not None and e.prov[0] in (HEX, HEXU) and base == 16:
        n = e.prov[1]
        return mkint(z3.ZeroExt(1, n), 0, 15)
    if e.prov is not None and e.prov[0] == '0123456789':
        n = e.prov[1]
        return mkint(z3.ZeroExt(1, n), 0, 9)
    d = domset(e)
    groups = {}
    for c in d:
        v = digit_value(c, base)
        if v is None:
            continue
        groups.setdefault(c - v, []).append(c)
    gs = sorted(groups.items(), key=lambda g: -len(g[1]))
    T = z3.ZeroExt(1, e.t)
    w = T.size()
    t = T - z3.BitVecVal(gs[0][0], w)
    for off, cs in gs[1:]:
        t = z3.If(member_raw(e, frozenset(cs)), T - z3.BitVecVal(off, w), t)
    vals = [digit_value(c, base) for cs in groups.values() for c in cs]
    hi = max(vals)
    return mkint(z3.Extract(need_width(0, hi) - 1, 0, t), min(vals), hi)

def str_to_int(s, base=10):
    """int(s, base) for SStr/SBytes, exact python semantics"""
    if isinstance(s, SBytes):
        s = SStr([byte2char(e) for e in s.els])
    err = lambda: ValueError('invalid literal for int() with base %d' % base)
    x = s.strip()
    els = as_els(x, str)
    if not els:
        raise err()
    neg = False
    if C.decide(member_raw(els[0], frozenset((43, 45)))):
        neg = C.decide(eq_el(els[0], 45))
        els = els[1:]
    pref = {16: 'xX', 8: 'oO', 2: 'bB'}.get(base)
    if base == 0:
        raise Concretise('int base 0')
    hadprefix = False
    if pref and len(els) >= 2 and C.decide(eq_el(els[0], 48)) and \
            C.decide(member_raw(els[1], frozenset(map(ord, pref)))):
        els = els[2:]
        hadprefix = True
        if els and C.decide(eq_el(els[0], 95)):
            els = els[1:]
    if not els:
        raise err()
    val = 0
    prevund = True
    for i, e in enumerate(els):
        if C.decide(eq_el(e, 95)):
            if prevund:
                raise err()
            prevund = True
            continue
        prevund = False
        D = predset(e, _isdig(base))
        if not C.decide(member_raw(e, D)):
            raise err()
        val = val * base + digit_term(narrowed(e, D), base)
    if prevund:
        raise err()
    return -val if neg else val

_isdigs = {}
def _isdig(base):
    f = _isdigs.get(base)
    if f is None:
        f = _isdigs[base] = lambda c: digit_value(c, base) is not None
    return f

def str_to_float(s):
    if isinstance(s, SBytes):
        s = SStr([byte2char(e) for e in s.els])
    x = s.strip()
    els = as_els(x, str)
    simple = frozenset(map(ord, '0123456789.'))
    if not els:
        raise ValueError('could not convert string to float')
    neg = False
    if C.decide(member_raw(els[0], frozenset((43, 45)))):
        neg = C.decide(eq_el(els[0], 45))
        els = els[1:]
    num = 0
    den = 1
    dot = False
    nd = 0
    D = frozenset(range(48, 58))
    for e in els:
        if C.decide(member_raw(e, predset(e, _isdig(10)))):
            e2 = narrowed(e, predset(e, _isdig(10)))
            num = num * 10 + digit_term(e2, 10)
            nd += 1
            if dot:
                den *= 10
        elif not dot and C.decide(eq_el(e, 46)):
            dot = True
        else:
            raise Concretise('float()')
    if nd == 0:
        raise ValueError('could not convert string to float')
    if nd > 300:
        raise Concretise('float() long')
    if neg:
        num = -num
    if not isinstance(num, Sym):
        return float(Fraction(num, den)) if num or not neg else -0.0
    r = SFloat(num, den)
    return SFloat(num, den, r.mag() * EPS)

def uint_digits(v, base=10, alpha=None):
    """SInt >= 0 -> element list (forks on the number of digits)"""
    if not isinstance(v, Sym):
        s = ('%x' % v) if base == 16 else str(v)
        return [ord(c) for c in s]
    alpha = alpha or ('0123456789' if base == 10 else HEX)
    n = 1
    while not (v < base ** n):
        n += 1
    if base == 16:
        w = 4 * n
        t = sx(v.t, max(w + 1, v.t.size()))
        return [hexdigit(z3.Extract(4 * i + 3, 4 * i, t), alpha) for i in range(n - 1, -1, -1)]
    k = ('digits', v.t.get_id(), n)
    hit = C.memo.get(k)
    if hit is None:
        ds = [C.fresh('dig', 4) for i in range(n)]
        hi = base ** n - 1
        w = max(need_width(0, hi), need_width(v.lo, v.hi)) + 1
        s = z3.BitVecVal(0, w)
        for d in ds:
            C.solver.add(z3.ULE(d, 9))
            s = s * 10 + z3.ZeroExt(w - 4, d)
        C.solver.add(s == iterm(v, w))
        C.model = None
        C.keep.append(v.t)
        hit = C.memo[k] = ds
    return [El(None, 21, frozenset(map(ord, alpha)), (alpha, d)) for d in hit]

def int_to_str(v, base=10, upper=False):
    if not isinstance(v, Sym):
        return ('%x' % v if not upper else '%X' % v) if base == 16 else str(v)
    neg = bool(v < 0)
    els = uint_digits(-v if neg else v, base, HEXU if upper else None)
    return mkstr(([45] if neg else []) + els)

def float_fixed(f, nd):
    """'%.<nd>f' % f for SFloat"""
    if not isinstance(f, SFloat):
        return '%.*f' % (nd, f)
    if (10 ** nd) % f.den or f.err >= Fraction(1, 2 * 10 ** nd):
        return '%.*f' % (nd, f.__float__())
    v = f.num * (10 ** nd // f.den)
    if not isinstance(v, Sym):
        return '%.*f' % (nd, float(Fraction(v, 10 ** nd)))
    neg = bool(v < 0)
    if neg:
        v = -v
    ip, fp = divmod(v, 10 ** nd) if isinstance(v, Sym) else divmod(v, 10 ** nd)
    els = uint_digits(ip)
    if nd:
        els = els + [46]
        if isinstance(fp, Sym):
            fp2 = fp + 10 ** nd
            els = els + uint_digits(fp2)[1:]
        else:
            els = els + [ord(c) for c in '%0*d' % (nd, fp)]
    return mkstr(([45] if neg else []) + els)


def float_repr(f):
    """repr(f) for a double that is the nearest one to a number of cents, or None"""
    if 100 % f.den:
        return None
    m = SFloat(f.num, f.den).mag()
    # a single rounding, and few enough digits to be told by the shortest text
    if f.err > m * EPS + Fraction(1, 2 ** 1000) or m >= 10 ** 13:
        return None
    v = f.num * (100 // f.den)
    if not isinstance(v, Sym):
        C.approx = C.approx or v == 0
        return repr(float(Fraction(v, 100)))
    if bool(v == 0):
        C.approx = True         # the sign of a zero is not known
        return '0.0'
    neg = bool(v < 0)
    if neg:
        v = -v
    ip, fp = divmod(v, 100)
    els = uint_digits(ip) + [46]
    if isinstance(fp, Sym):
        d = uint_digits(fp + 100)[1:]
        last = bool(fp % 10 != 0)
    else:
        d = [ord(c) for c in '%02d' % fp]
        last = fp % 10 != 0
    return mkstr(([45] if neg else []) + els + (d if last else d[0:1]))
