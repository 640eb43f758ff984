"""Engine core: paths, solver, obligations, symbolic integers and booleans.

A *path* is one execution of a harness.  Every branch on a symbolic condition is a fork point; the engine
re-executes the harness until all feasible combinations of fork outcomes are covered.  An *obligation* is
"path condition => condition", discharged by z3.
"""
import os, time, z3

z3.set_param('model.completion', True)


class Control(BaseException):
    """engine control flow; never visible to code under verification (it derives from BaseException)"""


class PathEnd(Control):
    pass


class Unsupported(Control):
    pass


class Restart(Control):
    pass


class Budget(Control):
    pass


ENG = None          # current engine (one per process at a time)


def eng():
    return ENG


def set_engine(e):
    global ENG
    ENG = e


# ---------------------------------------------------------------------------------------------- terms
_ONE = z3.IntVal(1)


def is_sym(x):
    return isinstance(x, (VcInt, VcBool))


def ival(x):
    """internal integer (int or z3 Int term) of a python/Vc integer"""
    if isinstance(x, VcInt):
        return x.i
    if isinstance(x, VcBool):
        return z3.If(x.c, z3.IntVal(1), z3.IntVal(0))
    return int(x)


def mk(t, lo=None, hi=None):
    """VcInt or int from internal integer"""
    if isinstance(t, (int, VcInt)):
        return t
    if z3.is_int_value(t):
        return t.as_long()
    return VcInt(t, None, lo, hi)


def zi(x):
    """z3 Int term"""
    x = ival(x)
    return z3.IntVal(x) if isinstance(x, int) else x


def _simp(t):
    return z3.simplify(t)


def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(b, int) and b == 0:
        return a
    if isinstance(a, int) and a == 0:
        return b
    return _norm(a + b)


def isub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if isinstance(b, int) and b == 0:
        return a
    return _norm(a - b)


def _norm(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return t


def cond(x):
    """z3 Bool (or python bool) for a truth value"""
    if isinstance(x, VcBool):
        return x.c
    if isinstance(x, VcInt):
        return x.ne_const(0)
    if isinstance(x, z3.BoolRef):
        return x
    if hasattr(x, '_vc_truth'):
        return x._vc_truth()
    return bool(x)


def mkbool(c):
    if isinstance(c, bool):
        return c
    c = z3.simplify(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return VcBool(c)


def zb(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


class VcBool(object):
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return ENG.fork(self.c)

    def _int(self):
        return VcInt(z3.If(self.c, z3.IntVal(1), z3.IntVal(0)), None, 0, 1)

    def __eq__(self, o):
        if isinstance(o, (bool, VcBool)):
            return mkbool(zb(self.c) == zb(cond(o)))
        return self._int() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else mkbool(z3.Not(r.c))

    def __hash__(self):
        raise Unsupported('hash of symbolic bool')

    def __and__(self, o):
        if isinstance(o, (bool, VcBool)):
            return mkbool(z3.And(self.c, zb(cond(o))))
        return self._int() & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, VcBool)):
            return mkbool(z3.Or(self.c, zb(cond(o))))
        return self._int() | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, VcBool)):
            return mkbool(z3.Xor(self.c, zb(cond(o))))
        return self._int() ^ o
    __rxor__ = __xor__

    def __add__(self, o): return self._int() + o
    def __radd__(self, o): return o + self._int()
    def __sub__(self, o): return self._int() - o
    def __rsub__(self, o): return o - self._int()
    def __mul__(self, o): return self._int() * o
    def __rmul__(self, o): return o * self._int()
    def __lshift__(self, o): return self._int() << o
    def __rshift__(self, o): return self._int() >> o
    def __lt__(self, o): return self._int() < o
    def __le__(self, o): return self._int() <= o
    def __gt__(self, o): return self._int() > o
    def __ge__(self, o): return self._int() >= o

    def __index__(self):
        raise Unsupported('index() of symbolic bool')
    __int__ = __index__

    def __repr__(self):
        return 'VcBool(%s)' % self.c

    def __str__(self):
        from . import seq
        return seq.token('bool', self)

    def __format__(self, spec):
        return str(self)


def _isint(o):
    return isinstance(o, (int, VcInt, VcBool))


def _lift(o):
    if isinstance(o, VcBool):
        return o._int()
    if isinstance(o, bool):
        return int(o)
    return o


class VcInt(object):
    """symbolic integer: t = z3 Int term (lazily built) and/or b = bit-vector term (signed flag sg), with interval"""
    __slots__ = ('t', 'b', 'sg', 'lo', 'hi', 'src')

    def __init__(self, t, b=None, lo=None, hi=None, sg=False, src=None):
        self.t = t
        self.b = b
        self.sg = sg
        if b is not None and lo is None:
            w = b.size()
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
        self.lo = lo
        self.hi = hi
        self.src = src

    @property
    def i(self):
        if self.t is None:
            self.t = z3.BV2Int(self.b, self.sg)
        return self.t

    # -- bit vector views
    def bits(self):
        """(width, signed) minimal for the interval; None if unbounded"""
        if self.b is not None:
            return self.b.size(), self.sg
        if self.lo is None or self.hi is None:
            return None
        return width_for(self.lo, self.hi)

    def sbv(self, W):
        """signed bit-vector of width W representing the value exactly (W large enough)"""
        if self.b is not None:
            w = self.b.size()
            if w == W:
                return self.b
            if w > W:
                return z3.Extract(W - 1, 0, self.b)
            return z3.SignExt(W - w, self.b) if self.sg else z3.ZeroExt(W - w, self.b)
        return z3.Int2BV(self.t, W)

    # -- truth
    def ne_const(self, c):
        r = self.__ne__(c)
        return r if isinstance(r, bool) else r.c

    def __bool__(self):
        r = self.__ne__(0)
        return r if isinstance(r, bool) else ENG.fork(r.c)

    # -- comparisons
    def _cmp(self, o, op):
        o = _lift(o)
        if isinstance(o, float):
            ov = z3.RealVal(repr(o))
            f = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '==': lambda a, b: a == b}[op]
            return mkbool(f(z3.ToReal(self.i), ov))
        if not isinstance(o, (int, VcInt)):
            return NotImplemented
        olo, ohi = (o, o) if isinstance(o, int) else (o.lo, o.hi)
        # interval shortcuts
        if op == '<':
            if self.hi is not None and olo is not None and self.hi < olo: return True
            if self.lo is not None and ohi is not None and self.lo >= ohi: return False
        elif op == '<=':
            if self.hi is not None and olo is not None and self.hi <= olo: return True
            if self.lo is not None and ohi is not None and self.lo > ohi: return False
        else:
            if self.hi is not None and olo is not None and self.hi < olo: return False
            if self.lo is not None and ohi is not None and self.lo > ohi: return False
        if self.b is not None and self.t is None and (isinstance(o, int) or (o.b is not None)):
            wb = width_for(o, o)[0] + 1 if isinstance(o, int) else o.b.size() + 1
            W = max(self.b.size() + 1, wb)
            x = self.sbv(W)
            y = z3.BitVecVal(o, W) if isinstance(o, int) else o.sbv(W)
            return mkbool(x < y if op == '<' else (x <= y if op == '<=' else x == y))
        x, y = self.i, ival(o)
        return mkbool(x < y if op == '<' else (x <= y if op == '<=' else x == y))

    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')

    def __gt__(self, o):
        r = self._cmp(o, '<=')
        return r if r is NotImplemented else bnot(r)

    def __ge__(self, o):
        r = self._cmp(o, '<')
        return r if r is NotImplemented else bnot(r)

    def __eq__(self, o):
        r = self._cmp(o, '==')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, '==')
        return True if r is NotImplemented else bnot(r)

    def __hash__(self):
        raise Unsupported('hash of symbolic int')

    def __index__(self):
        raise Unsupported('index() of symbolic int')

    def __int__(self):
        raise Unsupported('int() of symbolic int')

    def __float__(self):
        raise Unsupported('float() of symbolic int')

    # -- arithmetic
    def _lin(self, o, f, lo, hi):
        return mkint(f(self.i, ival(o)), lo, hi)

    def __add__(self, o):
        o = _lift(o)
        if isinstance(o, float):
            from . import real
            return real.to_real(self) + o
        if not isinstance(o, (int, VcInt)):
            return NotImplemented
        if isinstance(o, int) and o == 0:
            return self
        lo, hi = _add(self.lo, _lo(o)), _add(self.hi, _hi(o))
        if self.b is not None and self.t is None and (isinstance(o, int) or (o.b is not None and o.t is None)) and lo is not None:
            return self._bvop(o, lambda a, b: a + b, lo, hi)
        return self._lin(o, lambda a, b: a + b, lo, hi)
    __radd__ = __add__

    def __sub__(self, o):
        o = _lift(o)
        if not isinstance(o, (int, VcInt)):
            return NotImplemented
        if isinstance(o, int) and o == 0:
            return self
        lo = None if self.lo is None or _hi(o) is None else self.lo - _hi(o)
        hi = None if self.hi is None or _lo(o) is None else self.hi - _lo(o)
        if self.b is not None and self.t is None and (isinstance(o, int) or (o.b is not None and o.t is None)) and lo is not None:
            return self._bvop(o, lambda a, b: a - b, lo, hi)
        return self._lin(o, lambda a, b: a - b, lo, hi)

    def __rsub__(self, o):
        o = _lift(o)
        if not isinstance(o, int):
            return NotImplemented
        lo = None if self.hi is None else o - self.hi
        hi = None if self.lo is None else o - self.lo
        if self.b is not None and self.t is None and lo is not None:
            return VcInt.__neg__(self) + o
        return mkint(o - self.i, lo, hi)

    def __neg__(self):
        lo = None if self.hi is None else -self.hi
        hi = None if self.lo is None else -self.lo
        if self.b is not None and self.t is None:
            return self._bvop(0, lambda a, b: b - a, lo, hi)
        return mkint(-self.i, lo, hi)

    def __pos__(self):
        return self

    def __abs__(self):
        return vite(self < 0, -self, self)

    def __mul__(self, o):
        o = _lift(o)
        if isinstance(o, float):
            from . import real
            return real.to_real(self) * o
        if isinstance(o, (str, bytes)):
            from . import seq
            return seq.repeat(o, self)
        if not isinstance(o, (int, VcInt)):
            return NotImplemented
        if isinstance(o, int):
            if o == 0:
                return 0
            if o == 1:
                return self
        lo = hi = None
        if None not in (self.lo, self.hi, _lo(o), _hi(o)):
            c = [self.lo * _lo(o), self.lo * _hi(o), self.hi * _lo(o), self.hi * _hi(o)]
            lo, hi = min(c), max(c)
        elif isinstance(o, int) and o > 0:
            lo = None if self.lo is None else self.lo * o
            hi = None if self.hi is None else self.hi * o
        if self.b is not None and self.t is None and isinstance(o, int) and lo is not None:
            return self._bvop(o, lambda a, b: a * b, lo, hi)
        return self._lin(o, lambda a, b: a * b, lo, hi)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        o = _lift(o)
        if isinstance(o, VcInt):
            if o.lo is not None and o.lo > 0 and o.hi is not None and o.hi - o.lo <= 16:
                r = self // o.hi
                for v in range(o.hi - 1, o.lo - 1, -1):
                    r = vite(o == v, self // v, r)
                return r
            raise Unsupported('division by symbolic value')
        if not isinstance(o, int):
            return NotImplemented
        if o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if o < 0:
            return (-self) // (-o)
        if o == 1:
            return self
        lo = None if self.lo is None else self.lo // o
        hi = None if self.hi is None else self.hi // o
        if self.b is not None and self.t is None and o & (o - 1) == 0:
            return self._shr(o.bit_length() - 1)
        return mkint(self.i / o, lo, hi)      # z3 div floors for positive divisors

    def __mod__(self, o):
        o = _lift(o)
        if isinstance(o, VcInt):
            if o.lo is not None and o.lo > 0 and o.hi is not None and o.hi - o.lo <= 16:
                r = self % o.hi
                for v in range(o.hi - 1, o.lo - 1, -1):
                    r = vite(o == v, self % v, r)
                return r
            raise Unsupported('modulo by symbolic value')
        if not isinstance(o, int):
            return NotImplemented
        if o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if o < 0:
            return -((-self) % (-o))
        if self.lo is not None and self.hi is not None and 0 <= self.lo and self.hi < o:
            return self
        if o == 1:
            return 0
        if self.b is not None and self.t is None and o & (o - 1) == 0:
            return self & (o - 1)
        return mkint(self.i % o, 0, o - 1)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rfloordiv__(self, o):
        return self._enum(lambda v: o // v)

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return self._enum(lambda v: o % v)

    def __truediv__(self, o):
        from . import real
        return real.to_real(self) / o

    def __rtruediv__(self, o):
        from . import real
        return real.to_real(o) / real.to_real(self)

    def _enum(self, f, limit=64):
        """case split by value for small intervals (as an ite term)"""
        if (self.lo is None or self.hi is None or self.hi - self.lo > limit) and ENG.quick_valid(z3.And(zi(self) >= 0, zi(self) < 32)):
            return VcInt(zi(self), None, 0, 31)._enum(f)
        if self.lo is None or self.hi is None or self.hi - self.lo > limit:
            raise Unsupported('operation on symbolic exponent/shift/divisor with a large range')
        r = f(self.hi)
        for v in range(self.hi - 1, self.lo - 1, -1):
            r = vite(self == v, f(v), r)
        return r

    def __pow__(self, o, m=None):
        if m is not None:
            raise Unsupported('modular pow')
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        if isinstance(o, VcInt):
            raise Unsupported('pow of symbolic values')
        return NotImplemented

    def __rpow__(self, o, m=None):
        if m is not None:
            raise Unsupported('modular pow')
        return self._enum(lambda v: o ** v)

    def __lshift__(self, o):
        o = _lift(o)
        if isinstance(o, VcInt):
            return o._enum(lambda v: self << v)
        if o < 0:
            raise ValueError('negative shift count')
        return self * (1 << o)

    def __rlshift__(self, o):
        return self._enum(lambda v: o << v)

    def __rshift__(self, o):
        o = _lift(o)
        if isinstance(o, VcInt):
            return o._enum(lambda v: self >> v)
        if o < 0:
            raise ValueError('negative shift count')
        if self.b is not None and self.t is None:
            return self._shr(o)
        return self // (1 << o)

    def __rrshift__(self, o):
        return self._enum(lambda v: o >> v)

    def _shr(self, n):
        w = self.b.size()
        lo, hi = self.lo >> n, self.hi >> n
        if not self.sg:
            if n >= w:
                return 0
            return mkbv(z3.Extract(w - 1, n, self.b), False, lo, hi)
        n = min(n, w - 1)
        return mkbv(z3.Extract(w - 1, n, self.b), True, lo, hi)

    def _bvop(self, o, f, lo, hi):
        w1 = self.b.size() if self.b is not None else width_for(self.lo, self.hi)[0]
        w2 = width_for(o, o)[0] if isinstance(o, int) else (o.b.size() if o.b is not None else width_for(o.lo, o.hi)[0])
        w3, sg = width_for(lo, hi)
        W = max(w1, w2, w3) + 1
        x = self.sbv(W)
        y = z3.BitVecVal(o, W) if isinstance(o, int) else o.sbv(W)
        r = f(x, y)
        return mkbv(z3.Extract(w3 - 1, 0, r), sg, lo, hi)

    def _bits2(self, o, kind):
        o = _lift(o)
        if not isinstance(o, (int, VcInt)):
            return NotImplemented
        # simple integer forms (keep arithmetic terms for masks and single bits)
        if isinstance(o, int) and self.t is not None and self.b is None:
            if kind == '&':
                if o == 0:
                    return 0
                if o > 0 and (o & (o + 1)) == 0:
                    return self % (o + 1)
                if o > 0 and bin(o).count('1') <= 4:
                    r = 0
                    x = o
                    while x:
                        low = x & -x
                        r = r + ((self // low) % 2) * low
                        x ^= low
                    return r
            if o == 0 and kind in '|^':
                return self
            if self.lo is not None and self.lo >= 0 and self.hi is not None and o >= 0 and kind in '|^':
                # disjoint bits below/above
                k = self.hi.bit_length()
                if o & ((1 << k) - 1) == 0:
                    return self + o
                if kind == '|' and o & (o - 1) == 0:
                    return self + (1 - (self // o) % 2) * o
        if isinstance(o, VcInt) and kind in '|^' and self.b is None and o.b is None:
            # disjointness by stride: a multiple of 2^k plus something below 2^k
            for a, b in ((self, o), (o, self)):
                if b.lo is not None and b.lo >= 0 and b.hi is not None and a.lo is not None and a.lo >= 0:
                    k = b.hi.bit_length()
                    if ENG.quick_valid(zi(a) % (1 << k) == 0):
                        return a + b
        ba = self.bits()
        bo = width_for(o, o) if isinstance(o, int) else o.bits()
        if ba is None or bo is None:
            if kind == '&' and isinstance(o, int) and o > 0:
                return (self % (1 << o.bit_length())) & o
            if kind == '&' and isinstance(o, VcInt):
                for a, b in ((self, o), (o, self)):
                    bb = b.bits()
                    if bb is not None and b.lo >= 0 and a.bits() is None:
                        return (a % (1 << bb[0])) & b
            raise Unsupported('bit operation on unbounded integers')
        W = max(ba[0], bo[0]) + 1
        x = self.sbv(W)
        y = z3.BitVecVal(o, W) if isinstance(o, int) else o.sbv(W)
        alo, ahi, olo, ohi = self.lo, self.hi, _lo(o), _hi(o)
        if kind == '&':
            r = x & y
            if alo >= 0 and olo >= 0: lo, hi = 0, min(ahi, ohi)
            elif alo >= 0: lo, hi = 0, ahi
            elif olo >= 0: lo, hi = 0, ohi
            else: lo, hi = -(1 << (W - 1)), (1 << (W - 1)) - 1
        else:
            r = (x | y) if kind == '|' else (x ^ y)
            if alo >= 0 and olo >= 0:
                lo, hi = 0, (1 << max(ahi.bit_length(), ohi.bit_length())) - 1
            else:
                lo, hi = -(1 << (W - 1)), (1 << (W - 1)) - 1
        w3, sg = width_for(lo, hi)
        return mkbv(z3.Extract(w3 - 1, 0, r), sg, lo, hi)

    def __and__(self, o): return self._bits2(o, '&')
    __rand__ = __and__
    def __or__(self, o): return self._bits2(o, '|')
    __ror__ = __or__
    def __xor__(self, o): return self._bits2(o, '^')
    __rxor__ = __xor__

    def __invert__(self):
        if self.b is not None and self.t is None:
            w = self.b.size()
            W = w if self.sg else w + 1
            return mkbv(~self.sbv(W), True, -self.hi - 1, -self.lo - 1)
        return -self - 1

    def bit_length(self):
        if self.lo is None or self.lo < 0 or self.hi is None:
            raise Unsupported('bit_length')
        r = 0
        for k in range(self.hi.bit_length()):
            r = vite(self >= (1 << k), k + 1, r)
        return r

    def to_bytes(self, length=1, byteorder='big', signed=False):
        from . import seq
        if not isinstance(length, int):
            raise Unsupported('to_bytes of symbolic length')
        if is_sym(byteorder) or byteorder not in ('big', 'little'):
            raise Unsupported('to_bytes variant')
        if signed:
            if not (self >= -(1 << (8 * length - 1)) if length else self == 0) or not (self < (1 << (8 * length - 1)) if length else True):
                raise OverflowError('int too big to convert')
            return (self % (1 << (8 * length))).to_bytes(length, byteorder) if length else b''
        if not (self >= 0):
            raise OverflowError("can't convert negative int to unsigned")
        if not (self < (1 << (8 * length))):
            raise OverflowError('int too big to convert')
        out = [byte_of(self, 8 * (length - 1 - j)) for j in range(length)]
        if byteorder == 'little':
            out.reverse()
        return seq.VcBytes(seq.Conc(out))

    def __repr__(self):
        return 'VcInt(%s)' % (self.t if self.t is not None else self.b)

    def __str__(self):
        from . import seq
        return seq.token('dec', self)

    def __format__(self, spec):
        if spec in ('', 'd'):
            return str(self)
        from . import seq
        return seq.token('fmt', (spec, self))


def byte_of(v, shift):
    """byte of a non-negative integer"""
    if isinstance(v, int):
        return (v >> shift) & 0xFF
    r = (v >> shift) & 0xFF
    if isinstance(r, VcInt):
        if r is v:
            return r
        r = VcInt(r.t, r.b, r.lo, r.hi, r.sg, (v, shift))
    return r


def _lo(o):
    return o if isinstance(o, int) else o.lo


def _hi(o):
    return o if isinstance(o, int) else o.hi


def _add(a, b):
    return None if a is None or b is None else a + b


def width_for(lo, hi):
    """(width, signed) able to represent [lo, hi]"""
    if lo >= 0:
        return max(1, hi.bit_length()), False
    w = max((-lo - 1).bit_length(), max(hi, 0).bit_length()) + 1
    return w, True


def mkint(t, lo=None, hi=None):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    if lo is not None and lo == hi:
        return lo
    return VcInt(t, None, lo, hi)


def mkbv(b, sg, lo, hi):
    b = z3.simplify(b)
    if z3.is_bv_value(b):
        return b.as_signed_long() if sg else b.as_long()
    if lo == hi:
        return lo
    return VcInt(None, b, lo, hi, sg)


def bnot(r):
    if isinstance(r, bool):
        return not r
    return mkbool(z3.Not(r.c))


def _num(x):
    return isinstance(x, (int, VcInt, VcBool))


def vite(c, a, b):
    """if-then-else on values; falls back to a fork for non-numeric values"""
    if isinstance(c, VcInt):
        c = c != 0
    if isinstance(c, z3.BoolRef):
        c = mkbool(c)
    if not isinstance(c, VcBool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, (bool, VcBool)) and isinstance(b, (bool, VcBool)):
        return mkbool(z3.If(c.c, zb(cond(a)), zb(cond(b))))
    if _num(a) and _num(b):
        a, b = _lift(a), _lift(b)
        if isinstance(a, int) and isinstance(b, int) and a == b:
            return a
        lo = None if _lo(a) is None or _lo(b) is None else min(_lo(a), _lo(b))
        hi = None if _hi(a) is None or _hi(b) is None else max(_hi(a), _hi(b))
        abv = isinstance(a, int) or (a.b is not None and a.t is None)
        bbv = isinstance(b, int) or (b.b is not None and b.t is None)
        if abv and bbv and not (isinstance(a, int) and isinstance(b, int)):
            w, sg = width_for(lo, hi)
            x = z3.BitVecVal(a, w) if isinstance(a, int) else _tobv(a, w)
            y = z3.BitVecVal(b, w) if isinstance(b, int) else _tobv(b, w)
            return mkbv(z3.If(c.c, x, y), sg, lo, hi)
        return mkint(z3.If(c.c, zi(a), zi(b)), lo, hi)
    from . import seq
    r = seq.ite_hook(c, a, b)
    if r is not None:
        return r
    return a if bool(c) else b


def _tobv(a, w):
    return a.sbv(w)


# ---------------------------------------------------------------------------------------------- obligations
class Obligation(object):
    __slots__ = ('label', 'status', 'time', 'inputs', 'imprecise', 'info', 'path')

    def __init__(self, label, status, t, inputs=None, imprecise=False, info='', path=None):
        self.label, self.status, self.time = label, status, t
        self.inputs, self.imprecise, self.info, self.path = inputs, imprecise, info, path


def busy():
    """how many times slower than usual a query may run on a machine that does other things as well"""
    return min(4.0, max(1.0, os.getloadavg()[0] / (os.cpu_count() or 1)))


class Engine(object):
    def __init__(self, qtimeout=8000, max_paths=20000, deadline=None, max_forks=6000):
        self.qtimeout = qtimeout
        self.max_paths = max_paths
        self.deadline = deadline
        self.max_forks = max_forks
        self.obl = []                   # Obligation list
        self.nsimple = 0                # obligations that hold by evaluation (no query)
        self.npaths = 0
        self.covered = {}
        self.solver_time = 0.0
        self.nqueries = 0
        self.loop_db = {}               # loop knowledge, survives restarts
        self.restarts = 0
        self.inductions = {}            # loop id -> info of the cut (for evidence)
        self.assumptions = set()
        self.born = []
        self.dump = None                # optional: list of smt2 strings of obligations (for a second back end)
        self.unsup = None

    # ------------------------------------------------------------------ path handling
    def begin(self, prefix):
        self.solver = z3.SolverFor('ALL') if False else z3.Solver()
        self.solver.set('timeout', self.qtimeout)
        self.pc = []
        self.prefix = prefix
        self.dec = []
        self.draws = {}                 # name -> value (symbolic) for counterexamples
        self.counters = {}
        self.imprecise = False
        self.nforks = 0
        self.fresh_n = 0
        self.facts = set()
        self.dead = False
        self.path_loops = []
        self.born = []                  # elements of collections met on this path, as they were when first looked at
        self.tables = {}
        self.valid_cache = {}

    def explore(self, run):
        """run(): executes the harness once; explores all paths"""
        while True:
            try:
                work = [[]]
                self.obl_mark = len(self.obl)
                while work:
                    prefix = work.pop()
                    self.npaths += 1
                    if self.npaths > self.max_paths:
                        raise Unsupported('too many paths')
                    self.check_time()
                    self.begin(prefix)
                    self.work = work
                    try:
                        run()
                    except PathEnd:
                        pass
                    except Unsupported:
                        # perhaps only because of a loop invariant that is still a guess: drop one guess and start again
                        if not any(l.drop_guess() for l in reversed(self.path_loops)):
                            raise
                        raise Restart()
                    finally:
                        self.dead = True
                return
            except Restart:
                self.restarts += 1
                del self.obl[self.obl_mark:]
                if self.restarts > 400:
                    raise Unsupported('too many invariant refinements')

    def check_time(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget('time budget exhausted')

    # ------------------------------------------------------------------ solver
    def _check(self, *assump):
        t = time.time()
        r = self.solver.check(*assump)
        dt = time.time() - t
        self.solver_time += dt
        self.nqueries += 1
        if r == z3.unsat and self.dump is not None and len(self.dump) < 6000 and self.nqueries % 3 == 0:
            # a branch or obligation closed by the solver, for the second back end (every third)
            self.dump.append(('path closed', list(self.pc) + list(assump), z3.BoolVal(False)))
        if self.nqueries % 16 == 0:
            self.check_time()
        return r

    def assume(self, c):
        c = cond(c)
        if isinstance(c, bool):
            if not c:
                raise PathEnd()
            return
        self.solver.add(c)
        self.pc.append(c)

    def fact(self, c):
        """assume a condition known to hold (no feasibility question)"""
        c = cond(c)
        if c is True:
            return
        k = zb(c).get_id()
        if k in self.facts:
            return
        self.facts.add(k)
        self.solver.add(zb(c))
        self.pc.append(zb(c))

    def feasible(self, c=None):
        r = self._check(*([] if c is None else [c]))
        return r != z3.unsat

    def fork(self, c):
        if isinstance(c, bool):
            return c
        if self.dead:
            return False
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self.nforks += 1
        if self.nforks > self.max_forks:
            raise Unsupported('too many branches on one path')
        n = len(self.dec)
        if n < len(self.prefix):
            d = self.prefix[n]
        else:
            t = self._check(c) != z3.unsat
            f = self._check(z3.Not(c)) != z3.unsat
            if not t and not f:
                raise PathEnd()
            if t and f:
                self.work.append(self.dec + [False])
                d = True
            else:
                d = t
        self.dec.append(d)
        cc = c if d else z3.Not(c)
        self.solver.add(cc)
        self.pc.append(cc)
        return d

    def quick_valid(self, c):
        """is c implied by the path condition? (False when unknown)"""
        c = cond(c)
        if isinstance(c, bool):
            return c
        if self.dead:
            return False
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = (c.get_id(), len(self.pc))
        r = self.valid_cache.get(key)
        if r is None:
            self.solver.set('timeout', int(min(3000, self.qtimeout) * busy()))
            r = (self._check(z3.Not(c)) == z3.unsat)
            self.solver.set('timeout', self.qtimeout)
            self.valid_cache[key] = r
            self.valid_cache[('keep', c.get_id())] = c
        return r

    def choice(self, n, label='choice'):
        """non-deterministic choice among n alternatives (all explored)"""
        if self.dead:
            return 0
        k = len(self.dec)
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            for j in range(n - 1, 0, -1):
                self.work.append(self.dec + [j])
            d = 0
        self.dec.append(d)
        return d

    # ------------------------------------------------------------------ fresh symbols
    def uniq(self, name):
        n = self.counters.get(name, 0)
        self.counters[name] = n + 1
        return name if n == 0 else '%s#%d' % (name, n)

    def fresh_int(self, name='v', lo=None, hi=None):
        self.fresh_n += 1
        t = z3.Int('%s!%d' % (name, self.fresh_n))
        v = VcInt(t, None, lo, hi)
        if lo is not None:
            self.fact(t >= lo)
        if hi is not None:
            self.fact(t <= hi)
        return v

    def fresh_real(self, name='r', lo=None, hi=None, above=None):
        from .real import VcReal, to_real
        self.fresh_n += 1
        v = VcReal(z3.Real('%s!%d' % (name, self.fresh_n)))
        for c in ([v >= lo] if lo is not None else []) + ([v <= hi] if hi is not None else []) + ([v > above] if above is not None else []):
            self.fact(cond(c))
        return v

    def fresh_bool(self, name='p'):
        self.fresh_n += 1
        return VcBool(z3.Bool('%s!%d' % (name, self.fresh_n)))

    def fresh_bv(self, name='b', w=8, sg=False):
        self.fresh_n += 1
        return VcInt(None, z3.BitVec('%s!%d' % (name, self.fresh_n), w), sg=sg)

    # ------------------------------------------------------------------ obligations
    def ensure(self, label, c, info=''):
        """obligation: pc => c.  Returns True when discharged."""
        if self.dead:
            return True
        c = cond(c)
        t0 = time.time()
        if isinstance(c, bool):
            if c:
                self.obl.append(Obligation(label, 'proved', 0.0))
                self.nsimple += 1
                return True
            r = self._check()
            if r == z3.unsat:
                self.obl.append(Obligation(label, 'proved', time.time() - t0))
                raise PathEnd()
        else:
            if self.dump is not None and len(self.dump) < 4000:
                self.dump.append((label, list(self.pc), c))
            r = self._check(z3.Not(c))
        dt = time.time() - t0
        if r == z3.unsat:
            self.obl.append(Obligation(label, 'proved', dt))
            self.solver.add(zb(c))
            return True
        if r == z3.unknown:
            # second attempt: fresh non-incremental solver
            s = z3.Solver()
            s.set('timeout', int(4 * self.qtimeout * busy()))
            s.add(*self.pc)
            s.add(z3.Not(zb(c)))
            t1 = time.time()
            r = s.check()
            self.solver_time += time.time() - t1
            self.nqueries += 1
            if r == z3.unsat:
                self.obl.append(Obligation(label, 'proved', time.time() - t0))
                self.solver.add(zb(c))
                return True
            model = s.model() if r == z3.sat else None
        else:
            model = self.solver.model()
        inputs = None
        if model is not None:
            inputs = self.concretise(model, c)
        self.obl.append(Obligation(label, 'refuted' if model is not None else 'unknown', time.time() - t0, inputs,
                                   self.imprecise, str(info) + self.where(), list(self.dec)))
        if c is False:
            raise PathEnd()
        self.assume(c)
        if not self.feasible():
            raise PathEnd()
        return False

    def where(self):
        return ''

    def concretise(self, model, negated=None):
        """prefer small models: try to bound the sizes drawn, then evaluate every draw"""
        sizes = [v.size_term() for v in self.draws.values() if hasattr(v, 'size_term')]
        sizes = [s for s in sizes if not isinstance(s, int)]
        if sizes:
            neg = [] if negated is None or isinstance(negated, bool) else [z3.Not(negated)]
            for lim in (16, 300, 2500, 12000):
                try:
                    if self._check(*(neg + [s <= lim for s in sizes])) == z3.sat:
                        model = self.solver.model()
                        break
                except z3.Z3Exception:
                    pass
        out = {}
        for name, v in self.draws.items():
            try:
                out[name] = concrete(v, model)
            except Unsupported:
                return None
        return out

    def cover(self, label):
        """reachability: this point is reached by a feasible path"""
        if self.dead or self.covered.get(label):
            return
        if self._check() == z3.sat:
            self.covered[label] = True
        else:
            self.covered.setdefault(label, False)


def concrete(v, model):
    if isinstance(v, VcInt):
        if v.b is not None and v.t is None:
            r = model.eval(v.b, model_completion=True)
            return r.as_signed_long() if v.sg else r.as_long()
        return model.eval(v.i, model_completion=True).as_long()
    if isinstance(v, VcBool):
        return bool(z3.is_true(model.eval(v.c, model_completion=True)))
    if isinstance(v, z3.ArithRef):
        return model.eval(v, model_completion=True).as_long()
    if hasattr(v, 'concretise'):
        return v.concretise(model)
    if isinstance(v, (list, tuple)):
        return type(v)(concrete(x, model) for x in v)
    return v
