"""Real-valued symbolic numbers (only what timing code needs): exact real arithmetic, idealising floats."""
import z3
from . import core
from .core import VcInt, VcBool, mkbool, Unsupported


class VcReal(object):
    def __init__(self, r):
        self.r = r

    def _o(self, o):
        if isinstance(o, VcReal):
            return o.r
        if isinstance(o, VcInt):
            return z3.ToReal(o.i)
        if isinstance(o, bool):
            return z3.RealVal(int(o))
        if isinstance(o, (int, float)):
            from fractions import Fraction
            return z3.RealVal(str(Fraction(repr(o) if isinstance(o, float) else o)))
        raise Unsupported('real arithmetic')

    def __add__(self, o): return VcReal(self.r + self._o(o))
    __radd__ = __add__
    def __sub__(self, o): return VcReal(self.r - self._o(o))
    def __rsub__(self, o): return VcReal(self._o(o) - self.r)
    def __mul__(self, o): return VcReal(self.r * self._o(o))
    __rmul__ = __mul__

    def __truediv__(self, o):
        d = self._o(o)
        if mkbool(d == 0):
            raise ZeroDivisionError('float division by zero')
        return VcReal(self.r / d)

    def __rtruediv__(self, o):
        if mkbool(self.r == 0):
            raise ZeroDivisionError('float division by zero')
        return VcReal(self._o(o) / self.r)

    def __neg__(self): return VcReal(-self.r)
    def __lt__(self, o): return mkbool(self.r < self._o(o))
    def __le__(self, o): return mkbool(self.r <= self._o(o))
    def __gt__(self, o): return mkbool(self.r > self._o(o))
    def __ge__(self, o): return mkbool(self.r >= self._o(o))

    def __eq__(self, o):
        if o is None or isinstance(o, (str, bytes, tuple, list)):
            return False
        return mkbool(self.r == self._o(o))

    def __ne__(self, o):
        return core.bnot(self.__eq__(o))

    def __hash__(self):
        raise Unsupported('hash of symbolic real')

    def __bool__(self):
        return bool(mkbool(self.r != 0))

    def __str__(self):
        from . import seq
        return seq.token('real', self)

    def __format__(self, s):
        return str(self)

    def concretise(self, model):
        v = model.eval(self.r, model_completion=True)
        try:
            f = v.as_fraction()
            return float(f)
        except Exception:
            return float(v.approx(20).as_fraction())


class VcFloat(object):
    """a floating-point number known only by its encoding: struct format (e, f or d) and the unsigned word that packs it"""
    def __init__(self, code, w):
        self.code, self.w = code, w

    def __eq__(self, o):
        if isinstance(o, VcFloat) and o.code == self.code:
            return self.w == o.w
        if o is None or isinstance(o, (str, bytes, tuple, list)):
            return False
        raise Unsupported('comparison of a symbolic float')

    def __ne__(self, o):
        return core.bnot(self.__eq__(o))

    def _no(self, *a, **k):
        raise Unsupported('arithmetic on a symbolic float')
    __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __hash__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __int__ = __float__ = _no
    __and__ = __rand__ = __or__ = __ror__ = __lshift__ = __rshift__ = __mod__ = __floordiv__ = __index__ = __abs__ = __round__ = _no


def to_real(x):
    if isinstance(x, VcReal):
        return x
    return VcReal(VcReal(None)._o(x))
