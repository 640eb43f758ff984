"""Symbolic sequences: bytes, bytearray, list, tuple, and dictionaries with symbolic keys."""
import re, z3
from . import core
from .core import (VcInt, VcBool, Unsupported, PathEnd, ival, mk, zi, iadd, isub, mkbool, vite, is_sym, cond, zb)


def E():
    return core.ENG


# ------------------------------------------------------------------------------------------------ tokens in strings
A, Z = '\ue000', '\ue001'


def token(kind, val):
    tab = E().tables.setdefault('tok', [])
    tab.append((kind, val))
    return '%s%d%s' % (A, len(tab) - 1, Z)


def has_token(s):
    return isinstance(s, str) and A in s


def split_tokens(s):
    """list of str | (kind, val)"""
    out = []
    i = 0
    while i < len(s):
        a = s.find(A, i)
        if a < 0:
            out.append(s[i:])
            break
        if a > i:
            out.append(s[i:a])
        z = s.find(Z, a)
        if z < 0:
            raise Unsupported('broken token')
        out.append(E().tables['tok'][int(s[a + 1:z])])
        i = z + 1
    return out


def repeat(s, n):
    """s * n for native str/bytes and symbolic n"""
    if n <= 0:
        return s * 0
    if isinstance(s, bytes):
        if len(s) == 1:
            return VcBytes(Fn(ival(n), lambda i, v=s[0]: v))
        return VcBytes(Fn(ival(n * len(s)), lambda i: table_get(list(s), ival(mk(i) % len(s)))))
    if s == '':
        return ''
    return token('rep', (s, n))


def _pattern(s):
    return ''.join(re.escape(p) if isinstance(p, str) else '-?[0-9]+' if p[0] == 'dec' else '(?:True|False)' if p[0] == 'bool' else '(?s:.*)' for p in split_tokens(s))


def text_eq(a, b):
    """equality of strings of which at least one has symbolic parts"""
    if a == b:
        return True
    if has_token(a) and has_token(b):
        x, y = split_tokens(a), split_tokens(b)
        if len(x) == len(y) == 1 and x[0][0] == y[0][0] == 'dec':
            return bool(x[0][1] == y[0][1])
        raise Unsupported('comparison of strings with symbolic parts')
    a, b = (a, b) if has_token(a) else (b, a)
    if re.fullmatch(_pattern(a), b) is None:
        return False
    p = split_tokens(a)
    if len(p) == 1 and p[0][0] == 'dec' and re.fullmatch('-?[0-9]+', b):
        return str(int(b)) == b and bool(p[0][1] == int(b))
    raise Unsupported('comparison of strings with symbolic parts')


def text_in(x, c):
    """is x a part of c, one of them having symbolic parts?"""
    if has_token(x):
        if x in c:
            return True
        raise Unsupported('part of a string with symbolic parts')
    p = split_tokens(c)
    if any(isinstance(q, str) and x in q for q in p):
        return True
    if all(isinstance(q, str) or q[0] == 'dec' for q in p) and not set(x) & set('-0123456789'):
        return False
    raise Unsupported('part of a string with symbolic parts')


# ------------------------------------------------------------------------------------------------ sequences
class Seq(object):
    n = 0

    def get(self, i):
        raise NotImplementedError

    def conc(self):
        return isinstance(self.n, int)

    def items(self):
        if not isinstance(self.n, int):
            raise Unsupported('iteration over a sequence of symbolic length')
        return [self.get(i) for i in range(self.n)]


class Conc(Seq):
    def __init__(self, vals):
        self.v = vals
        self.n = len(vals)

    def get(self, i):
        if isinstance(i, int):
            return self.v[i]
        return table_get(self.v, i)

    def items(self):
        return list(self.v)


def table_get(vals, i):
    """element of a concrete list at a symbolic index (0 <= i < len assumed)"""
    if not vals:
        return 0
    if len(vals) == 1:
        return vals[0]
    if all(isinstance(x, int) and not isinstance(x, bool) for x in vals) and len(vals) > 16:
        return _int_table(vals, i)
    ix = mk(i)
    r = vals[-1]
    for k in range(len(vals) - 2, -1, -1):
        r = vite(ix == k, vals[k], r)
    return r


def _int_table(vals, i):
    ix = mk(i)

    def tree(lo, hi, j):
        if hi - lo == 1:
            return vals[lo]
        mid = (lo + hi) // 2
        return vite(j < mid, tree(lo, mid, j), tree(mid, hi, j))
    return tree(0, len(vals), ix)


class BvTable(object):
    pass


def table_at(vals, ix):
    """concrete int table indexed by a VcInt (keeps bit-vector form)"""
    if ix.b is not None and ix.t is None and all(isinstance(x, int) for x in vals):
        w = max(1, (len(vals) - 1).bit_length())
        b = ix.sbv(w) if ix.b.size() != w else ix.b
        lo, hi = min(vals), max(vals)
        W, sg = core.width_for(lo, hi)

        def tree(k, off):
            if k < 0:
                return z3.BitVecVal(vals[off] if off < len(vals) else vals[-1], W)
            hi_ = off + (1 << k)
            a = tree(k - 1, off)
            if hi_ >= len(vals):
                return a
            return z3.If(z3.Extract(k, k, b) == 1, tree(k - 1, hi_), a)
        return core.mkbv(tree(w - 1, 0), sg, lo, hi)
    return table_get(list(vals), ix.i)


class Fn(Seq):
    def __init__(self, n, f):
        self.n = n
        self.f = f

    def get(self, i):
        return self.f(i)


class Cat(Seq):
    def __init__(self, parts):
        self.p = parts
        n = 0
        for q in parts:
            n = iadd(n, q.n)
        self.n = n

    def get(self, i):
        off = 0
        parts = self.p
        if isinstance(i, int):
            for k, q in enumerate(parts):
                if isinstance(q.n, int):
                    if i < off + q.n:
                        return q.get(i - off)
                    off += q.n
                else:
                    return self._sym(i, k, off)
            raise Unsupported('index out of concatenation')
        return self._sym(i, 0, 0)

    def _sym(self, i, k, off):
        q = self.p[k]
        j = isub(i, off)
        if k == len(self.p) - 1:
            return q.get(j)
        end = iadd(off, q.n)
        if q.n == 0:
            return self._sym(i, k + 1, end)
        c = mk(i) < mk(end)
        if isinstance(c, bool):
            return q.get(j) if c else self._sym(i, k + 1, end)
        if E().quick_valid(c):
            return q.get(j)
        if E().quick_valid(z3.Not(c.c)):
            return self._sym(i, k + 1, end)
        a = q.get(j) if not (isinstance(q, Conc) and isinstance(j, int) and not 0 <= j < q.n) else None
        b = self._sym(i, k + 1, end)
        if a is None:
            return b
        return vite(c, a, b)


def cat(a, b):
    pa = a.p if isinstance(a, Cat) else [a]
    pb = b.p if isinstance(b, Cat) else [b]
    out = []
    for q in pa + pb:
        if isinstance(q.n, int) and q.n == 0:
            continue
        if out and isinstance(q, Conc) and isinstance(out[-1], Conc):
            out[-1] = Conc(out[-1].v + q.v)
        elif (out and isinstance(q, Slice) and isinstance(out[-1], Slice) and q.base is out[-1].base
              and _same(iadd(out[-1].a, out[-1].n), q.a)):
            out[-1] = sl(q.base, out[-1].a, iadd(out[-1].n, q.n))
        else:
            out.append(q)
    if not out:
        return Conc([])
    if len(out) == 1:
        return out[0]
    return Cat(out)


def _same(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    r = isub(a, b)
    return isinstance(r, int) and r == 0


class Slice(Seq):
    def __init__(self, base, a, n):
        self.base, self.a, self.n = base, a, n

    def get(self, i):
        return self.base.get(iadd(self.a, i))


def sl(base, a, n):
    """n items of base from a (bounds already checked)"""
    if isinstance(n, int) and n <= 0:
        return Conc([])
    if isinstance(a, int) and a == 0 and _same(n, base.n):
        return base
    if isinstance(base, Conc) and isinstance(a, int) and isinstance(n, int):
        return Conc(base.v[a:a + n])
    if isinstance(base, Slice):
        return sl(base.base, iadd(base.a, a), n)
    if isinstance(base, Cat) :
        # drop leading parts / keep within parts when positions are comparable
        parts = base.p
        off = 0
        for k, q in enumerate(parts):
            end = iadd(off, q.n)
            rel = isub(a, off)
            ea = isub(iadd(a, n), end)
            if isinstance(rel, int) and isinstance(ea, int) and rel >= 0 and ea <= 0:
                return sl(q, rel, n)
            if _same(a, off):
                # slice starts at a part boundary: take whole parts while they fit
                rem = n
                out = []
                for q2 in parts[k:]:
                    d = isub(rem, q2.n)
                    if isinstance(d, int) and d >= 0:
                        out.append(q2)
                        rem = d
                        if d == 0:
                            break
                    elif not isinstance(d, int) and E().quick_valid(zi(mk(d)) >= 0):
                        out.append(q2)
                        rem = d
                    elif (d < 0) if isinstance(d, int) else E().quick_valid(zi(mk(d)) <= 0):
                        out.append(sl(q2, 0, rem))
                        rem = 0
                        break
                    else:
                        break
                if isinstance(rem, int) and rem == 0:
                    r = Conc([])
                    for q3 in out:
                        r = cat(r, q3)
                    return r
                break
            if isinstance(rel, int) and rel >= 0 and isinstance(q.n, int) and rel < q.n:
                # starts inside a concrete-length part
                head = sl(q, rel, min(q.n - rel, n) if isinstance(n, int) else q.n - rel)
                rest_n = isub(n, head.n)
                if isinstance(rest_n, int) and rest_n <= 0:
                    return head
                if not isinstance(n, int) and not E().quick_valid(zi(mk(rest_n)) >= 0):
                    break
                rest = Cat(parts[k + 1:]) if len(parts) > k + 2 else (parts[k + 1] if len(parts) > k + 1 else None)
                if rest is None:
                    break
                return cat(head, sl(rest, 0, rest_n))
            if isinstance(rel, int) and rel < 0:
                break
            off = end
    return Slice(base, a, n)


class Upd(Seq):
    """base with item i replaced by v"""
    def __init__(self, base, i, v):
        self.base, self.i, self.v, self.n = base, i, v, base.n

    def get(self, j):
        c = mk(j) == mk(self.i)
        if isinstance(c, bool):
            return self.v if c else self.base.get(j)
        return vite(c, self.v, self.base.get(j)) if _num2(self.v) else (self.v if bool(c) else self.base.get(j))


def _num2(v):
    return isinstance(v, (int, VcInt, VcBool))


def to_seq(x):
    """Seq of a python or engine sequence"""
    if isinstance(x, Seq):
        return x
    if isinstance(x, (VcSeqBase,)):
        return x.s
    if isinstance(x, (bytes, bytearray, list, tuple)):
        return Conc(list(x))
    if isinstance(x, range):
        return Conc(list(x))
    if isinstance(x, VcRange):
        return x.s
    raise Unsupported('not a sequence: %s' % type(x).__name__)


def norm_index(i, n, what='list index out of range'):
    """bounds-checked normalisation of an index"""
    i = ival(i)
    if isinstance(i, int) and isinstance(n, int):
        if i < 0:
            i += n
        if not 0 <= i < n:
            raise IndexError(what)
        return i
    if mk(i) < 0:
        i = iadd(i, n)
    ok = mkbool(z3.And(zi(mk(i)) >= 0, zi(mk(i)) < zi(mk(n))))
    if not ok:
        raise IndexError(what)
    return i


def norm_slice(s, n):
    """(start, length) of slice s on a sequence of length n"""
    if s.step is not None and s.step != 1:
        if isinstance(n, int) and not is_sym(s.start) and not is_sym(s.stop):
            return None
        raise Unsupported('slice with step')
    a = 0 if s.start is None else ival(s.start)
    b = n if s.stop is None else ival(s.stop)

    def clamp(x):
        if isinstance(x, int) and isinstance(n, int):
            if x < 0:
                x = max(0, x + n)
            return min(x, n)
        if isinstance(x, int) and x == 0:
            return 0
        if x is n or _same(x, n):
            return n
        neg = mk(x) < 0
        if neg:
            x = iadd(x, n)
            if mk(x) < 0:
                return 0
            return x
        if mk(x) > mk(n):
            return n
        return x
    a = clamp(a)
    b = clamp(b)
    ln = isub(b, a)
    if isinstance(ln, int):
        return a, max(0, ln)
    if mk(ln) < 0:
        return a, 0
    return a, ln


class VcSeqBase(object):
    """common behaviour; self.s is a Seq"""
    _what = 'index out of range'

    def _len(self):
        return mk(self.s.n, 0)

    def __len__(self):
        n = self.s.n
        if isinstance(n, int):
            return n
        raise Unsupported('len() of symbolic length through the C API')

    def _vc_truth(self):
        c = self._len() > 0
        return c if isinstance(c, bool) else c.c

    def __bool__(self):
        c = self._len() > 0
        return c if isinstance(c, bool) else bool(c)

    def __iter__(self):
        if not isinstance(self.s.n, int):
            raise Unsupported('iteration over a sequence of symbolic length')
        return self._iter()

    def _iter(self):
        i = 0
        while i < self.s.n:
            yield self.s.get(i)
            i += 1

    def _wrap(self, s):
        return type(self)(s)

    def __getitem__(self, i):
        if isinstance(i, slice):
            r = norm_slice(i, self.s.n)
            if r is None:
                return self._wrap(Conc(self.s.items()[i]))
            return self._wrap(sl(self.s, r[0], r[1]))
        if not isinstance(i, (int, VcInt, VcBool)):
            raise TypeError('indices must be integers or slices')
        return self.s.get(norm_index(i, self.s.n, self._what))

    def __eq__(self, o):
        if not self._kin(o):
            return False
        return seq_eq(self.s, to_seq(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return core.bnot(r) if isinstance(r, (bool, VcBool)) else r

    def __hash__(self):
        if isinstance(self.s.n, int) and all(not is_sym(x) for x in self.s.items()):
            return hash(tuple(self.s.items()))
        raise Unsupported('hash of symbolic sequence')

    def __contains__(self, x):
        if not isinstance(self.s.n, int):
            raise Unsupported('membership in a sequence of symbolic length')
        for y in self.s.items():
            if y is x or bool(y == x):
                return True
        return False

    def __mul__(self, k):
        if isinstance(k, int):
            return self._wrap(Conc(self.s.items() * k)) if self.s.conc() else self._sym_mul(k)
        if isinstance(k, VcInt):
            return self._sym_mul(k)
        return NotImplemented
    __rmul__ = __mul__

    def _sym_mul(self, k):
        if not self.s.conc():
            raise Unsupported('repetition of a symbolic sequence')
        if k <= 0:
            return self._wrap(Conc([]))
        if self.s.n == 1:
            v = self.s.get(0)
            return self._wrap(Fn(ival(k), lambda i: v))
        items = self.s.items()
        m = len(items)
        return self._wrap(Fn(ival(k * m), lambda i: table_get(items, ival(mk(i) % m))))

    def index(self, x, *a):
        for k, y in enumerate(self.s.items()):
            if y is x or bool(y == x):
                return k
        raise ValueError('not in sequence')

    def count(self, x):
        return sum(1 for y in self.s.items() if y is x or bool(y == x))

    def __repr__(self):
        return '%s(n=%s)' % (type(self).__name__, self.s.n)

    def concretise(self, model):
        n = core.concrete(self._len(), model)
        if n > 70000:
            raise Unsupported('model too large')
        return [core.concrete(self.s.get(i), model) for i in range(n)]

    def size_term(self):
        return self.s.n


def seq_eq(a, b):
    if a is b:
        return True
    ne = mk(a.n) == mk(b.n)
    if isinstance(a.n, int) and isinstance(b.n, int):
        if a.n != b.n:
            return False
        r = True
        for k in range(a.n):
            c = a.get(k) == b.get(k)
            r = c if r is True else (mkbool(z3.And(zb(cond(r)), zb(cond(c)))))
            if r is False:
                return False
        return r
    if isinstance(ne, bool):
        if not ne:
            return False
    elif not bool(ne):
        return False
    n = a.n if isinstance(a.n, int) else b.n
    if isinstance(n, int):
        return seq_eq(sl(a, 0, n) if not isinstance(a.n, int) else a, sl(b, 0, n) if not isinstance(b.n, int) else b)
    if structurally_equal(a, b):
        return True
    # decide by fork: either equal everywhere (proved) or differ at a witness
    e = E()
    j = e.fresh_int('eqidx', 0)
    inr = z3.And(j.i >= 0, j.i < zi(mk(a.n)))
    same = zb(cond(a.get(j.i) == b.get(j.i)))
    if e._check(inr, z3.Not(same)) == z3.unsat:
        return True
    # a fork "differ" is sound for the False branch; the True branch cannot be expressed without a quantifier
    if e.choice(2) == 0:
        e.assume(z3.And(inr, z3.Not(same)))
        if not e.feasible():
            raise PathEnd()
        return False
    x = z3.Int('allidx!%d' % e.fresh_n)
    e.assume(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < zi(mk(a.n))), zb(cond(a.get(x) == b.get(x))))))
    return True


def structurally_equal(a, b):
    if a is b:
        return True
    if isinstance(a, Slice) and isinstance(b, Slice) and a.base is b.base:
        return _same(a.a, b.a) and _same(a.n, b.n)
    if isinstance(a, Cat) and isinstance(b, Cat) and len(a.p) == len(b.p):
        return all(_same(x.n, y.n) and (structurally_equal(x, y) or
                   (isinstance(x, Conc) and isinstance(y, Conc) and all(p is q or (not is_sym(p) and not is_sym(q) and p == q)
                    or (isinstance(p, VcInt) and isinstance(q, VcInt) and E().quick_valid(p == q)) for p, q in zip(x.v, y.v))))
                   for x, y in zip(a.p, b.p))
    return False


def provably_equal(a, b):
    """True when the sequences are provably equal under the path condition (used for congruence of contracts)"""
    if not E().quick_valid(zi(mk(a.n)) == zi(mk(b.n))):
        return False
    if structurally_equal(a, b):
        return True
    if isinstance(a.n, int) and isinstance(b.n, int):
        for k in range(a.n):
            if not E().quick_valid(cond(a.get(k) == b.get(k))):
                return False
        return True
    e = E()
    e.fresh_n += 1
    j = z3.Int('cong!%d' % e.fresh_n)
    same = zb(cond(a.get(j) == b.get(j)))
    inr = z3.And(j >= 0, j < zi(mk(a.n)))
    return e._check(inr, z3.Not(same)) == z3.unsat


class VcBytes(VcSeqBase):
    _what = 'index out of range'

    def __init__(self, s):
        self.s = s

    def _kin(self, o):
        return isinstance(o, (bytes, bytearray, VcBytes, VcBytearray))

    def __add__(self, o):
        if not self._kin(o):
            if isinstance(o, str):
                raise TypeError("can't concat str to bytes")
            return NotImplemented
        return VcBytes(cat(self.s, to_seq(o)))

    def __radd__(self, o):
        if isinstance(o, bytearray):
            return VcBytearray(cat(to_seq(o), self.s))
        if isinstance(o, bytes):
            return VcBytes(cat(to_seq(o), self.s))
        if isinstance(o, str):
            raise TypeError('can only concatenate str (not "bytes") to str')
        return NotImplemented

    def join(self, it):
        from . import shims
        return shims.bytes_join(self, it)

    def hex(self):
        return token('hex', self)

    def __str__(self):
        return token('bytes', self)

    def __format__(self, spec):
        return token('bytes', self)

    def __mod__(self, o):
        raise Unsupported('bytes formatting')

    def startswith(self, p):
        p = to_seq(p)
        if not bool(self._len() >= mk(p.n)):
            return False
        return seq_eq(sl(self.s, 0, p.n), p)

    def endswith(self, p):
        p = to_seq(p)
        if not bool(self._len() >= mk(p.n)):
            return False
        return seq_eq(sl(self.s, isub(self.s.n, p.n), p.n), p)

    def decode(self, *a):
        if isinstance(self.s.n, int) and all(isinstance(x, int) for x in self.s.items()):
            return bytes(self.s.items()).decode(*a)
        raise Unsupported('decode of symbolic bytes')


class VcBytearray(VcBytes):
    def __add__(self, o):
        if not self._kin(o):
            if isinstance(o, str):
                raise TypeError("can't concat str to bytearray")
            return NotImplemented
        return VcBytearray(cat(self.s, to_seq(o)))

    def __iadd__(self, o):
        if not self._kin(o):
            if isinstance(o, str):
                raise TypeError("can't concat str to bytearray")
            o = VcBytes(Conc([_byteval(x) for x in to_seq(o).items()]))
        self.s = cat(self.s, to_seq(o))
        return self

    def __hash__(self):
        raise TypeError('unhashable type: bytearray')

    def extend(self, o):
        self.__iadd__(o)

    def append(self, v):
        self.s = cat(self.s, Conc([_byteval(v)]))

    def clear(self):
        self.s = Conc([])

    def copy(self):
        return VcBytearray(self.s)

    def __setitem__(self, i, v):
        _setitem(self, i, v, True)

    def __delitem__(self, i):
        _delitem(self, i)

    def pop(self, i=-1):
        j = norm_index(i, self.s.n, 'pop index out of range')
        v = self.s.get(j)
        _delitem(self, mk(j))
        return v


def _byteval(v):
    if not isinstance(v, (int, VcInt)):
        raise TypeError('an integer is required')
    ok = (v >= 0) & (v < 256) if isinstance(v, VcInt) else 0 <= v < 256
    if not ok:
        raise ValueError('byte must be in range(0, 256)')
    return v


def _setitem(self, i, v, isbyte=False):
    if isinstance(i, slice):
        r = norm_slice(i, self.s.n)
        vs = to_seq(v) if not hasattr(v, '__next__') else Conc(list(v))
        if r is None:
            tmp = self.s.items()
            tmp[i] = vs.items()
            self.s = Conc(tmp)
            return
        a, n = r
        end = iadd(a, n)
        tail = isub(self.s.n, end)
        self.s = cat(cat(sl(self.s, 0, a), _snap(vs)), sl(self.s, end, tail))
        return
    if not isinstance(i, (int, VcInt, VcBool)):
        raise TypeError('indices must be integers or slices')
    j = norm_index(i, self.s.n, 'list assignment index out of range')
    if isbyte:
        v = _byteval(v)
    if isinstance(self.s, Conc) and isinstance(j, int):
        vv = list(self.s.v)
        vv[j] = v
        self.s = Conc(vv)
    else:
        self.s = Upd(self.s, j, v)


def _snap(s):
    return s


def _delitem(self, i):
    if isinstance(i, slice):
        r = norm_slice(i, self.s.n)
        if r is None:
            raise Unsupported('del with step')
        a, n = r
    else:
        a, n = norm_index(i, self.s.n, 'list assignment index out of range'), 1
    end = iadd(a, n)
    self.s = cat(sl(self.s, 0, a), sl(self.s, end, isub(self.s.n, end)))


class VcTuple(VcSeqBase):
    _what = 'tuple index out of range'

    def __init__(self, s):
        self.s = s

    def _kin(self, o):
        return isinstance(o, (tuple, VcTuple))

    def __add__(self, o):
        if not self._kin(o):
            return NotImplemented
        return VcTuple(cat(self.s, to_seq(o)))

    def __radd__(self, o):
        if not self._kin(o):
            return NotImplemented
        return VcTuple(cat(to_seq(o), self.s))

    def _wrap(self, s):
        return mktuple(s)


def mktuple(s):
    if isinstance(s.n, int):
        return tuple(s.items())
    return VcTuple(s)


class VcList(VcSeqBase):
    _what = 'list index out of range'

    def __init__(self, s):
        self.s = s if isinstance(s, Seq) else Conc(list(s))

    def _kin(self, o):
        return isinstance(o, (list, VcList))

    def __hash__(self):
        raise TypeError('unhashable type: list')

    def __add__(self, o):
        if not self._kin(o):
            return NotImplemented
        return VcList(cat(self.s, to_seq(o)))

    def __radd__(self, o):
        if not self._kin(o):
            return NotImplemented
        return VcList(cat(to_seq(o), self.s))

    def __iadd__(self, o):
        self.extend(o)
        return self

    def append(self, v):
        self.s = cat(self.s, Conc([v]))

    def extend(self, o):
        if isinstance(o, (VcSeqBase, bytes, bytearray, list, tuple, range, VcRange)):
            self.s = cat(self.s, to_seq(o))
        else:
            from . import shims
            self.s = cat(self.s, to_seq(shims.to_list(o)))

    def insert(self, i, v):
        n = self.s.n
        i = ival(i)
        if isinstance(i, int) and isinstance(n, int):
            vv = self.s.items()
            vv.insert(i, v)
            self.s = Conc(vv)
            return
        if mk(i) < 0:
            i = iadd(i, n)
            if mk(i) < 0:
                i = 0
        if mk(i) > mk(n):
            i = n
        self.s = cat(cat(sl(self.s, 0, i), Conc([v])), sl(self.s, i, isub(n, i)))

    def pop(self, i=-1):
        j = norm_index(i, self.s.n, 'pop index out of range')
        v = self.s.get(j)
        _delitem(self, mk(j))
        return v

    def remove(self, x):
        from . import loops
        if self.s.conc():
            for k, y in enumerate(self.s.items()):
                if y is x or bool(y == x):
                    vv = self.s.items()
                    del vv[k]
                    self.s = Conc(vv)
                    return
            raise ValueError('list.remove(x): x not in list')
        idx = find_identity(self.s, x)
        if idx is None:
            raise Unsupported('remove from a symbolic list')
        _delitem(self, mk(idx))

    def clear(self):
        self.s = Conc([])

    def copy(self):
        return VcList(self.s)

    def reverse(self):
        self.s = Conc(self.s.items()[::-1])

    def sort(self, key=None, reverse=False):
        raise Unsupported('sort')

    def __setitem__(self, i, v):
        _setitem(self, i, v)

    def __delitem__(self, i):
        _delitem(self, i)

    def __lt__(self, o):
        raise Unsupported('list order')


def find_identity(s, x):
    """index at which object x sits in a symbolic object sequence, when that is known"""
    if type(x).__eq__ is not object.__eq__:
        return None
    if isinstance(s, Conc):
        for k, y in enumerate(s.v):
            if y is x:
                return k
    if isinstance(s, Cat):
        off = 0
        for q in s.p:
            k = find_identity(q, x)
            if k is not None:
                return iadd(off, k)
            off = iadd(off, q.n)
        return None
    f = getattr(s, 'index_of', None)
    return f(x) if f else None


class ObjSeq(Seq):
    """sequence of objects of symbolic length; element objects are created on demand, one per distinct index"""
    def __init__(self, n, make, relate=None):
        self.n = n
        self.make = make        # make(index term, serial) -> object
        self.relate = relate    # relate(i, obj_i, j, obj_j): facts for a pair
        self.known = []         # (index, obj)

    def get(self, i):
        for (j, o) in self.known:
            c = mk(i) == mk(j)
            if isinstance(c, bool):
                if c:
                    return o
                continue
            if bool(c):
                return o
        o = self.make(i, len(self.known))
        for (j, p) in self.known:
            if self.relate:
                self.relate(i, o, j, p)
        self.known.append((i, o))
        e = E()
        if e is not None and not isinstance(o, (int, VcInt, VcBool, str, bytes, type(None))):
            from . import loops
            e.born.append((o, loops.snapshot({'o': o}, (), None)))
        return o

    def index_of(self, x):
        for (j, o) in self.known:
            if o is x:
                return j
        return None


class VcRange(object):
    def __init__(self, a, b, st=1):
        self.a, self.b, self.st = a, b, st
        if not isinstance(st, int) or st == 0:
            raise Unsupported('range step')
        n = (b - a) if st == 1 else ((b - a + (st - 1)) // st if st > 0 else (a - b + (-st - 1)) // (-st))
        if n <= 0:
            n = 0
        self.s = Fn(ival(n), lambda i: self.at(mk(i)))

    def at(self, i):
        lo = None
        r = self.a + i * self.st
        if isinstance(r, VcInt) and r.lo is None and isinstance(self.a, int) and self.st > 0:
            r.lo = self.a
        return r

    def _len(self):
        return mk(self.s.n, 0)

    def __len__(self):
        return VcSeqBase.__len__(self)

    def __iter__(self):
        if not isinstance(self.s.n, int):
            raise Unsupported('iteration over a symbolic range outside an instrumented loop')
        return iter(self.s.items())

    def __bool__(self):
        c = self._len() > 0
        return c if isinstance(c, bool) else bool(c)

    def __getitem__(self, i):
        return self.s.get(norm_index(i, self.s.n, 'range object index out of range'))

    def __contains__(self, x):
        if self.st == 1:
            return bool((x >= self.a) & (x < self.b)) if is_sym(x) or is_sym(self.a) or is_sym(self.b) else self.a <= x < self.b
        raise Unsupported('membership in a stepped symbolic range')


def ite_hook(c, a, b):
    ba, bb = isinstance(a, (bytes, VcBytes)) and not isinstance(a, VcBytearray), isinstance(b, (bytes, VcBytes)) and not isinstance(b, VcBytearray)
    if ba and bb:
        x, y = to_seq(a), to_seq(b)
        if isinstance(x.n, int) and isinstance(y.n, int) and x.n == y.n:
            return VcBytes(Conc([vite(c, p, q) for p, q in zip(x.items(), y.items())]))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(_num2(x) for x in a + b):
        return tuple(vite(c, p, q) for p, q in zip(a, b))
    return None


# ------------------------------------------------------------------------------------------------ dictionaries
_MISS = object()
_TOMB = object()


class VcDict(object):
    """insertion-ordered dictionary whose keys may be symbolic integers; optional arbitrary initial map (base)"""
    def __init__(self, items=(), base=None):
        self.e = []             # [key, value]
        self.base = base
        for k, v in items:
            self[k] = v

    def _find(self, k):
        """entry index or None (forks on symbolic equality)"""
        if isinstance(k, VcBool):
            k = k._int()
        if isinstance(k, (VcList, VcDict)):
            raise TypeError("unhashable type")
        if not is_sym(k):
            hash(k) if not isinstance(k, VcSeqBase) else None
            for idx, (q, v) in enumerate(self.e):
                if has_token(k) or has_token(q):
                    if isinstance(q, str) and isinstance(k, str) and text_eq(q, k):
                        return idx
                    continue
                if not is_sym(q) and (q is k or (type(q) is type(k) and q == k) or (not isinstance(q, VcSeqBase) and q == k)):
                    return idx
        for idx, (q, v) in enumerate(self.e):
            if is_sym(k) and isinstance(q, (int, VcInt, VcBool)) or is_sym(q) and isinstance(k, (int, VcInt)):
                if bool(k == q):
                    return idx
        return None

    def _lookup(self, k):
        idx = self._find(k)
        if idx is not None:
            v = self.e[idx][1]
            return _MISS if v is _TOMB else v
        if self.base is not None:
            return self.base.lookup(k, _MISS)
        return _MISS

    def __getitem__(self, k):
        v = self._lookup(k)
        if v is _MISS:
            raise KeyError(k if not is_sym(k) else str(k))
        return v

    def get(self, k, d=None):
        v = self._lookup(k)
        return d if v is _MISS else v

    def __contains__(self, k):
        return self._lookup(k) is not _MISS

    has_key = __contains__

    def __setitem__(self, k, v):
        idx = self._find(k)
        if idx is not None:
            if self.e[idx][1] is _TOMB:
                del self.e[idx]
                self.e.append([k, v])
            else:
                self.e[idx][1] = v
        else:
            self.e.append([k, v])

    def setdefault(self, k, d=None):
        v = self._lookup(k)
        if v is _MISS:
            self[k] = d
            return d
        return v

    def popitem(self):
        if self.base is not None:
            raise Unsupported('popitem of an arbitrary map')
        if not self.e:
            raise KeyError('popitem(): dictionary is empty')
        return tuple(self.e.pop())

    def pop(self, k, *d):
        v = self._lookup(k)
        if v is _MISS:
            if d:
                return d[0]
            raise KeyError(k if not is_sym(k) else str(k))
        idx = self._find(k)
        if self.base is not None:
            if idx is not None:
                self.e[idx][1] = _TOMB
            else:
                self.e.append([k, _TOMB])
        else:
            del self.e[idx]
        return v

    def __delitem__(self, k):
        self.pop(k)

    def clear(self):
        self.e = []
        self.base = None

    def _live(self):
        if self.base is not None:
            raise Unsupported('iteration over an arbitrary map outside an instrumented loop')
        return [(k, v) for k, v in self.e]

    def __iter__(self):
        if self.base is not None:
            raise Unsupported('iteration over an arbitrary map outside an instrumented loop')
        keys = [k for k, v in self.e]
        n = len(self.e)
        for k in keys:
            if len(self.e) != n:
                raise RuntimeError('dictionary changed size during iteration')
            yield k

    def keyseq(self, what='k'):
        """Seq of keys/values/items for instrumented loops"""
        if self.base is None:
            return Conc([{'k': k, 'v': v, 'i': (k, v)}[what] for k, v in self.e])
        if any(True for x in self.e):
            raise Unsupported('iteration over a modified arbitrary map')
        b = self.base
        if what == 'k':
            return b.keys
        if what == 'v':
            return b.vals
        return Fn(b.keys.n, lambda i: (b.keys.get(i), b.vals.get(i)))

    def keys(self):
        return VcView(self, 'k')

    def values(self):
        return VcView(self, 'v')

    def items(self):
        return VcView(self, 'i')

    iterkeys, itervalues, iteritems = keys, values, items

    def update(self, o=(), **kw):
        it = o.items() if hasattr(o, 'items') else o
        for k, v in it:
            self[k] = v
        for k, v in kw.items():
            self[k] = v

    def copy(self):
        d = VcDict(base=self.base)
        d.e = [list(x) for x in self.e]
        return d

    def _len(self):
        if self.base is not None:
            if self.e:
                raise Unsupported('len of a modified arbitrary map')
            return mk(self.base.keys.n, 0)
        return len(self.e)

    def __len__(self):
        n = self._len()
        if isinstance(n, int):
            return n
        raise Unsupported('len of an arbitrary map')

    def __bool__(self):
        c = self._len() > 0
        return c if isinstance(c, bool) else bool(c)

    def __eq__(self, o):
        if self is not o and isinstance(o, (dict, VcDict)):
            raise Unsupported('comparison of dictionaries')
        return self is o

    def __hash__(self):
        raise TypeError('unhashable type: dict')

    def __repr__(self):
        return 'VcDict(%d)' % len(self.e)


class VcView(object):
    def __init__(self, d, what):
        self.d, self.what = d, what

    @property
    def s(self):
        return self.d.keyseq(self.what)

    def _len(self):
        return self.d._len()

    def __len__(self):
        return len(self.d)

    def __iter__(self):
        live = self.d._live()
        n = len(live)
        for k, v in live:
            if len(self.d.e) != n:
                raise RuntimeError('dictionary changed size during iteration')
            yield {'k': k, 'v': v, 'i': (k, v)}[self.what]

    def __contains__(self, x):
        if self.what == 'k':
            return x in self.d
        return any(y is x or bool(y == x) for y in self)


class BaseMap(object):
    """arbitrary finite map from integers to objects, materialised on demand"""
    def __init__(self, name, make_val, key_facts=None):
        e = E()
        self.name = name
        n = e.fresh_int(name + '.n', 0)
        f = z3.Function('%s.key!%d' % (name, e.fresh_n), z3.IntSort(), z3.IntSort())
        self.f = f
        self.absent = []
        self.key_facts = key_facts

        def make(i, serial):
            return make_val(mk(i), VcInt(f(zi(mk(i)))))

        def relate(i, o, j, p):
            E().fact(f(zi(mk(i))) != f(zi(mk(j))))

        self.vals = ObjSeq(n.i, make, relate)

        def key(i):
            t = VcInt(f(zi(mk(i))))
            if key_facts:
                e.fact(key_facts(t))
            for a in self.absent:
                e.fact(t.i != zi(a))
            # keys of different positions differ
            for (j, o) in self.vals.known:
                e.fact(z3.Implies(zi(mk(i)) != zi(mk(j)), t.i != f(zi(mk(j)))))
            return t
        self.keys = Fn(n.i, key)

    def lookup(self, k, miss):
        e = E()
        if not isinstance(k, (int, VcInt)):
            return miss
        # known keys first
        for (j, o) in list(self.vals.known):
            if bool(VcInt(self.f(zi(mk(j)))) == k):
                return o
        if e.choice(2) == 1:
            self.absent.append(k)
            for (j, o) in self.vals.known:
                e.fact(self.f(zi(mk(j))) != zi(k))
            return miss
        i = e.fresh_int(self.name + '.at', 0)
        e.assume(z3.And(i.i < self.vals.n, self.f(i.i) == zi(k)))
        for (j, o) in self.vals.known:
            e.fact(i.i != zi(mk(j)))
        for a in self.absent:
            e.assume(zi(a) != zi(k))
        if self.key_facts:
            e.assume(self.key_facts(VcInt(self.f(i.i))))
        if not e.feasible():
            raise PathEnd()
        o = self.vals.make(i.i, len(self.vals.known))
        for (j, p) in self.vals.known:
            self.vals.relate(i.i, o, j, p)
        self.vals.known.append((i.i, o))
        return o
