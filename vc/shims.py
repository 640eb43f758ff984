"""Stand-ins for builtins and library modules seen by the code under verification (the trusted base)."""
import builtins, functools, struct as _struct, logging as _logging, sys as _sys, z3
from . import core, seq
from .real import VcFloat
from .core import VcInt, VcBool, Unsupported, PathEnd, Control, ival, mk, zi, mkbool, vite, is_sym, cond, zb, iadd, isub
from .seq import (VcBytes, VcBytearray, VcList, VcTuple, VcDict, VcRange, VcSeqBase, Conc, Fn, Cat, to_seq, VcView,
                  has_token, split_tokens, mktuple)


def E():
    return core.ENG


# ------------------------------------------------------------------------------------------------ builtin types
def _shim_type(name, real, extra):
    class Meta(type):
        def __instancecheck__(cls, o):
            return isinstance(o, real) or isinstance(o, extra)

        def __subclasscheck__(cls, c):
            return issubclass(c, real) or issubclass(c, extra)

        def __eq__(cls, o):
            return o is cls or o is real or (extra and o in extra)

        def __hash__(cls):
            return hash(real)

        def __getattr__(cls, k):
            return getattr(real, k)
    return Meta


class vint(object, metaclass=_shim_type('int', int, (VcInt,))):
    def __new__(cls, x=0, *a):
        if isinstance(x, VcBool):
            return x._int()
        if isinstance(x, VcInt):
            return x
        if isinstance(x, str) and has_token(x):
            t = split_tokens(x.strip())
            if len(t) == 1 and not isinstance(t[0], str) and t[0][0] == 'dec' and not a:
                return t[0][1]
            raise Unsupported('int() of a string with symbolic parts')
        return int(x, *a)

    @staticmethod
    def from_bytes(b, byteorder='big', signed=False):
        its = to_seq(b).items()
        if byteorder == 'little':
            its = its[::-1]
        v = from_be(its)
        if signed:
            v = vite(v >= (1 << (8 * len(its) - 1)), v - (1 << (8 * len(its))), v)
        return v


class vbool(object, metaclass=_shim_type('bool', bool, (VcBool,))):
    def __new__(cls, x=False):
        if isinstance(x, VcBool):
            return x
        if isinstance(x, VcInt):
            return x != 0
        return bool(x)


class vstr(object, metaclass=_shim_type('str', str, ())):
    def __new__(cls, x='', *a):
        if a:
            if isinstance(x, (VcBytes,)):
                return x.decode(*a)
            return str(x, *a)
        return str(x)


class vfloat(object, metaclass=_shim_type('float', float, ())):
    def __new__(cls, x=0.0):
        if is_sym(x):
            from . import real
            return real.to_real(x)
        return float(x)


class vbytes(object, metaclass=_shim_type('bytes', bytes, (VcBytes,))):
    def __new__(cls, x=b'', *a):
        if isinstance(x, str):
            if not a:
                raise TypeError('string argument without an encoding')
            return encode_str(x, *a)
        if isinstance(x, VcBytes):
            return VcBytes(x.s)
        if isinstance(x, VcInt):
            return seq.VcBytes(Fn(x.i, lambda i: 0)) if x >= 0 else _raise(ValueError('negative count'))
        if isinstance(x, int):
            return bytes(x)
        s = to_list(x)
        return VcBytes(Conc([seq._byteval(v) for v in to_seq(s).items()])) if to_seq(s).conc() else VcBytes(to_seq(s))

    @staticmethod
    def fromhex(s):
        return bytes.fromhex(s)


class vbytearray(object, metaclass=_shim_type('bytearray', bytearray, ())):
    def __new__(cls, x=b'', *a):
        if isinstance(x, str):
            if not a:
                raise TypeError('string argument without an encoding')
            return VcBytearray(to_seq(encode_str(x, *a)))
        if isinstance(x, VcInt):
            return VcBytearray(Fn(x.i, lambda i: 0)) if x >= 0 else _raise(ValueError('negative count'))
        if isinstance(x, int):
            return VcBytearray(Conc([0] * x))
        if isinstance(x, (bytes, bytearray, VcBytes)):
            return VcBytearray(to_seq(x))
        s = to_seq(to_list(x))
        return VcBytearray(Conc([seq._byteval(v) for v in s.items()])) if s.conc() else VcBytearray(s)


def _raise(e):
    raise e


def encode_str(x, *a):
    if has_token(x):
        raise Unsupported('encoding of a string with symbolic parts')
    return x.encode(*a)


# bytearray instances must be told apart from bytes
type(vbytearray).__instancecheck__ = lambda cls, o: isinstance(o, (bytearray, VcBytearray))
type(vbytes).__instancecheck__ = lambda cls, o: isinstance(o, bytes) or (isinstance(o, VcBytes) and not isinstance(o, VcBytearray))


class vlist(object, metaclass=_shim_type('list', list, (VcList,))):
    def __new__(cls, x=()):
        return to_list(x)


class vtuple(object, metaclass=_shim_type('tuple', tuple, (VcTuple,))):
    def __new__(cls, x=()):
        if isinstance(x, (tuple, VcTuple)):
            return x
        return mktuple(to_seq(to_list(x)))


class vdict(object, metaclass=_shim_type('dict', dict, (VcDict,))):
    def __new__(cls, x=(), **kw):
        d = mkdict([])
        d.update(x, **kw)
        return d


class vset(object, metaclass=_shim_type('set', set, ())):
    def __new__(cls, x=()):
        return VcSet(x)


class VcSet(object):
    def __init__(self, x=()):
        self.v = []
        for y in (to_seq(x).items() if not isinstance(x, (VcDict, VcView, VcSet)) and not hasattr(x, '__next__') else list(x)):
            self.add(y)

    def add(self, y):
        if y not in self:
            self.v.append(y)

    def discard(self, y):
        for k, z in enumerate(self.v):
            if z is y or bool(z == y):
                del self.v[k]
                return

    def remove(self, y):
        n = len(self.v)
        self.discard(y)
        if len(self.v) == n:
            raise KeyError(y)

    def __contains__(self, y):
        return any(z is y or bool(z == y) for z in self.v)

    def __iter__(self):
        return iter(list(self.v))

    def __eq__(self, o):
        if self is not o and isinstance(o, (set, frozenset, VcSet)):
            raise Unsupported('comparison of sets')
        return self is o

    __hash__ = None

    def __len__(self):
        return len(self.v)

    def clear(self):
        self.v = []

    def _len(self):
        return len(self.v)

    def __bool__(self):
        return bool(self.v)


def plain(x):
    """x, when its elements may be looked at one by one by native code"""
    if isinstance(x, str) and has_token(x):
        raise Unsupported('the characters of a string with symbolic parts')
    return x


def to_list(x):
    plain(x)
    if isinstance(x, VcList):
        return VcList(x.s)
    if isinstance(x, (VcSeqBase, VcRange)):
        return VcList(x.s)
    if isinstance(x, VcDict):
        return VcList(x.keyseq('k'))
    if isinstance(x, VcView):
        return VcList(x.s)
    if isinstance(x, LazyMap):
        return VcList(x.s)
    if isinstance(x, LazyFilter):
        return prelude('list_')(*symiter(x))
    return VcList(Conc(list(x)))


def mkdict(items):
    h = E().tables.get('dict_hook') if E() is not None else None
    if h is not None and not items:
        d = h()
        if d is not None:
            return d
    return VcDict(items)


# ------------------------------------------------------------------------------------------------ builtin functions
def vlen(x):
    f = getattr(x, '_len', None)
    if f is not None and not isinstance(x, type):
        return f()
    if isinstance(x, str) and has_token(x):
        n = 0
        for p in split_tokens(x):
            if isinstance(p, str):
                n = n + len(p)
            elif p[0] == 'rep':
                n = n + p[1][1] * len(p[1][0])
            else:
                # number of characters of a formatted value: not modelled beyond its lower bound
                cache = E().tables.setdefault('toklen', {})
                key = id(p)
                if key not in cache:
                    cache[key] = (p, E().fresh_int('textlen', 1 if p[0] in ('dec', 'bool', 'fmt', 'obj', 'real', 'hexint') else 0))
                n = n + cache[key][1]
        return n
    return len(x)


def vrange(*a):
    if any(is_sym(x) for x in a):
        a = [x._int() if isinstance(x, VcBool) else x for x in a]
        if len(a) == 1:
            return VcRange(0, a[0])
        return VcRange(*a)
    return range(*a)


def force(s, f=None):
    """all elements of a lazily mapped sequence of symbolic length, computed now.  Either some element raises, at an arbitrary
    place, or none does; computing an element must not change anything"""
    from . import loops
    e = E()
    rt = e.rt
    if isinstance(s.n, int):
        return Conc(s.items())
    if bool(mk(s.n) > 0):
        i = e.fresh_int('mapped', 0)
        e.fact(i.i < zi(mk(s.n)))
        if bool(e.fresh_bool('mapped.raises')):
            s.get(ival(i))
            raise PathEnd()
        loc = {'f': f}
        a = loops.snapshot(loc, (), rt.world, rt.hints.roots)
        nb = len(e.born)
        try:
            s.get(ival(i))
        except Control:
            raise
        except Exception as x:
            rt.caught(x)
            raise PathEnd()
        what = loops.modified(a, loops.snapshot(loc, (), rt.world, rt.hints.roots))
        for o, was in e.born[nb:]:
            what = what or loops.modified(was, loops.snapshot({'o': o}, (), None))
        if what:
            raise Unsupported('a mapped function has side effects: %s' % what)
        for w in rt.hints.witnesses:
            if bool(w >= 0) and bool(w < mk(s.n)):
                try:
                    s.get(ival(w))
                except Control:
                    raise
                except Exception as x:
                    rt.caught(x)
                    raise PathEnd()

    def get(i):
        try:
            return s.get(i)
        except Control:
            raise
        except Exception as x:
            e.rt.caught(x)
            if e.quick_valid(z3.And(zi(mk(i)) >= 0, zi(mk(i)) < zi(mk(s.n)))):
                raise PathEnd()
            raise Unsupported('element of a mapped sequence outside its bounds')
    return Fn(s.n, get)


class OneShot(object):
    """an iterator over a sequence of symbolic length: what remains of it after its first use is not modelled"""
    used = False

    def consume(self):
        if self.used:
            raise Unsupported('an iterator over a symbolic sequence is used again')
        self.used = True


class LazyMap(OneShot):
    """map()/enumerate()/zip() over sequences of symbolic length: `raw` as a loop sees it, `s` with all elements computed"""
    def __init__(self, raw, f=None):
        self.raw, self.f = raw, f
        self._s = None
        self.src = self.fn = None

    @property
    def s(self):
        if self._s is None:
            self.consume()
            self._s = force(self.raw, self.f) if self.f is not None else self.raw
        return self._s

    def _len(self):
        raise TypeError("object of type 'map' has no len()")

    def __iter__(self):
        return iter(self.s.items())


class LazyFilter(OneShot):
    """f(x) for x in src if keep(x), src of symbolic length"""
    def __init__(self, src, f, keep):
        self.src, self.f, self.keep = src, f, keep

    def _len(self):
        raise TypeError("object of type 'generator' has no len()")

    def __iter__(self):
        raise Unsupported('iteration over a filtered sequence of symbolic length')


class VcIter(object):
    """iter(x), x of symbolic length"""
    def __init__(self, s, of):
        self.s, self.of, self.pos = s, of, 0

    def __iter__(self):
        return self

    def __next__(self):
        if bool(mk(self.pos) < mk(self.s.n)):
            v = self.s.get(ival(self.pos))
            self.pos = self.pos + 1
            return v
        raise StopIteration

    def _len(self):
        raise TypeError("object of type 'iterator' has no len()")

    def __length_hint__(self):
        raise Unsupported('native use of an iterator over a symbolic sequence')


PRELUDE = '''
def any_(it, f):
    for x in it:
        if f(x):
            return True
    return False

def all_(it, f):
    for x in it:
        if not f(x):
            return False
    return True

def next_(it, f):
    for x in it:
        return (f(x),)
    return None

def reduce_(fn, it, f, acc):
    for x in it:
        acc = fn(acc, f(x))
    return acc

def list_(it, f):
    out = []
    for x in it:
        out.append(f(x))
    return out
'''


def prelude(name):
    """helpers of the standard library in Python, transformed like the code under verification: their loops are cut"""
    rt = E().rt
    d = rt.__dict__.get('prelude')
    if d is None:
        from . import transform
        d = rt.prelude = {'__vc__': rt, '__builtins__': builtin_table()}
        exec(transform.transform(PRELUDE, 'prelude', '<prelude>'), d)
    return d[name]


def _same(x):
    return x


def symiter(x):
    """(iterable for a prelude helper, function to apply) when x has a symbolic number of elements, else None"""
    plain(x)
    if isinstance(x, VcDict) and x.base is not None:
        return LazyMap(x.keyseq('k')), _same
    if isinstance(x, LazyFilter):
        x.consume()
        return LazyFilter(x.src, _same, x.keep), x.f
    if _symseq(x):
        if isinstance(x, LazyMap):
            x.consume()
            return LazyMap(x.src if x.src is not None else x.raw, None), x.fn if x.src is not None else _same
        return LazyMap(x.s), _same
    return None


def few(s, limit=8):
    """the elements of a sequence with a symbolic but small number of elements (by cases), else None"""
    if isinstance(s.n, int):
        return s.items()
    e = E()
    if not e.quick_valid(zi(mk(s.n)) <= limit):
        return None
    k = 0
    while k < limit and not bool(mk(s.n) == k):
        k += 1
    return [s.get(i) for i in range(k)]


def vnext(x, *d):
    p = symiter(x)
    if p is None:
        if not isinstance(x, VcIter) and any(l.phase in ('step', 'replay') for l in E().path_loops) and type(x).__name__ not in ('list_iterator', 'tuple_iterator', 'count'):
            raise Unsupported('an iterator is advanced in a loop')
        return next(x, *d)
    r = prelude('next_')(*p)
    if r is None:
        if d:
            return d[0]
        raise StopIteration
    return r[0]


def vreduce(fn, x, *init):
    p = symiter(x)
    if p is None:
        return functools.reduce(fn, x, *init)
    if not init:
        raise Unsupported('reduce without initial value over a symbolic sequence')
    return prelude('reduce_')(fn, p[0], p[1], init[0])


def _symseq(x):
    return isinstance(x, (VcSeqBase, VcRange, VcView, LazyMap)) and not isinstance(raw(x).n, int)


def raw(x):
    return x.raw if isinstance(x, LazyMap) else x.s


def lazy(x):
    return x.f if isinstance(x, LazyMap) else None


def vmap(f, *its):
    for x in its:
        plain(x)
    if any(isinstance(x, LazyFilter) for x in its):
        if len(its) > 1:
            raise Unsupported('map over several symbolic sequences')
        x = its[0]
        x.consume()
        return LazyFilter(x.src, lambda v: f(x.f(v)), x.keep)
    if any(_symseq(x) for x in its):
        if len(its) == 1:
            s = raw(its[0])
            r = LazyMap(Fn(s.n, lambda i: f(s.get(i))), (f, lazy(its[0])))
            r.src, r.fn = s, f
            return r
        raise Unsupported('map over several symbolic sequences')
    return map(f, *its)


def venumerate(x, start=0):
    plain(x)
    if _symseq(x):
        s = raw(x)
        return LazyMap(Fn(s.n, lambda i: (mk(i) + start, s.get(i))), lazy(x))
    return enumerate(x, start)


def vzip(*its):
    for x in its:
        plain(x)
    if any(_symseq(x) for x in its):
        ss = [raw(x) if isinstance(x, (VcRange, LazyMap, VcView)) else to_seq(x) for x in its]
        n = ss[0].n
        for s in ss[1:]:
            if not seq._same(s.n, n):
                n = ival(vmin(mk(n), mk(s.n)))
        return LazyMap(Fn(n, lambda i: tuple(s.get(i) for s in ss)), tuple(lazy(x) for x in its) if any(lazy(x) for x in its) else None)
    return zip(*its)


def vreversed(x):
    plain(x)
    if _symseq(x):
        s = x.s
        return LazyMap(Fn(s.n, lambda i: s.get(isub(isub(s.n, 1), i))))
    if isinstance(x, (VcSeqBase, VcRange)):
        return iter(x.s.items()[::-1])
    return reversed(x)


def _symsum(x, start):
    flt = isinstance(x, LazyFilter)
    s = x.src if flt else raw(x)
    if not isinstance(x, VcView):
        v = few(s)
        if v is not None:
            if isinstance(x, OneShot):
                x.consume()
            r = start
            for y in v:
                if flt:
                    r = E().rt.ifexp(x.keep(y), lambda r=r, y=y: r + x.f(y), lambda r=r: r)
                else:
                    r = r + y
            return r
    p = symiter(x)
    return prelude('reduce_')(lambda a, b: a + b, p[0], p[1], start)


def vsum(x, start=0):
    if _symseq(x) or isinstance(x, LazyFilter):
        return _symsum(x, start)
    r = start
    for y in x:
        r = r + y
    return r


def vmin(*a, **kw):
    return _mm(a, kw, lambda x, y: x < y)


def vmax(*a, **kw):
    return _mm(a, kw, lambda x, y: x > y)


def _mm(a, kw, better):
    if len(a) == 1:
        a = list(plain(a[0]))
        if not a and 'default' in kw:
            return kw['default']
        if not a:
            raise ValueError('arg is an empty sequence')
    key = kw.get('key') or (lambda v: v)
    r = a[0]
    for y in a[1:]:
        r = vite(better(key(y), key(r)), y, r)
    return r


def vany(x):
    p = symiter(x)
    if p is not None:
        return prelude('any_')(*p)
    for y in x:
        if y:
            return True
    return False


def vall(x):
    p = symiter(x)
    if p is not None:
        return prelude('all_')(*p)
    for y in x:
        if not y:
            return False
    return True


def vord(c):
    if isinstance(c, VcBytes):
        return c[0]
    return ord(c)


def vchr(c):
    if is_sym(c):
        raise Unsupported('chr of symbolic value')
    return chr(c)


def vsorted(x, **kw):
    plain(x)
    if _symseq(x):
        raise Unsupported('sorted of a symbolic sequence')
    if isinstance(x, VcDict):
        x = list(x)
    v = list(x)
    if any(is_sym(y) for y in v) or kw:
        key = kw.get('key') or (lambda z: z)
        out = []
        for y in v:
            k = 0
            while k < len(out) and not bool(key(y) < key(out[k])):
                k += 1
            out.insert(k, y)
        if kw.get('reverse'):
            out.reverse()
        return VcList(Conc(out))
    return VcList(Conc(sorted(v, **kw)))


def vdivmod(a, b):
    return (a // b, a % b)


def vpow(a, b, *m):
    return pow(a, b, *m)


def vabs(a):
    return abs(a)


def vround(a, *b):
    return round(a, *b)


def vhash(x):
    return hash(x)


def vid(x):
    return id(x)


def vtype(*a):
    if len(a) == 1:
        m = {VcInt: vint, VcBool: vbool, VcBytes: vbytes, VcBytearray: vbytearray, VcList: vlist, VcTuple: vtuple, VcDict: vdict,
             int: vint, bool: vbool, bytes: vbytes, list: vlist, tuple: vtuple, str: vstr, dict: vdict}
        t = type(a[0])
        return m.get(t, t)
    return type(*a)


def vhex(x):
    if is_sym(x):
        return seq.token('hexint', x)
    return hex(x)


def vbin(x):
    if is_sym(x):
        raise Unsupported('bin of symbolic value')
    return bin(x)


def vrepr(x):
    return str(x) if is_sym(x) else repr(x)


def visinstance(o, t):
    return isinstance(o, t)


def vcallable(o):
    return callable(o)


def viter(x, *a):
    plain(x)
    if a:
        return iter(x, *a)
    if isinstance(x, (LazyMap, LazyFilter)):
        return x
    if _symseq(x):
        return VcIter(x.s, x)
    return iter(x)


def vformat(x, spec=''):
    return format(x, spec)


def vfilter(f, x):
    plain(x)
    if f is None:
        f = _same
    if isinstance(x, LazyFilter):
        x.consume()
        return LazyFilter(x.src, x.f, lambda v: x.keep(v) and f(x.f(v)))
    if isinstance(x, VcDict) and x.base is not None:
        x = LazyMap(x.keyseq('k'))
    if _symseq(x):
        if isinstance(x, LazyMap):
            x.consume()
        return LazyFilter(raw(x), _same, f)
    return filter(f, x)


def vmemoryview(x):
    raise Unsupported('memoryview')


def builtin_table():
    b = dict(vars(builtins))
    b.update(int=vint, bool=vbool, str=vstr, float=vfloat, bytes=vbytes, bytearray=vbytearray, list=vlist, tuple=vtuple,
             dict=vdict, set=vset, frozenset=vset, len=vlen, range=vrange, map=vmap, enumerate=venumerate, zip=vzip,
             reversed=vreversed, sum=vsum, min=vmin, max=vmax, any=vany, all=vall, ord=vord, chr=vchr, sorted=vsorted,
             divmod=vdivmod, type=vtype, hex=vhex, bin=vbin, repr=vrepr, iter=viter, filter=vfilter, memoryview=vmemoryview, next=vnext,
             print=lambda *a, **k: None)
    return b


class OrderedDict(VcDict):
    """collections.OrderedDict"""
    def __init__(self, *a, **k):
        VcDict.__init__(self)
        self.update(*a, **k)


class defaultdict(VcDict):
    """collections.defaultdict"""
    def __init__(self, default_factory=None, *a, **k):
        VcDict.__init__(self)
        self.default_factory = default_factory
        self.update(*a, **k)

    def __getitem__(self, k):
        v = self._lookup(k)
        if v is seq._MISS:
            if self.default_factory is None:
                raise KeyError(k if not is_sym(k) else str(k))
            v = self[k] = self.default_factory()
        return v


# ------------------------------------------------------------------------------------------------ struct
class StarSeq(object):
    """a *-argument of symbolic length"""
    def __init__(self, s):
        self.s = s


SZ = {'B': 1, 'b': 1, 'H': 2, 'h': 2, 'I': 4, 'i': 4, 'L': 4, 'l': 4, 'Q': 8, 'q': 8, '?': 1, 'c': 1, 'x': 1, 'e': 2, 'f': 4, 'd': 8}


def parse_fmt(fmt):
    if isinstance(fmt, (bytes, VcBytes)):
        fmt = bytes(to_seq(fmt).items()).decode()
    if not isinstance(fmt, str):
        raise TypeError('Struct() argument 1 must be a str or bytes object')
    parts = split_tokens(fmt) if has_token(fmt) else [fmt]
    order = '@'
    out = []            # (count, code)
    first = True
    pend = None
    for p in parts:
        if isinstance(p, str):
            for ch in p:
                if first and ch in '@=<>!':
                    order = ch
                    first = False
                    continue
                first = False
                if ch.isspace():
                    continue
                if ch.isdigit():
                    pend = (pend or 0) * 10 + int(ch)
                    continue
                if ch not in SZ:
                    if ch in 'sp' + 'nNPF':
                        raise Unsupported('struct code %s' % ch)
                    raise _struct.error('bad char in struct format')
                n = 1 if pend is None else pend
                pend = None
                if ch == 'c':
                    raise Unsupported('struct code c')
                if out and out[-1][1] == ch and isinstance(out[-1][0], int) and isinstance(n, int):
                    out[-1] = (out[-1][0] + n, ch)
                else:
                    out.append((n, ch))
        else:
            first = False
            if p[0] == 'rep':
                s, n = p[1]
                if len(s) != 1 or s not in SZ:
                    raise Unsupported('repeated struct format %r' % s)
                if pend is not None:
                    raise Unsupported('struct count before repetition')
                out.append((n, s))
            elif p[0] == 'dec':
                if pend is not None:
                    raise Unsupported('struct count')
                pend = p[1]
            else:
                raise Unsupported('struct format with symbolic part')
    if pend is not None:
        raise _struct.error('repeat count given without format specifier')
    if order in '@' and any(SZ[c] > 1 for _, c in out):
        # native alignment: only supported when trivially aligned
        raise Unsupported('native struct alignment')
    return order, out


def fmt_size(items):
    n = 0
    for c, code in items:
        n = n + c * SZ[code]
    return n


def nvals(items):
    n = 0
    for c, code in items:
        if code != 'x':
            n = n + c
    return n


def to_be(v, code):
    """bytes (big endian) of one packed item; raises struct.error when out of range"""
    sz = SZ[code]
    if code == '?':
        return [vite(cond2(v), 1, 0)]
    if code in 'efd':
        if isinstance(v, VcFloat) and v.code == code:
            return [core.byte_of(v.w, 8 * (sz - 1 - j)) for j in range(sz)]
        if isinstance(v, (int, float)):
            return list(_struct.pack('>' + code, v))
        if isinstance(v, (VcFloat, VcInt, VcBool)):
            raise Unsupported('packing as a float')
        raise _struct.error('required argument is not a float')
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, VcBool):
        v = v._int()
    if not isinstance(v, (int, VcInt)):
        raise _struct.error('required argument is not an integer')
    signed = code in 'bhilq'
    lo, hi = (-(1 << (8 * sz - 1)), (1 << (8 * sz - 1)) - 1) if signed else (0, (1 << (8 * sz)) - 1)
    if isinstance(v, int):
        if not lo <= v <= hi:
            raise _struct.error("'%s' format requires %d <= number <= %d" % (code, lo, hi))
    else:
        ok = (v >= lo) & (v <= hi)
        if not ok:
            raise _struct.error("'%s' format requires %d <= number <= %d" % (code, lo, hi))
        v = narrowed(v, lo, hi)
    if signed:
        if isinstance(v, int):
            v = v & ((1 << (8 * sz)) - 1)
        elif v.b is not None and v.t is None:
            v = core.mkbv(v.sbv(8 * sz), False, 0, (1 << (8 * sz)) - 1) if (v.lo < 0) else v
        elif v.lo < 0:
            v = vite(v < 0, v + (1 << (8 * sz)), v)
            if isinstance(v, VcInt):
                v = VcInt(v.t, v.b, 0, (1 << (8 * sz)) - 1, v.sg)
    if sz == 1:
        return [v]
    return [core.byte_of(v, 8 * (sz - 1 - j)) for j in range(sz)]


def narrowed(v, lo, hi):
    """the same value with interval narrowed to facts just established on this path"""
    nlo = lo if v.lo is None else max(v.lo, lo)
    nhi = hi if v.hi is None else min(v.hi, hi)
    if v.b is not None and v.t is None:
        w, sg = core.width_for(nlo, nhi)
        if w < v.b.size() or sg != v.sg:
            return core.mkbv(v.sbv(w) if w <= v.b.size() else v.sbv(w), sg, nlo, nhi)
    return VcInt(v.t, v.b, nlo, nhi, v.sg, v.src)


def cond2(v):
    if isinstance(v, VcInt):
        return v != 0
    return v if isinstance(v, (bool, VcBool)) else bool(v)


def from_be(bs):
    """unsigned value of big-endian bytes"""
    sz = len(bs)
    if sz == 1:
        return bs[0]
    # provenance: all bytes of one word
    s0 = getattr(bs[0], 'src', None) if isinstance(bs[0], VcInt) else None
    w = None
    for k, b in enumerate(bs):
        s = getattr(b, 'src', None) if isinstance(b, VcInt) else None
        if s is not None:
            w = s[0]
            break
    if w is not None and isinstance(w, VcInt) and w.lo is not None and w.lo >= 0 and w.hi is not None and w.hi < (1 << (8 * sz)):
        ok = True
        for k, b in enumerate(bs):
            sh = 8 * (sz - 1 - k)
            s = getattr(b, 'src', None) if isinstance(b, VcInt) else None
            if s is not None and s[0] is w and s[1] == sh:
                continue
            if isinstance(b, int) and b == 0 and w.hi < (1 << sh):
                continue
            if b is w and sh == 0 and w.hi < 256:
                continue
            ok = False
            break
        if ok:
            return w
    if all(isinstance(b, int) for b in bs):
        return int.from_bytes(bytes(bs), 'big')
    if all(isinstance(b, int) or (b.b is not None and b.t is None) for b in bs):
        return core.mkbv(z3.Concat(*[z3.BitVecVal(b, 8) if isinstance(b, int) else b.sbv(8) for b in bs]), False, 0, (1 << (8 * sz)) - 1)
    v = 0
    for b in bs:
        v = v * 256 + b
    if isinstance(v, VcInt):
        v = VcInt(v.t, v.b, 0 if v.lo is None else max(0, v.lo), (1 << (8 * sz)) - 1 if v.hi is None else v.hi, v.sg)
    return v


def from_be_code(bs, code):
    sz = SZ[code]
    v = from_be(bs)
    if code == '?':
        return v != 0
    if code in 'efd':
        return _struct.unpack('>' + code, bytes(bs))[0] if isinstance(v, int) else VcFloat(code, v)
    if code in 'bhilq':
        half, full = 1 << (8 * sz - 1), 1 << (8 * sz)
        if isinstance(v, int):
            return v - full if v >= half else v
        if v.b is not None and v.t is None:
            return core.mkbv(v.sbv(8 * sz), True, -half, half - 1)
        r = vite(v >= half, v - full, v)
        if isinstance(r, VcInt):
            r = VcInt(r.t, r.b, -half if r.lo is None else max(r.lo, -half), half - 1 if r.hi is None else min(r.hi, half - 1), r.sg)
        return r
    return v


class StructShim(object):
    error = _struct.error

    def __getattr__(self, k):
        return getattr(_struct, k)

    def calcsize(self, fmt):
        order, items = parse_fmt(fmt)
        return fmt_size(items)

    def pack(self, fmt, *args):
        order, items = parse_fmt(fmt)
        little = order in '<=@'
        if little and any(SZ[c] > 1 for _, c in items):
            little = True
        args = list(args)
        star = None
        if args and isinstance(args[-1], StarSeq):
            star = args.pop().s
            if isinstance(star.n, int):
                args += star.items()
                star = None
        if all(isinstance(c, int) for c, _ in items) and star is None:
            want = nvals(items)
            if want != len(args):
                raise _struct.error('pack expected %d items for packing (got %d)' % (want, len(args)))
            out = []
            k = 0
            for c, code in items:
                for _ in range(c):
                    if code == 'x':
                        out.append(0)
                        continue
                    b = to_be(args[k], code)
                    out += b[::-1] if little else b
                    k += 1
            if all(isinstance(b, int) for b in out):
                return bytes(out)
            return VcBytes(Conc(out))
        # one symbolic block, possibly preceded by concrete items
        vals = seq.cat(Conc(args), star) if star is not None else Conc(args)
        want = nvals(items)
        if not (mk(vals.n) == want):
            raise _struct.error('pack expected %s items for packing (got %s)' % (want, mk(vals.n)))
        out = Conc([])
        pos = 0
        for c, code in items:
            if isinstance(c, int):
                for _ in range(c):
                    if code == 'x':
                        out = seq.cat(out, Conc([0]))
                        continue
                    b = to_be(vals.get(pos), code)
                    out = seq.cat(out, Conc(b[::-1] if little else b))
                    pos = iadd(pos, 1)
            else:
                if code == 'x':
                    raise Unsupported('struct pad repetition')
                out = seq.cat(out, pack_block(seq.sl(vals, pos, ival(c)), code, little))
                pos = iadd(pos, ival(c))
        return VcBytes(out)

    def unpack(self, fmt, data):
        order, items = parse_fmt(fmt)
        little = order in '<=@'
        if isinstance(data, str):
            raise TypeError("a bytes-like object is required, not 'str'")
        if not isinstance(data, (bytes, bytearray, VcBytes)):
            raise TypeError("a bytes-like object is required, not '%s'" % type(data).__name__)
        s = to_seq(data)
        size = fmt_size(items)
        eq = mk(s.n) == size
        if not eq:
            raise _struct.error('unpack requires a buffer of %s bytes' % (size,))
        return unpack_items(items, s, 0, little)

    def unpack_from(self, fmt, data, offset=0):
        order, items = parse_fmt(fmt)
        s = to_seq(data)
        size = fmt_size(items)
        if is_sym(offset) or offset < 0:
            raise Unsupported('unpack_from offset')
        if not (mk(s.n) - offset >= size):
            raise _struct.error('unpack_from requires a buffer of at least %s bytes' % (size,))
        return unpack_items(items, s, offset, order in '<=@')

    def pack_into(self, fmt, buf, offset, *args):
        b = self.pack(fmt, *args)
        buf[offset:offset + vlen(b)] = b

    def iter_unpack(self, fmt, data):
        order, items = parse_fmt(fmt)
        size = fmt_size(items)
        if not isinstance(size, int):
            raise Unsupported('iter_unpack of symbolic size')
        s = to_seq(data)
        if size == 0 or not (mk(s.n) % size == 0):
            raise _struct.error('iterative unpacking requires a buffer of a multiple of %s bytes' % (size,))
        r = LazyMap(Fn(ival(mk(s.n) // size), lambda i: unpack_items(items, s, ival(mk(i) * size), order in '<=@')))
        return r if not isinstance(r.raw.n, int) else iter(r.raw.items())

    def Struct(self, fmt):
        me = self

        class S(object):
            size = me.calcsize(fmt)
            format = fmt

            def pack(self_, *a): return me.pack(fmt, *a)
            def unpack(self_, d): return me.unpack(fmt, d)
            def unpack_from(self_, d, offset=0): return me.unpack_from(fmt, d, offset)
            def iter_unpack(self_, d): return me.iter_unpack(fmt, d)
            def pack_into(self_, b, offset, *a): return me.pack_into(fmt, b, offset, *a)
        return S()


def unpack_items(items, s, pos, little):
    parts = []
    for c, code in items:
        sz = SZ[code]
        if isinstance(c, int):
            for _ in range(c):
                if code != 'x':
                    bs = [s.get(iadd(pos, j)) for j in range(sz)]
                    parts.append(from_be_code(bs[::-1] if little else bs, code))
                pos = iadd(pos, sz)
        else:
            parts.append(Fn(ival(c), (lambda p0, cd, z: lambda i: from_be_code(
                [s.get(iadd(iadd(p0, ival(mk(i) * z)), j)) for j in (range(z - 1, -1, -1) if little else range(z))], cd))(pos, code, sz)))
            pos = iadd(pos, ival(c * sz))
    if all(not isinstance(p, Fn) for p in parts):
        return tuple(parts)
    out = Conc([])
    for p in parts:
        out = seq.cat(out, p if isinstance(p, Fn) else Conc([p]))
    return mktuple(out)


def pack_block(vals, code, little):
    """bytes of a symbolic number of items; an out-of-range item raises struct.error"""
    if code in 'efd':
        raise Unsupported('floats of a symbolic number')
    e = E()
    sz = SZ[code]
    signed = code in 'bhilq'
    lo, hi = (-(1 << (8 * sz - 1)), (1 << (8 * sz - 1)) - 1) if signed else (0, (1 << (8 * sz)) - 1)
    j = e.fresh_int('packidx', 0)
    inr = z3.And(j.i >= 0, j.i < zi(mk(vals.n)))
    v = vals.get(j.i)
    bad = z3.Not(zb(cond((v >= lo) & (v <= hi)))) if isinstance(v, VcInt) else z3.BoolVal(not lo <= v <= hi)
    if e._check(inr, bad) != z3.unsat:
        if e.choice(2) == 1:
            e.assume(z3.And(inr, bad))
            if not e.feasible():
                raise PathEnd()
            raise _struct.error("'%s' format requires %d <= number <= %d" % (code, lo, hi))

    def item(i):
        v = vals.get(i)
        if isinstance(v, VcInt):
            e2 = E()
            e2.fact(z3.Implies(z3.And(zi(mk(i)) >= 0, zi(mk(i)) < zi(mk(vals.n))), zb(cond((v >= lo) & (v <= hi)))))
            v = VcInt(v.t, v.b, lo if v.lo is None else max(lo, v.lo), hi if v.hi is None else min(hi, v.hi), v.sg)
            if signed and v.lo < 0:
                v = vite(v < 0, v + (1 << (8 * sz)), v)
        elif v < 0:
            v += 1 << (8 * sz)
        return v
    if sz == 1:
        return Fn(vals.n, item)

    def byte(i):
        ix = mk(i)
        q, r = ix // sz, ix % sz
        w = item(ival(q))
        bs = [core.byte_of(w, 8 * (sz - 1 - jj)) for jj in range(sz)]
        if little:
            bs = bs[::-1]
        if isinstance(r, int):
            return bs[r]
        return seq.table_get(bs, ival(r))
    return Fn(ival(mk(vals.n) * sz), byte)


def bytes_join(sep, it):
    if _symseq(it):
        s = it.s
        if vlen(sep) != 0:
            raise Unsupported('join with separator over a symbolic sequence')
        if not bool(mk(s.n) > 0):
            return VcBytes(Conc([]))
        pi = E().fresh_int('joined', 0)
        E().fact(pi.i < zi(mk(s.n)))
        first = s.get(ival(pi))
        w = vlen(first)
        if not isinstance(w, int) or w == 0:
            raise Unsupported('join of items of symbolic length')

        def wide(x):
            x = to_seq(x)
            if not isinstance(x.n, int) or x.n != w:
                raise Unsupported('join of items of different lengths')
            return x
        if w == 1:
            return VcBytes(Fn(s.n, lambda i: wide(s.get(i)).get(0)))

        def byte(i):
            ix = mk(i)
            b = wide(s.get(ival(ix // w)))
            r = ix % w
            return b.get(ival(r))
        return VcBytes(Fn(ival(mk(s.n) * w), byte))
    r = None
    for x in (it.s.items() if isinstance(it, (VcSeqBase, LazyMap)) else it):
        if not isinstance(x, (bytes, bytearray, VcBytes)):
            raise TypeError('sequence item: expected a bytes-like object, %s found' % type(x).__name__)
        r = x if r is None else r + sep + x
    out = b'' if r is None else r
    if isinstance(sep, VcBytearray):
        return VcBytearray(to_seq(out))
    return VcBytes(to_seq(out)) if not isinstance(out, bytes) else out


# ------------------------------------------------------------------------------------------------ other modules
class Mod(object):
    """module stand-in: given attributes, everything else from the real module"""
    def __init__(self, real, **kw):
        self.__dict__['_real'] = real
        self.__dict__.update(kw)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return getattr(self._real, k)


class DummyLogger(object):
    handlers = []
    level = 0

    def _nop(self, *a, **k):
        return None
    debug = info = warning = warn = error = critical = exception = log = setLevel = addHandler = removeHandler = _nop

    def isEnabledFor(self, lvl):
        return False

    def getEffectiveLevel(self):
        return 50


class GhostLock(object):
    """lock with a recorded history: holder depth, acquire/release events; `monitor(event, lock)` sees outermost events"""
    serial = 0
    monitor = None
    all = []

    def __init__(self, kind='RLock'):
        self.kind = kind
        self.depth = 0
        self.acquisitions = 0
        self.log = None
        self.owner = None
        self.gave_up = set()
        GhostLock.all.append(self)

    def acquire(self, blocking=True, timeout=-1):
        from .sched import Sched
        s = Sched.active
        me = s.me() if s is not None else 0
        if self.depth > 0 and self.owner != me:
            # who waits for a limited time gives up, once; who tries again waits
            if not blocking:
                return False
            if isinstance(timeout, (int, float)) and 0 <= timeout < 1e6 and me not in self.gave_up:
                self.gave_up.add(me)
                return False
            if s is None:
                raise RuntimeError('lock held by another thread')
            s.block(self)
        self.gave_up.discard(me)
        if self.kind == 'Lock' and self.depth > 0:
            if self.log is not None:
                self.log.append(('deadlock', self))
            raise RuntimeError('deadlock: non-reentrant lock acquired twice by one thread')
        self.depth += 1
        self.owner = me
        if self.depth == 1:
            self.acquisitions += 1
            if s is not None:
                s.acquired()
            if self.log is not None:
                self.log.append(('acquire', self))
            if GhostLock.monitor is not None:
                GhostLock.monitor('acquire', self)
        return True

    def release(self):
        if self.depth <= 0:
            raise RuntimeError('cannot release un-acquired lock')
        self.depth -= 1
        if self.depth == 0:
            self.owner = None
            if self.log is not None:
                self.log.append(('release', self))
            if GhostLock.monitor is not None:
                GhostLock.monitor('release', self)
            from .sched import Sched
            if Sched.active is not None:
                Sched.active.released()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.depth > 0

    def _is_owned(self):
        return self.depth > 0


def reset_locks():
    GhostLock.all = []
    GhostLock.monitor = None


class GhostEvent(object):
    def __init__(self):
        self.flag = False

    def set(self):
        self.flag = True

    def clear(self):
        self.flag = False

    def is_set(self):
        return self.flag

    isSet = is_set

    def wait(self, timeout=None):
        return self.flag


class GhostThread(object):
    """thread that never runs by itself"""
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.target, self.args, self.kwargs = target, args, kwargs or {}
        self.daemon = daemon
        self.name = name
        self.started = False
        self.alive = False

    def start(self):
        self.started = True

    def is_alive(self):
        return self.alive
    isAlive = is_alive

    def join(self, timeout=None):
        return None

    def run(self):
        if self.target:
            self.target(*self.args, **self.kwargs)

    def setDaemon(self, d):
        self.daemon = d


class FakeTime(object):
    def __init__(self):
        self.slept = []

    def time(self):
        return 0.0
    monotonic = perf_counter = time

    def sleep(self, t):
        self.slept.append(t)
