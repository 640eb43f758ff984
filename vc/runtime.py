"""The `__vc` object the instrumented code talks to."""
import sys, z3
from . import core, seq, shims, loops
from .core import VcInt, VcBool, Unsupported, PathEnd, Control, ival, mk, zi, is_sym, vite, cond, mkbool
from .seq import (VcSeqBase, VcBytes, VcBytearray, VcList, VcTuple, VcDict, VcRange, VcView, Conc, Fn, to_seq, has_token)
from .shims import LazyMap, StarSeq


def E():
    return core.ENG

ENGINE_WORDS = ('Vc', 'z3', 'ArithRef', 'BoolRef', 'BitVecRef', 'LazyMap', 'StarSeq', 'Poison')


class Runtime(object):
    def __init__(self):
        self.world = None
        self.observe = False
        self.bounded = False
        self.unroll = loops.UNROLL
        self.hints = loops.Hints()

    # ---- loops
    def for_(self, lid, it, names):
        s = None
        shims.plain(it)
        if isinstance(it, VcDict):
            if it.base is not None:
                s = it.keyseq('k')
        elif isinstance(it, VcView):
            if it.d.base is not None:
                s = it.s
        elif isinstance(it, (VcSeqBase, VcRange, LazyMap)):
            s = shims.raw(it)
            if isinstance(it, LazyMap):
                it.consume()
        elif isinstance(it, shims.LazyFilter):
            it.consume()
            l = loops.Loop(self, lid, names, it.src)
            l.flt = it
            return l.by_cases()
        elif isinstance(it, range) and self.observe:
            s = Conc(list(it))
        if s is not None and self.observe and isinstance(s.n, int):
            return loops.Loop(self, lid, names, s)
        if s is not None and not isinstance(s.n, int):
            return loops.Loop(self, lid, names, s).by_cases()
        return loops.Loop(self, lid, names, None, native_it=it)

    def while_(self, lid, names):
        return loops.Loop(self, lid, names)

    # ---- conditionals
    def undecided(self, c):
        if isinstance(c, VcBool):
            return True
        if isinstance(c, VcInt):
            return isinstance(c != 0, VcBool)
        return False

    def merge(self, c, fa, fb):
        e = E()
        if isinstance(c, VcInt):
            c = c != 0
        # decided by the path condition?
        n = e.nforks
        try:
            a, b = fa(), fb()
        except Control:
            raise
        except Exception:
            return fa() if bool(c) else fb()
        return vite(c, a, b)

    def ifexp(self, c, fa, fb):
        if self.undecided(c):
            return self.merge(c, fa, fb)
        return fa() if c else fb()

    # ---- exceptions
    def live(self):
        return not isinstance(sys.exc_info()[1], Control)

    def caught(self, exc):
        if isinstance(exc, Control):
            raise exc
        if isinstance(exc, z3.Z3Exception):
            raise Unsupported('solver interface: %s' % exc)
        if isinstance(exc, (TypeError, AttributeError, ValueError, SystemError)):
            m = str(exc)
            if any(w in m for w in ENGINE_WORDS):
                raise Unsupported('engine value reached an unmodelled operation: %s' % m)
        if isinstance(exc, RecursionError):
            raise Unsupported('recursion limit')

    # ---- containers
    def bytes_(self, b):
        return b

    def list_(self, *a):
        return VcList(self._flat(a))

    def tuple_(self, *a):
        return seq.mktuple(self._flat(a))

    def _flat(self, a):
        out = Conc([])
        cur = []
        for x in a:
            if isinstance(x, StarSeq):
                out = seq.cat(seq.cat(out, Conc(cur)), x.s)
                cur = []
            else:
                cur.append(x)
        return seq.cat(out, Conc(cur)) if cur or isinstance(out, Conc) else out

    def dict_(self, *items):
        return shims.mkdict(list(items))

    def set_(self, *items):
        return shims.VcSet(list(items))

    def listcomp(self, it, f, keep=None):
        shims.plain(it)
        if keep is not None or isinstance(it, shims.LazyFilter):
            return shims.to_list(self.genexp(it, f, keep))
        if shims._symseq(it):
            return VcList(shims.vmap(f, it).s)
        if isinstance(it, VcDict) and it.base is not None:
            raise Unsupported('comprehension over an arbitrary map')
        return VcList(Conc([f(x) for x in it]))

    def genexp(self, it, f, keep=None):
        shims.plain(it)
        if isinstance(it, VcDict) and it.base is not None:
            it = shims.LazyMap(it.keyseq('k'))
        if keep is not None:
            if shims._symseq(it) or isinstance(it, shims.LazyFilter):
                return shims.vmap(f, shims.vfilter(keep, it))
            return (f(x) for x in it if keep(x))
        if shims._symseq(it) or isinstance(it, shims.LazyFilter):
            return shims.vmap(f, it)
        return (f(x) for x in it)

    def comp2(self, kind, it, inner, f):
        """f(x, y) for x in it for y in inner(x)"""
        shims.plain(it)
        if isinstance(it, VcDict) and it.base is not None:
            raise Unsupported('comprehension over an arbitrary map')
        if shims._symseq(it):
            if isinstance(it, LazyMap):
                it.consume()
            s = shims.raw(it)
            width = []

            def at(i):
                v = inner(s.get(i))
                if not isinstance(v, (range, tuple, list, bytes, VcSeqBase)) or isinstance(v, VcSeqBase) and not isinstance(v.s.n, int):
                    raise Unsupported('comprehension over two symbolic sequences')
                v = to_seq(v)
                if not width:
                    width.append(v.n)
                if v.n != width[0] or not v.n:
                    raise Unsupported('comprehension over sequences of different lengths')
                return v
            if not bool(mk(s.n) > 0):
                r = LazyMap(Conc([]))
                return VcList(Conc([])) if kind == 'listcomp' else iter(())
            e = E()
            i = e.fresh_int('outer', 0)
            e.fact(i.i < zi(mk(s.n)))
            at(ival(i))
            w = width[0]

            def get(j):
                i = ival(mk(j) // w)
                return f(s.get(i), at(i).get(ival(mk(j) % w)))
            r = LazyMap(Fn(ival(mk(s.n) * w), get), (inner, f, shims.lazy(it)))
            return VcList(r.s) if kind == 'listcomp' else r
        if kind == 'listcomp':
            return VcList(Conc([f(x, y) for x in it for y in inner(x)]))
        return (f(x, y) for x in it for y in inner(x))

    def wraplist(self, l):
        return VcList(Conc(list(l)))

    def dictcomp(self, g):
        return shims.mkdict(list(g))

    # ---- subscripts
    def slice_(self, a, b, c):
        return slice(a, b, c)

    def getitem(self, o, i):
        if isinstance(o, type):
            return o[i]
        if isinstance(i, slice):
            if any(is_sym(x) for x in (i.start, i.stop, i.step)):
                if isinstance(o, (bytes, bytearray)):
                    return VcBytes(to_seq(o))[i]
                if isinstance(o, tuple):
                    return VcTuple(to_seq(o))[i]
                if isinstance(o, list):
                    return VcList(to_seq(o))[i]
                if isinstance(o, str):
                    raise Unsupported('symbolic slice of a string')
            return o[i]
        if isinstance(i, VcBool):
            i = i._int()
        if isinstance(i, VcInt):
            if isinstance(o, (tuple, list, bytes, bytearray)):
                n = len(o)
                ok = (i >= 0) & (i < n) if is_sym((i >= 0)) or is_sym(i < n) else (i >= 0 and i < n)
                if not ok:
                    if i < 0 and i >= -n:
                        return self.getitem(o, i + n)
                    raise IndexError('index out of range')
                if n > 16 and all(isinstance(x, int) for x in o):
                    return seq.table_at(list(o), i)
                return seq.table_get(list(o), i.i)
            if isinstance(o, dict):
                for k in o:
                    if isinstance(k, int) and bool(i == k):
                        return o[k]
                raise KeyError(str(i))
            if isinstance(o, str):
                raise Unsupported('symbolic index into a string')
        if isinstance(o, str) and has_token(o):
            raise Unsupported('indexing a string with symbolic parts')
        return o[i]

    def setitem(self, o, i, v):
        if isinstance(o, (list, bytearray, dict)) and (is_sym(i) or isinstance(i, slice) and any(is_sym(x) for x in (i.start, i.stop))):
            raise Unsupported('symbolic store into a native container')
        o[i] = v

    def delitem(self, o, i):
        del o[i]

    def contains(self, c, x):
        if isinstance(c, str) and isinstance(x, str) and (has_token(c) or has_token(x)):
            return seq.text_in(x, c)
        if isinstance(c, (set, frozenset, dict)) and (is_sym(x) or isinstance(x, VcSeqBase)):
            for y in c:
                if bool(y == x):
                    return True
            return False
        if isinstance(c, (bytes, bytearray)) and isinstance(x, (VcInt, VcSeqBase)):
            return VcBytes(to_seq(c)).__contains__(x)
        if isinstance(c, range) and is_sym(x):
            return VcRange(c.start, c.stop, c.step).__contains__(x)
        if isinstance(x, VcInt) and isinstance(c, (tuple, list)) and c and all(isinstance(y, int) for y in c):
            r = False
            for y in c:
                q = x == y
                if q is True:
                    return True
                if q is False:
                    continue
                r = q if r is False else r | q
            return r if isinstance(r, bool) else bool(r)
        return x in c

    # ---- comparisons
    def eq(self, a, b):
        if isinstance(a, str) and isinstance(b, str) and (has_token(a) or has_token(b)):
            return seq.text_eq(a, b)
        return a == b

    def ne(self, a, b):
        if isinstance(a, str) and isinstance(b, str) and (has_token(a) or has_token(b)):
            return not seq.text_eq(a, b)
        return a != b

    def is_(self, a, b):
        if isinstance(a, VcBool) and isinstance(b, (bool, VcBool)) or isinstance(b, VcBool) and isinstance(a, bool):
            return a == b
        return a is b

    def textmeth(self, o, meth):
        if has_token(o):
            raise Unsupported('%s of a string with symbolic parts' % meth)
        return getattr(o, meth)

    # ---- operators
    def mod(self, a, b):
        if isinstance(a, str):
            return self._fmt(a, b)
        return a % b

    def _fmt(self, a, b):
        args = b if isinstance(b, tuple) else (b,)
        if isinstance(b, VcTuple):
            raise Unsupported('formatting with a symbolic tuple')
        if not any(is_sym(x) or isinstance(x, (VcSeqBase, VcDict)) or hasattr(x, 'r') for x in args):
            return a % b
        out = []
        i = 0
        k = 0
        while i < len(a):
            c = a[i]
            if c != '%':
                out.append(c)
                i += 1
                continue
            j = i + 1
            while j < len(a) and a[j] in '0123456789.-+# ':
                j += 1
            code = a[j]
            spec = a[i + 1:j]
            i = j + 1
            if code == '%':
                out.append('%')
                continue
            if k >= len(args):
                raise TypeError('not enough arguments for format string')
            x = args[k]
            k += 1
            if is_sym(x):
                if code in 'dsir' and not spec:
                    out.append(str(x if not isinstance(x, VcBool) else x._int() if code in 'di' else x))
                else:
                    out.append(seq.token('fmt', (spec + code, x)))
            elif isinstance(x, (VcSeqBase, VcDict)):
                out.append(seq.token('obj', x))
            else:
                out.append(('%' + spec + code) % (x,))
        if k < len(args):
            raise TypeError('not all arguments converted during string formatting')
        return ''.join(out)

    def strmeth(self, s, meth, *a):
        if meth == 'join' and len(a) == 1:
            it = a[0]
            if isinstance(s, bytes):
                return shims.bytes_join(s, it)
            if isinstance(it, (VcSeqBase, LazyMap)):
                if not isinstance(it.s.n, int):
                    raise Unsupported('join of a symbolic number of strings')
                it = it.s.items()
            return s.join(it)
        return getattr(s, meth)(*a)

    # ---- calls
    def star(self, x):
        if isinstance(x, StarSeq):
            return x
        if isinstance(x, (VcSeqBase, VcRange, LazyMap, VcView)):
            return StarSeq(x.s)
        return StarSeq(Conc(list(shims.plain(x))))

    def starcall(self, f, *args, **kw):
        out = []
        for k, a in enumerate(args):
            if isinstance(a, StarSeq):
                if isinstance(a.s.n, int):
                    out += a.s.items()
                elif k == len(args) - 1 and getattr(f, '__func__', f) in (shims.StructShim.pack,):
                    out.append(a)
                else:
                    raise Unsupported('*-argument of symbolic length')
            else:
                out.append(a)
        return f(*out, **kw)
