"""What a harness (the contract of one or more functions) is written against.

The same harness runs in three ways:
  sym   instrumented real code, symbolic inputs: every `ensure` is an obligation for the solver;
  obs   instrumented real code, concrete inputs: filters loop-invariant candidates, decides nothing;
  conc  the real code as it is under CPython, concrete inputs: replay of counterexamples and boundary search.
"""
import ast, os, random, signal, struct, threading, traceback, z3
from . import core, seq, shims, loops, world as world_mod
from .core import (VcInt, VcBool, Unsupported, PathEnd, Control, Restart, Budget, ival, mk, zi, zb, cond, mkbool, vite, is_sym)
from .seq import VcBytes, VcBytearray, VcList, VcTuple, VcDict, VcSeqBase, Conc, Fn, Cat, ObjSeq, to_seq, BaseMap
from .runtime import Runtime
from .real import VcFloat


class Violation(BaseException):
    def __init__(self, label, detail=''):
        BaseException.__init__(self, label)
        self.label, self.detail = label, detail


class Reject(BaseException):
    """a concrete input outside the precondition"""


class Hang(Control):
    """a concrete run that does not come to an end"""


HANG_CPU = 25       # seconds of processor time of one concrete run (they take milliseconds)


def _hang(sig, frame):
    raise Hang('no end')


class Watchdog(object):
    def __enter__(self):
        self.on = threading.current_thread() is threading.main_thread()
        if self.on:
            signal.signal(signal.SIGPROF, _hang)
            signal.setitimer(signal.ITIMER_PROF, HANG_CPU, 2)

    def __exit__(self, *a):
        if self.on:
            signal.setitimer(signal.ITIMER_PROF, 0)


class Harness(object):
    def __init__(self, prop, name, fn, functions, bounded_only=False, weight=1, sym=True, conc=True, within='', note='', m3=1.0, repr=False):
        self.prop, self.name, self.fn, self.functions = prop, name, fn, functions
        self.bounded_only, self.weight, self.sym, self.conc, self.within, self.note = bounded_only, weight, sym, conc, within, note
        self.m3 = m3
        # within: what a complete proof of this harness is limited to (then it counts as bounded)
        self.repr = repr        # starts from a private representation: a refutation alone proves nothing about behaviour


REGISTRY = {}


def harness(prop, functions, **kw):
    def deco(fn):
        name = kw.pop('name', fn.__name__)
        REGISTRY.setdefault(prop, []).append(Harness(prop, name, fn, functions, **kw))
        return fn
    return deco


KNOWN = {}          # property -> [(id, fn() -> is the finding still there)]


def known_check(prop, kid):
    def deco(fn):
        KNOWN.setdefault(prop, []).append((kid, fn))
        return fn
    return deco


def is_known(prop, kid):
    import json
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known-findings.json')
    try:
        return any(k['property'] == prop and k['id'] == kid for k in json.load(open(p))['known'])
    except (IOError, ValueError):
        return False


class Outcome(object):
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    def raised(self, cls):
        return self.exc is not None and isinstance(self.exc, cls)

    def __repr__(self):
        return 'returned %r' % (self.value,) if self.ok else 'raised %s: %s' % (type(self.exc).__name__, self.exc)


def constants_pool():
    """integer constants of the current source (and neighbours): where boundary inputs come from"""
    out = set([0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 63, 64, 100, 127, 128, 129, 255, 256, 257, 1000, 32767, 32768, 65535, 65536])
    d = os.path.join(world_mod.REPO, world_mod.PKG)
    for f in sorted(os.listdir(d)):
        if f.endswith('.py'):
            try:
                t = ast.parse(open(os.path.join(d, f), encoding='utf-8').read())
            except SyntaxError:
                continue
            skip = set()
            for n in ast.walk(t):
                if isinstance(n, (ast.Tuple, ast.List)) and len(n.elts) > 20:
                    skip.update(id(e) for e in n.elts)
            for n in ast.walk(t):
                if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool) and id(n) not in skip:
                    for k in (-1, 0, 1):
                        out.add(n.value + k)
    return sorted(out)


_POOL = None


def pool():
    global _POOL
    if _POOL is None:
        _POOL = constants_pool()
    return _POOL


# --------------------------------------------------------------------------------------------------- draws of sequences
class DrawBytes(VcBytes):
    pass


class DrawList(VcList):
    pass


def uf_bytes(name, n):
    """arbitrary bytes; n is an int or z3 term"""
    e = core.ENG
    e.fresh_n += 1
    f = z3.Function('%s!%d' % (name, e.fresh_n), z3.IntSort(), z3.BitVecSort(8))
    return Fn(n, lambda i: VcInt(None, f(zi(mk(i)))))


def uf_ints(name, n, lo, hi):
    e = core.ENG
    e.fresh_n += 1
    f = z3.Function('%s!%d' % (name, e.fresh_n), z3.IntSort(), z3.IntSort())

    def get(i):
        t = f(zi(mk(i)))
        e2 = core.ENG
        if lo is not None:
            e2.fact(t >= lo)
        if hi is not None:
            e2.fact(t <= hi)
        return VcInt(t, None, lo, hi)
    return Fn(n, get)


def uf_bvs(name, n, w, sg):
    e = core.ENG
    e.fresh_n += 1
    f = z3.Function('%s!%d' % (name, e.fresh_n), z3.IntSort(), z3.BitVecSort(w))
    return Fn(n, lambda i: VcInt(None, f(zi(mk(i))), sg=sg))


class Ctx(object):
    def __init__(self, mode, rng=None, inputs=None, bounded=False, rt=None, tier='quick'):
        self.mode = mode
        self.sym = mode == 'sym'
        self.conc = mode == 'conc'
        self.rng = rng
        self.inputs = inputs
        self.bounded = bounded
        self.rt = rt
        self.tier = tier
        self.used = {}
        self.counters = {}
        self.checked = 0
        self.worlds = []
        self.session = None     # concrete runs: what successive harness bodies share (the world, the objects under test)
        self.trusted = set()

    @property
    def E(self):
        return core.ENG

    def successive(self, bodies, lo=2, hi=6):
        """concrete runs: several harness bodies, one after another, on the same objects"""
        self.session = {}
        for _ in range(self.int('steps', lo, hi)):
            k = self.given('step', lambda r: self.session.get('last', 0) if r.random() < 0.4 else r.randrange(len(bodies)))
            self.session['last'] = k
            bodies[k](self)

    # ------------------------------------------------------------------ worlds
    def world(self, stubs=None, patches=None):
        if self.session is not None and not stubs and not patches and 'w' in self.session:
            return self.session['w']
        w = world_mod.World(self.rt if not self.conc else None, stubs, patches)
        self.worlds.append(w)
        if self.session is not None and not stubs and not patches:
            self.session['w'] = w
        return w

    @property
    def hints(self):
        return self.rt.hints if self.rt is not None else loops.Hints()

    def need(self, o, *names):
        for n in names:
            if not hasattr(o, n):
                raise Unsupported('harness does not fit: %r has no %s' % (type(o).__name__, n))
            o = getattr(o, n)
        return o

    # ------------------------------------------------------------------ draws
    def _name(self, name):
        if self.sym:
            return self.E.uniq(name)
        n = self.counters.get(name, 0)
        self.counters[name] = n + 1
        return name if n == 0 else '%s#%d' % (name, n)

    def _given(self, name):
        return self.inputs is not None and name in self.inputs

    def _rec(self, name, v):
        self.used[name] = v
        return v

    def rnd_int(self, lo, hi, near=()):
        r = self.rng
        lo2 = -(1 << 17) if lo is None else lo
        hi2 = (1 << 17) if hi is None else hi
        if hi2 < lo2:
            raise Reject('empty range')
        near = list(near() if callable(near) else near)
        k = r.random()
        if near and k < 0.55:
            v = r.choice(near) + r.choice((-2, -1, -1, 0, 0, 0, 1, 1, 2))
            if lo2 <= v <= hi2:
                return v
        if k < 0.60:
            return r.choice([x for x in (lo2, lo2 + 1, hi2, hi2 - 1) if lo2 <= x <= hi2])
        if k < 0.72:
            p = [x for x in pool() if lo2 <= x <= hi2]
            if p:
                return r.choice(p)
        if k < 0.82:
            return r.randint(lo2, min(hi2, lo2 + 20))
        return r.randint(lo2, hi2)

    def int(self, name, lo=None, hi=None, near=(), bv=None, signed=False, make=None):
        """arbitrary integer in [lo, hi]; bv=width makes it a bit vector for the solver"""
        name = self._name(name)
        if self.sym:
            if bv:
                v = self.E.fresh_bv(name, bv, signed)
                if lo is not None and lo > v.lo or hi is not None and hi < v.hi:
                    c = (v >= (v.lo if lo is None else lo)) & (v <= (v.hi if hi is None else hi))
                    self.E.fact(c)
                    v = shims.narrowed(v, v.lo if lo is None else lo, v.hi if hi is None else hi)
            else:
                v = self.E.fresh_int(name, lo, hi)
            self.E.draws[name] = v
            return v
        if self._given(name):
            v = self.inputs[name]
        else:
            v = make(self.rng) if make is not None else None
            if v is None or (lo is not None and v < lo) or (hi is not None and v > hi):
                v = self.rnd_int(lo, hi, near)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Reject('out of range')
        return self._rec(name, v)

    def floating(self, name, code):
        """any floating-point number but NaN, known by its encoding in the struct format e, f or d"""
        n = {'e': 16, 'f': 32, 'd': 64}[code]
        near = {'e': (0x3c00, 0xc000), 'f': (0x3f800000, 0x42280000, 0xc1200000), 'd': (0x3ff0000000000000, 0xc024000000000000)}[code]
        w = self.int(name + ' as a word', 0, (1 << n) - 1, near=near, bv=n)
        if self.sym:
            return VcFloat(code, w)
        x = struct.unpack('>' + code, w.to_bytes(n // 8, 'big'))[0]
        self.assume(x == x)
        return x

    def float_bytes(self, v, code):
        """the encoding of a number, most significant byte first"""
        if isinstance(v, VcFloat):
            n = shims.SZ[code]
            return [core.byte_of(v.w, 8 * (n - 1 - j)) for j in range(n)]
        return list(struct.pack('>' + code, v))

    def float_of(self, bs, code):
        """the number these bytes encode"""
        return shims.from_be_code(bs, code)

    def real(self, name, lo=None, hi=None, above=None, near=()):
        """arbitrary real number (floats are idealised in proofs, floats in concrete runs)"""
        name = self._name(name)
        if self.sym:
            v = self.E.fresh_real(name, lo, hi, above)
            self.E.draws[name] = v
            return v
        if self._given(name):
            v = self.inputs[name]
        else:
            r = self.rng
            l2, h2 = (-1e6 if lo is None and above is None else lo if lo is not None else above), (1e6 if hi is None else hi)
            k = r.random()
            if near and k < 0.5:
                v = r.choice(list(near)) + r.choice((0, 0, 0, 1, -1, 0.5, -0.001))
            elif k < 0.7:
                v = r.choice((l2, h2, 0, 0.0, 1, 0.5, 3, 1e-3))
            else:
                v = l2 + (h2 - l2) * r.random() ** r.choice((1, 4, 12))
            if (lo is not None and v < lo) or (hi is not None and v > hi) or (above is not None and v <= above):
                v = h2
        if (lo is not None and v < lo) or (hi is not None and v > hi) or (above is not None and v <= above):
            raise Reject('out of range')
        return self._rec(name, v)

    def size(self, name, lo, hi, reps=(), near=(), make=None):
        """integer that controls loop counts: representative values only in bounded mode"""
        if self.sym and self.bounded:
            r = [x for x in (reps or (lo, lo + 1, lo + 2, lo + 7, lo + 8, lo + 9)) if lo <= x and (hi is None or x <= hi)]
            nm = self._name(name)
            v = r[self.E.choice(len(r))]
            self.E.draws[nm] = v
            return v
        return self.int(name, lo, hi, near=near, make=make)

    def bool(self, name):
        name = self._name(name)
        if self.sym:
            v = self.E.fresh_bool(name)
            self.E.draws[name] = v
            return v
        v = self.inputs[name] if self._given(name) else self.rng.random() < 0.5
        return self._rec(name, bool(v))

    def pick(self, name, options):
        """one of finitely many alternatives (each explored)"""
        options = list(options)
        name = self._name(name)
        if self.sym:
            k = self.E.choice(len(options))
            self.E.draws[name] = k
            return options[k]
        if self._given(name):
            k = self.inputs[name]
        elif self.inputs is not None and self.rng.random() < 0.5:
            k = 0
        else:
            k = self.rng.randrange(len(options))
        if not 0 <= k < len(options):
            raise Reject('no such alternative')
        self._rec(name, k)
        return options[k]

    def derived(self, name, sym, p=0.7):
        """a truth value fixed by the rest of a symbolic state (recorded for replay); a free choice in concrete runs"""
        name = self._name(name)
        if self.sym:
            v = sym()
            self.E.draws[name] = v
            return v
        v = self.inputs[name] if self._given(name) else self.rng.random() < p
        return self._rec(name, v)

    def flag(self, name):
        return self.pick(name, (False, True))

    def length(self, name, lo, hi, reps=()):
        return self.size(name, lo, hi, reps)

    def _drawlen(self, name, n, lo, hi, reps, cap=400):
        if n is not None:
            return n
        if self.sym:
            return self.size(name + '.len', lo, hi, reps)
        top = lo + cap if hi is None else min(hi, lo + cap)
        nm = name + '.len'
        if self._given(nm):
            return self.int(nm, lo, hi)
        if self.rng.random() < 0.03:
            return self.int(nm, lo, lo + 12000 if hi is None else min(hi, lo + 12000))
        return self.int(nm, lo, top)

    def bytes(self, name, n=None, lo=0, hi=None, reps=(), kind='bytes'):
        """arbitrary bytes of length n (or of arbitrary length in [lo, hi])"""
        n = self._drawlen(name, n, lo, hi, reps)
        name = self._name(name)
        if self.sym:
            s = uf_bytes(name, ival(n))
            if isinstance(s.n, int):
                s = Conc([s.get(k) for k in range(s.n)])
            v = DrawBytes(s)
            self.E.draws[name] = v
            return VcBytearray(s) if kind == 'bytearray' else v
        if self._given(name):
            v = list(self.inputs[name])
            v = (v + [0] * n)[:n]
        else:
            st = self.rng.random()
            if st < 0.1:
                v = [self.rng.choice((0, 255))] * n
            elif st < 0.4:
                v = [self.rng.choice((0, 1, 255, 128, 127, self.rng.randrange(256))) for _ in range(n)]
            else:
                v = [self.rng.randrange(256) for _ in range(n)]
        self._rec(name, v)
        return self.mkbytes(v) if kind == 'bytes' else self.mkbytearray(v)

    def ints(self, name, n, lo=None, hi=None, bv=None, signed=False):
        """arbitrary sequence of n integers in [lo, hi] as a list of the world"""
        name = self._name(name)
        if self.sym:
            s = uf_bvs(name, ival(n), bv, signed) if bv else uf_ints(name, ival(n), lo, hi)
            if isinstance(s.n, int) and s.n <= 4096:
                s = Conc([s.get(k) for k in range(s.n)])
            v = DrawList(s)
            self.E.draws[name] = v
            return v
        if self._given(name):
            v = list(self.inputs[name])
            v = (v + [max(lo or 0, 0)] * n)[:n]
        else:
            l2, h2 = (-40000 if lo is None else lo), (70000 if hi is None else hi)
            st = self.rng.random()
            if st < 0.3:
                v = [self.rng.choice([x for x in (l2, h2, 0, 1, -1) if l2 <= x <= h2]) for _ in range(n)]
            elif st < 0.5:
                v = [self.rnd_int(l2, h2) for _ in range(n)]
            else:
                v = [self.rng.randint(l2, h2) for _ in range(n)]
        self._rec(name, v)
        return self.mklist(v)

    def given(self, name, make):
        """concrete-only draw of any JSON value"""
        name = self._name(name)
        v = self.inputs[name] if self._given(name) else make(self.rng)
        return self._rec(name, v)

    # ------------------------------------------------------------------ building values
    def mkbytes(self, items):
        if self.conc:
            return bytes(items)
        if all(isinstance(x, int) for x in items):
            return VcBytes(Conc(list(items))) if not isinstance(items, bytes) else items
        return VcBytes(Conc(list(items)))

    def mkbytearray(self, items):
        return bytearray(items) if self.conc else VcBytearray(Conc(list(items)))

    def mklist(self, items):
        return list(items) if self.conc else VcList(to_seq(items))

    def mktuple(self, items):
        if self.conc:
            return tuple(items)
        return seq.mktuple(to_seq(items))

    def fn(self, n, f):
        """the sequence f(0), ..., f(n-1) (for oracles)"""
        if isinstance(n, int) and not self.sym:
            return [f(k) for k in range(n)]
        return Fn(ival(n), lambda i: f(mk(i)))

    def cat(self, *parts):
        if self.conc:
            out = []
            for p in parts:
                out += list(p)
            return out
        r = Conc([])
        for p in parts:
            r = seq.cat(r, to_seq(p))
        return r

    def tobytes(self, s):
        if self.conc:
            return bytes(s)
        return VcBytes(to_seq(s))

    def sub(self, s, a, n):
        if self.conc:
            return list(s)[a:a + n]
        return seq.sl(to_seq(s), ival(a), ival(n))

    def word(self, v):
        """two bytes of the 16-bit word v, big endian"""
        return [core.byte_of(v, 8), core.byte_of(v, 0)]

    def len(self, x):
        return len(x) if self.conc else shims.vlen(x) if not isinstance(x, seq.Seq) else mk(x.n, 0)

    def at(self, x, i):
        """element i (no bounds check needed: caller guarantees the range)"""
        if self.conc:
            return x[i]
        return to_seq(x).get(ival(i))

    def is_bytes(self, x):
        return isinstance(x, (bytes, bytearray, VcBytes))

    # ------------------------------------------------------------------ logic
    def ite(self, c, a, b):
        if self.conc:
            return a if c else b
        return vite(c, a, b)

    def and_(self, *cs):
        r = True
        for c in cs:
            c = cond(c)
            if c is False:
                return False
            if c is True:
                continue
            r = c if r is True else z3.And(r, c)
        return r if isinstance(r, bool) else mkbool(r)

    def or_(self, *cs):
        r = False
        for c in cs:
            c = cond(c)
            if c is True:
                return True
            if c is False:
                continue
            r = c if r is False else z3.Or(r, c)
        return r if isinstance(r, bool) else mkbool(r)

    def not_(self, c):
        c = cond(c)
        return (not c) if isinstance(c, bool) else mkbool(z3.Not(c))

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def assume(self, c):
        if self.sym:
            self.E.assume(c)
            if not self.E.feasible():
                raise PathEnd()
            return
        if not bool(c):
            raise Reject('precondition')

    def ensure(self, label, c, detail=''):
        self.checked += 1
        if self.sym:
            return self.E.ensure(label, c, detail)
        if self.mode == 'obs':
            return True
        if not bool(c):
            raise Violation(label, str(detail() if callable(detail) else detail))
        return True

    def fail(self, label, detail=''):
        self.ensure(label, False, detail)

    def ensure_eq(self, label, a, b):
        """equality of two sequences (lengths and every element) or two scalars"""
        self.checked += 1
        if self.mode == 'obs':
            return
        if self.conc:
            x, y = self._plain(a), self._plain(b)
            if x != y:
                raise Violation(label, 'got %s, expected %s' % (_short(x), _short(y)))
            return
        e = self.E
        isseq = lambda v: isinstance(v, (seq.Seq, VcSeqBase, bytes, bytearray, list, tuple, range, seq.VcRange))
        if isseq(a) != isseq(b):
            e.ensure(label, False, 'got %r' % (a,))
            return
        if not isseq(a):
            if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                e.ensure(label, a == b)
                return
            e.ensure(label, a == b)
            return
        x, y = to_seq(a), to_seq(b)
        if isinstance(x.n, int) and isinstance(y.n, int):
            e.ensure(label + ' (length)', x.n == y.n, 'length %s, expected %s' % (x.n, y.n))
            cs = []
            for k in range(x.n):
                p, q = x.get(k), y.get(k)
                c = self._eq1(p, q)
                if c is True:
                    continue
                cs.append(zb(c))
                if len(cs) >= 8:
                    e.ensure(label, z3.And(*cs))
                    cs = []
            e.ensure(label, z3.And(*cs) if cs else True)
            return
        e.ensure(label + ' (length)', mk(x.n) == mk(y.n))
        if e.choice(2) == 0:
            j = e.fresh_int('at', 0)
            e.assume(j.i < zi(mk(x.n)))
            if e.feasible():
                e.ensure(label + ' (every element)', self._eq1(x.get(j.i), y.get(j.i)))
            raise PathEnd()

    def _eq1(self, p, q):
        if isinstance(p, (tuple, list, VcSeqBase)) and isinstance(q, (tuple, list, VcSeqBase)):
            x, y = to_seq(p), to_seq(q)
            if not (isinstance(x.n, int) and isinstance(y.n, int)):
                raise Unsupported('nested sequences of symbolic length')
            if x.n != y.n:
                return False
            return cond(self.and_(*[self._eq1(x.get(k), y.get(k)) for k in range(x.n)]))
        return cond(p == q)

    def _plain(self, v):
        if isinstance(v, (bytes, bytearray, list, tuple, range)):
            return [self._plain(x) for x in v]
        return v

    def forall(self, label, n, f):
        """f(k) for every 0 <= k < n"""
        self.checked += 1
        if self.mode == 'obs':
            return
        if self.conc:
            for k in range(n):
                if not bool(f(k)):
                    raise Violation(label, 'at index %d' % k)
            return
        e = self.E
        if isinstance(n, int):
            for k in range(n):
                e.ensure(label, f(k))
            return
        if e.choice(2) == 0:
            j = e.fresh_int('at', 0)
            e.assume(j.i < zi(n))
            if e.feasible():
                e.ensure(label, f(j))
            raise PathEnd()

    def aside(self, f):
        """run checks f() on a separate branch, so that case splits in it do not multiply with what follows"""
        if self.sym:
            if self.E.choice(2) == 0:
                f()
                raise PathEnd()
        else:
            f()

    def cover(self, label):
        if self.sym:
            self.E.cover(label)

    def trust(self, what):
        self.trusted.add(what)

    # ------------------------------------------------------------------ calls
    def call(self, f, *a, **k):
        try:
            return Outcome(f(*a, **k))
        except Control:
            raise
        except (Violation, Reject):
            raise
        except Exception as exc:
            if self.rt is not None:
                self.rt.caught(exc)
            return Outcome(None, exc)


def _short(x):
    s = repr(x)
    return s if len(s) < 400 else s[:400] + '...'


# --------------------------------------------------------------------------------------------------- running a harness
def run_conc(h, rng, inputs=None, tier='quick'):
    """one concrete run on the real code: ('ok'|'reject'|'violation'|'unfit', ctx, detail)"""
    vc = Ctx('conc', rng=rng, inputs=inputs, tier=tier)
    shims.reset_locks()
    core.set_engine(None)
    try:
        with Watchdog():
            h.fn(vc)
        return 'ok', vc, ''
    except Hang:
        return 'violation', vc, 'the code under contract does not come to an end (%d s of processor time)' % HANG_CPU
    except Reject as e:
        return 'reject', vc, str(e)
    except Violation as e:
        return 'violation', vc, '%s%s' % (e.label, (': ' + e.detail) if e.detail else '')
    except Unsupported as e:
        return 'unfit', vc, str(e)
    except RecursionError as e:
        return 'unfit', vc, 'recursion'
    except Exception as e:
        return 'unfit', vc, ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-4:])


def make_rt(observe=False, bounded=False):
    rt = Runtime()
    rt.observe = observe
    rt.bounded = bounded
    return rt


def observe(h, eng, seed, runs):
    """concrete runs of the instrumented code, to discard wrong loop-invariant candidates"""
    good = 0
    for k in range(runs * 12):
        if good >= runs:
            break
        eng.begin([])
        eng.work = []
        shims.reset_locks()
        eng.rt = make_rt(observe=True)
        vc = Ctx('obs', rng=random.Random(seed * 1000 + k), rt=eng.rt)
        try:
            h.fn(vc)
            good += 1
        except Reject:
            pass
        except (Control, Exception):
            good += 1


def prove(h, eng, bounded=False, tier='quick'):
    info = {'trusted': set(), 'paths': 0}

    def run():
        shims.reset_locks()
        rt = eng.rt = make_rt(bounded=bounded)
        vc = Ctx('sym', rt=rt, bounded=bounded, tier=tier)
        try:
            h.fn(vc)
            eng.cover('end of harness')
        finally:
            info['trusted'] |= vc.trusted
    eng.explore(run)
    return info
