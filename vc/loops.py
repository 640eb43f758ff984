"""Loop cut points: established / preserved / used invariants, chosen from candidates by refutation (Houdini style)."""
import re, sys, types, collections, functools, itertools, operator
import z3
from . import core, seq, shims
from .core import (VcInt, VcBool, Unsupported, PathEnd, Restart, ival, mk, zi, mkbool, vite, is_sym, cond, zb, isub, iadd)
from .seq import (VcSeqBase, VcBytes, VcBytearray, VcList, VcTuple, VcDict, VcRange, VcView, Conc, Fn, ObjSeq, to_seq, Seq)


def E():
    return core.ENG


class Poison(object):
    """value of a variable that is not known after a cut; any use is outside what the engine decides"""
    def __init__(self, why):
        object.__setattr__(self, 'why', why)

    def _no(self, *a, **k):
        raise Unsupported('value not determined after a loop: %s' % object.__getattribute__(self, 'why'))

    def __getattribute__(self, k):
        if k in ('__class__', '_vc_poison'):
            return object.__getattribute__(self, '__class__') if k == '__class__' else True
        object.__getattribute__(self, '_no')()

for _n in ('__bool__ __eq__ __ne__ __lt__ __le__ __gt__ __ge__ __add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __call__ __len__ '
           '__getitem__ __setitem__ __iter__ __contains__ __and__ __or__ __xor__ __mod__ __floordiv__ __int__ __index__ __str__ '
           '__format__ __hash__ __rand__ __ror__ __lshift__ __rshift__ __neg__ __iadd__ __enter__ __exit__ __setattr__').split():
    setattr(Poison, _n, lambda self, *a, **k: object.__getattribute__(self, '_no')())


class Info(object):
    """knowledge about one loop, kept across restarts"""
    def __init__(self):
        self.modified = {}      # slot key -> True
        self.dead = {}          # slot key -> set of refuted candidate labels
        self.observed = 0
        self.used = {}          # slot key -> label in use (for evidence)
        self.maxk = 0
        self.deadpreds = set()  # refuted guesses (number of the hint)
        self.anylen = set()     # lists without an invariant whose length changes
        self.ok = set()         # (slot key, label) preserved by some iteration
        self.few = False        # no invariant found and few iterations: looked at one by one, by their number


class Missing(object):
    pass

MISSING = Missing()


# ------------------------------------------------------------------------------------------------ heap walk
def snapshot(loc, names, world, roots=(), opaque=None, objs=None):
    """slots reachable from the local variables: {key: (getter, setter, value)}"""
    out = {}
    seen = set()
    todo = []

    def push(path, v):
        todo.append((path, v))

    for n, g in enumerate(roots):
        push('ghost%d' % n, g)
    for n in sorted(loc):
        if n.startswith('__vc'):
            continue
        v = loc[n]
        out[('L', n)] = (None, v)
        push(n, v)
    if world is not None:
        for mname, md in world.globals_of():
            for k in sorted(md):
                if k.startswith('__'):
                    continue
                v = md[k]
                if isinstance(v, (types.ModuleType, shims.Mod)):
                    continue
                out[('G', mname + '.' + k)] = ((md, k), v)
                push(mname + '.' + k, v)
        for c in world.classes():
            push('class ' + c.__name__, c)
    while todo:
        path, v = todo.pop(0)
        if isinstance(v, (int, str, bytes, float, type(None), VcInt, VcBool, VcTuple, Poison)):
            continue
        if id(v) in seen:
            continue
        seen.add(id(v))
        if isinstance(v, (VcList, VcBytearray)):
            out[('C', path)] = (v, v.s)
            _children(path, v.s, push)
        elif isinstance(v, VcBytes):
            continue
        elif isinstance(v, VcDict):
            out[('D', path)] = (v, tuple((a, b) for a, b in v.e) + (id(v.base),))
            for k, x in v.e:
                push('%s{%s}' % (path, k if not is_sym(k) else '*'), x)
            if v.base is not None:
                for n, (j, o) in enumerate(v.base.vals.known):
                    push('%s{*%d}' % (path, n), o)
        elif isinstance(v, (tuple,)):
            for k, x in enumerate(v):
                push('%s(%d)' % (path, k), x)
        elif isinstance(v, (list,)):
            for k, x in enumerate(v):
                push('%s[%d]' % (path, k), x)
            out[('N', path)] = (v, tuple(id(x) for x in v))
        elif isinstance(v, shims.VcIter):
            out[('A', path + '.pos')] = ((v, 'pos'), v.pos)
            push(path + '.of', v.of)
        elif hasattr(type(v), '__next__') and progress(v) != -1:
            out[('N', path)] = (v, progress(v))
        elif isinstance(v, shims.OneShot):
            out[('N', path)] = (v, v.used)
            for k in ('f', 'fn', 'keep'):
                push(path + '.' + k, getattr(v, k, None))
        elif isinstance(v, (dict, collections.deque, set, frozenset, shims.VcSet)):
            x = list(v.items() if isinstance(v, dict) else v.v if isinstance(v, shims.VcSet) else v)
            out[('N', path)] = (v, frozenset(x) if isinstance(v, (set, frozenset)) else tuple(x))
            for k, y in enumerate(x):
                push('%s{%s}' % (path, k), y)
        elif isinstance(v, type):
            if str(v.__module__).startswith('modbus_tk'):
                for k, x in enumerate(v.__bases__):
                    push(path + '.base%d' % k, x)
                for k, x in sorted(vars(v).items()):
                    if k.startswith('__') or isinstance(x, (property, types.GetSetDescriptorType, types.MemberDescriptorType)):
                        continue
                    if isinstance(x, (staticmethod, classmethod)):
                        x = x.__func__
                    out[('A', path + '.' + k)] = ((v, k), x)
                    push(path + '.' + k, x)
        elif getattr(v, '_vc_ignore', False):
            continue
        elif hasattr(v, '__self__') and callable(v):
            push(path + '.__self__', v.__self__)
        elif isinstance(v, types.FunctionType):
            if str(v.__module__).startswith('modbus_tk'):
                for k, c in enumerate(v.__closure__ or ()):
                    try:
                        x = c.cell_contents
                    except ValueError:
                        continue
                    if id(c) not in seen:
                        seen.add(id(c))
                        out[('A', '%s.%s' % (path, v.__code__.co_freevars[k]))] = ((c, 'cell_contents'), x)
                    push('%s.%s' % (path, v.__code__.co_freevars[k]), x)
                for k, x in sorted(vars(v).items()):
                    out[('A', path + '.' + k)] = ((v, k), x)
                    push(path + '.' + k, x)
                for k, x in enumerate((v.__defaults__ or ()) + tuple((v.__kwdefaults__ or {}).values())):
                    push('%s.default%d' % (path, k), x)
        elif isinstance(v, functools.partial):
            out[('N', path)] = (v, (v.func, v.args, tuple(v.keywords.items())))
            push(path + '.func', v.func)
            push(path + '.args', v.args)
            push(path + '.keywords', v.keywords)
        elif hasattr(v, '__dict__') and (getattr(v, '_vc_ghost', False) or str(type(v).__module__).startswith('modbus_tk')):
            if objs is not None:
                objs[id(v)] = v
            for k in sorted(vars(v)):
                x = vars(v)[k]
                if k.startswith('_vc'):
                    continue
                out[('A', path + '.' + k)] = ((v, k), x)
                push(path + '.' + k, x)
            push(path + '.class', type(v))
        elif opaque is not None:
            opaque.append((path, v))
    return out


def progress(it):
    """how far an iterator has got"""
    if isinstance(it, types.GeneratorType):
        f = it.gi_frame
        return None if f is None else (f.f_lasti, tuple((k, id(x)) for k, x in sorted(f.f_locals.items())))
    if isinstance(it, itertools.count):
        return repr(it)
    n = operator.length_hint(it, -1)
    if n < 0 and isinstance(it, enumerate):
        r = it.__reduce__()[1]
        return (r[1], progress(r[0]))
    return n


def _children(path, s, push):
    if isinstance(s, Conc):
        if len(s.v) <= 64:
            for k, x in enumerate(s.v):
                if not isinstance(x, (int, VcInt, VcBool)):
                    push('%s[%d]' % (path, k), x)
    elif isinstance(s, ObjSeq):
        for n, (j, o) in enumerate(s.known):
            push('%s[*%d]' % (path, n), o)
    elif isinstance(s, seq.Cat):
        for q in s.p:
            _children(path, q, push)
    elif isinstance(s, (seq.Slice, seq.Upd)):
        _children(path, s.base, push)


def modified(was, now, known=()):
    """name of a slot whose value differs between two snapshots, None when there is none"""
    for key, (ref, v0) in was.items():
        if key[0] == 'L' or id(ref[0] if key[0] in 'AG' else ref) in known:
            continue
        if key not in now or not same(v0, now[key][1]):
            return key[1]
    return None


def gkey(key):
    return key


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (int, str, bytes, float)) and type(a) is type(b):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, VcInt) and isinstance(b, VcInt):
        if a.b is not None and b.b is not None and a.t is None and b.t is None:
            return a.b.eq(b.b)
        if a.t is not None and b.t is not None:
            return a.t.eq(b.t)
    return False


def prove_equal(a, b):
    """z3 condition (or bool) that two values are equal; None when not comparable; sequences use a fresh index"""
    if same(a, b):
        return True
    if isinstance(a, (int, VcInt, VcBool)) and isinstance(b, (int, VcInt, VcBool)):
        return cond(a == b)
    if isinstance(a, Seq) or isinstance(b, Seq) or isinstance(a, (VcSeqBase, bytes)) or isinstance(b, (VcSeqBase, bytes)):
        try:
            x, y = to_seq(a), to_seq(b)
        except Unsupported:
            return None
        if isinstance(x.n, int) and isinstance(y.n, int):
            if x.n != y.n:
                return False
            cs = []
            for k in range(x.n):
                p, q = x.get(k), y.get(k)
                c = prove_equal(p, q)
                if c is None or c is False:
                    return False
                if c is not True:
                    cs.append(c)
            return z3.And(*cs) if cs else True
        e = E()
        ln = zi(mk(x.n)) == zi(mk(y.n))
        e.fresh_n += 1
        j = z3.Int('invidx!%d' % e.fresh_n)
        p, q = x.get(j), y.get(j)
        c = prove_equal(p, q)
        if c is None:
            return None
        return z3.And(ln, z3.Implies(z3.And(j >= 0, j < zi(mk(x.n))), zb(c)))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        cs = [prove_equal(x, y) for x, y in zip(a, b)]
        if any(c is None or c is False for c in cs):
            return False
        cs = [c for c in cs if c is not True]
        return z3.And(*cs) if cs else True
    if isinstance(a, core_real()) and isinstance(b, (core_real(), int, float)):
        return cond(a == b)
    return False


def valid_equal(a, b):
    """is a == b implied by the path condition?  stores into a sequence are compared position by position"""
    e = E()
    if isinstance(a, (Seq, VcSeqBase)) and isinstance(b, (Seq, VcSeqBase)):
        x, y = to_seq(a), to_seq(b)
        if isinstance(y, seq.Upd) and not (isinstance(x.n, int) and isinstance(y.n, int)):
            if not e.quick_valid(zi(mk(x.n)) == zi(mk(y.n))):
                return False
            done = []
            while isinstance(y, seq.Upd):
                c = prove_equal(x.get(y.i), y.v)
                if c is None or c is False:
                    return e._check() == z3.unsat
                if c is not True and e._check(z3.And(*([zi(mk(y.i)) != zi(mk(d)) for d in done] + [z3.Not(c)]))) != z3.unsat:
                    return False
                done.append(y.i)
                y = y.base
            e.fresh_n += 1
            j = z3.Int('invidx!%d' % e.fresh_n)
            c = prove_equal(x.get(j), y.get(j))
            if c is None or c is False:
                return e._check() == z3.unsat
            if c is True:
                return True
            return e._check(z3.And(j >= 0, j < zi(mk(x.n)), *([zi(mk(d)) != j for d in done] + [z3.Not(c)]))) == z3.unsat
    c = prove_equal(a, b)
    if c is True:
        return True
    if c is None or c is False:
        return e._check() == z3.unsat
    return e._check(z3.Not(c)) == z3.unsat


def core_real():
    from .real import VcReal
    return VcReal


# ------------------------------------------------------------------------------------------------ candidates
def ghost_slot(key, ref):
    return key[0] == 'A' and getattr(ref[0], '_vc_ghost', False) is True


class GhostHints(object):
    bools = offsets = streams = contents = ()

    def __init__(self, hints):
        self.ints = hints.ghost_ints


def candidates(key, entry, hints, ghost=False):
    """[(label, fn(k) -> value)]; fn may read live ghost state (so ghost state itself is described by ghost_ints only)"""
    if ghost:
        hints = GhostHints(hints)
    out = [('const', lambda k: entry)]
    if isinstance(entry, bool) or isinstance(entry, VcBool):
        for j, h in enumerate(hints.bools):
            out.append(('hint-bool%d' % j, lambda k, h=h: h(k)))
        return out
    if isinstance(entry, (int, VcInt)):
        for j, h in enumerate(hints.ints):
            out.append(('hint-int%d' % j, lambda k, h=h: h(k)))
        for c in (1, 2, 8):
            out.append(('+%dk' % c, lambda k, c=c: entry + k * c))
        out.append(('-1k', lambda k: entry - k))
        if isinstance(entry, int) and entry == 0:
            out.append(('k%8', lambda k: k % 8))
            out.append(('k//8', lambda k: k // 8))
        for j, h in enumerate(hints.offsets):
            out.append(('entry+hint%d' % j, lambda k, h=h: entry + h(k)))
        return out
    if isinstance(entry, (bytes, VcBytes)) or (isinstance(entry, Seq)):
        es = to_seq(entry)
        isb = not isinstance(entry, Seq)

        def w(s):
            if not isb:
                return s
            return VcBytes(s)
        for j, (S, lens) in enumerate(hints.streams):
            for ln, lf in lens:
                out.append(('entry++stream%d[%s]' % (j, ln), lambda k, S=S, lf=lf: w(seq.cat(es, seq.sl(to_seq(S() if callable(S) else S), 0, ival(lf(k)))))))
        for j, h in enumerate(hints.contents):
            out.append(('content%d' % j, lambda k, h=h: w(h(es, k))))
        if isb:
            n0 = mk(es.n)
            for lab, lf in (('+k', lambda k: k), ('+2k', lambda k: 2 * k), ('+k//8', lambda k: k // 8)):
                out.append(('any bytes[len%s]' % lab, LenOnly(key[1], lambda k, lf=lf: n0 + lf(k))))
        return out
    return out


class LenOnly(object):
    """bytes of which only the length is known"""
    def __init__(self, name, ln):
        self.name, self.ln = name, ln

    def __call__(self, k):
        s = free_bytes('hv.' + self.name)
        s.n = ival(self.ln(k))
        return VcBytes(s)

    def holds(self, k, v):
        if not isinstance(v, (bytes, VcBytes)):
            return False
        return cond(self.ln(k) == mk(to_seq(v).n))


def free_havoc(entry, name):
    e = E()
    if isinstance(entry, bool) or isinstance(entry, VcBool):
        return e.fresh_bool('hv.' + name)
    if isinstance(entry, (int, VcInt)):
        return e.fresh_int('hv.' + name)
    if isinstance(entry, (bytes, VcBytes)):
        return VcBytes(free_bytes('hv.' + name))
    if isinstance(entry, str):
        return seq.token('text', name)
    return Poison(name)


def free_bytes(name):
    e = E()
    n = e.fresh_int(name + '.len', 0)
    f = z3.Function('%s.at!%d' % (name, e.fresh_n), z3.IntSort(), z3.IntSort())

    def get(i):
        t = f(zi(mk(i)))
        e2 = E()
        e2.fact(z3.And(t >= 0, t <= 255))
        return VcInt(t, None, 0, 255)
    return Fn(n.i, get)


def free_ints(name, n):
    e = E()
    if n is None:
        n = e.fresh_int(name + '.len', 0).i
    e.fresh_n += 1
    f = z3.Function('%s.at!%d' % (name, e.fresh_n), z3.IntSort(), z3.IntSort())
    return Fn(n, lambda i: VcInt(f(zi(mk(i)))))


def all_ints(s):
    isint = lambda v: isinstance(v, (int, VcInt)) and not isinstance(v, bool)
    if isinstance(s, Conc):
        return all(isint(v) for v in s.v)
    if isinstance(s, seq.Upd):
        return isint(s.v) and all_ints(s.base)
    if isinstance(s, seq.Cat):
        return all(all_ints(p) for p in s.p)
    if isinstance(s, seq.Slice):
        return all_ints(s.base)
    if isinstance(s, Fn):
        E().fresh_n += 1
        return isint(s.get(z3.Int('anyidx!%d' % E().fresh_n)))
    return False


class Hints(object):
    def __init__(self):
        self.ints = []          # fn(k) -> int
        self.ghost_ints = []    # fn(k) -> int, reading no live ghost state: for ghost attributes
        self.bools = []         # fn(k) -> bool
        self.preds = []         # fn() -> condition over ghost state: guessed to hold whenever a loop starts an iteration
        self.offsets = []       # fn(k) -> int, added to the entry value
        self.streams = []       # (Seq or callable, [(name, fn(k)->len)])
        self.contents = []      # fn(entry Seq, k) -> Seq
        self.context = None     # fn() -> str: executions of one loop in different contexts have invariants of their own
        self.variants = []      # fn() -> int, decreases on every iteration of a while loop
        self.ghosts = []        # ghost objects with _vc_inv()
        self.roots = []         # ghost objects that loops may change
        self.witnesses = []     # indices at which every for loop is also looked at (before the step and at the exit)


NATIVE_MAX = 40
UNROLL = 8


def where():
    """place in the code under verification from which a helper is called"""
    f = sys._getframe(2)
    while f is not None:
        if f.f_globals.get('__package__') == 'modbus_tk':
            return '@%s' % f.f_code.co_qualname
        f = f.f_back
    return ''


STATELESS = (object, types.ModuleType, types.BuiltinFunctionType, types.MethodDescriptorType, types.WrapperDescriptorType, types.CodeType,
             range, slice, complex, type(Ellipsis), type(NotImplemented), types.MappingProxyType, re.Pattern, re.Match)


class Loop(object):
    def __init__(self, rt, lid, names, s=None, native_it=None):
        self.rt = rt
        c = rt.hints.context
        if lid.startswith('prelude:'):
            lid += where()
        self.lid = lid + ('[%s]' % c() if c is not None else '')
        self.names = names
        self.s = s
        self.flt = None
        self.native = native_it is not None
        self.it = native_it
        self.phase = 'start'
        self.vals = {}
        self.item = None
        self.k = 0
        self.obs = rt.observe
        self.heads = 0
        self.forks0 = None
        self.isfor = s is not None

    def by_cases(self):
        if self.info().few and not self.obs:
            v = shims.few(self.s)
            if v is not None:
                f = self.flt
                self.native = True
                self.it = iter(v) if f is None else (f.f(x) for x in v if f.keep(x))
        return self

    def skip(self):
        """an iteration that the condition of a generator expression leaves out"""
        if self.flt is not None:
            if not self.flt.keep(self.item):
                return True
            self.item = self.flt.f(self.item)
        return False

    def info(self):
        return E().loop_db.setdefault(self.lid, Info())

    # -------------------------------------------------------------- observe mode (concrete run, filters candidates)
    def observe_head(self, loc):
        inf = self.info()
        if self.phase == 'start':
            self.phase = 'obs'
            self.k = 0
            self.entry = snapshot(loc, self.names, self.rt.world, self.rt.hints.roots)
            self.cands = {}
            self._observe_preds(inf)
            if self.isfor:
                self.items = self.s.items()
        else:
            self._observe_preds(inf)
            self.k += 1
            inf.maxk = max(inf.maxk, self.k)
            if self.k <= 80 or self.k % 16 < 2:
                self._observe(loc, inf)
        if self.isfor:
            if self.k >= len(self.items):
                self.vals = {}
                return False
            self.item = self.items[self.k]
            return True
        return False

    def _observe_preds(self, inf):
        for n, f in enumerate(self.rt.hints.preds):
            if n not in inf.deadpreds:
                try:
                    if not bool(f()):
                        inf.deadpreds.add(n)
                except Exception:
                    inf.deadpreds.add(n)

    def _preds(self):
        inf = self.info()
        return [(n, f) for n, f in enumerate(self.rt.hints.preds) if n not in inf.deadpreds]

    def _observe(self, loc, inf):
        now = snapshot(loc, self.names, self.rt.world, self.rt.hints.roots)
        hints = self.rt.hints
        for key, (ref, v0) in self.entry.items():
            if key not in now:
                continue
            v1 = now[key][1]
            if key[0] in ('L',) and isinstance(v0, (VcList, VcBytearray)):
                if v1 is v0:
                    continue
            if key not in inf.modified:
                if same(v0, v1):
                    continue
                inf.modified[key] = True
            dead = inf.dead.setdefault(key, set())
            if key not in self.cands:
                self.cands[key] = candidates(key, v0, hints, ghost_slot(key, ref))
            for lab, f in self.cands[key]:
                if lab in dead:
                    continue
                try:
                    if isinstance(f, LenOnly):
                        ok = f.holds(self.k, v1) is True
                    else:
                        ok = self._ceq(f(self.k), v1)
                except Unsupported:
                    raise
                except Exception:
                    ok = False
                if not ok:
                    dead.add(lab)

    def _ceq(self, a, b):
        if isinstance(a, (Seq, VcSeqBase, bytes)) and isinstance(b, (Seq, VcSeqBase, bytes)):
            x, y = to_seq(a), to_seq(b)
            if x.n != y.n:
                return False
            return all(self._ceq(p, q) for p, q in zip(x.items(), y.items()))
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            return a == b
        return same(a, b)

    # -------------------------------------------------------------- cut protocol
    def head(self, loc):
        e = E()
        if e.dead:
            raise PathEnd()
        if self.obs:
            return self.observe_head(loc)
        if not self.isfor and self.phase == 'start':
            self.heads += 1
            if self.forks0 is None:
                self.forks0 = e.nforks
            if e.nforks - self.forks0 < self.rt.unroll or self.rt.bounded:
                if self.heads > 20000:
                    raise Unsupported('loop did not finish')
                return False
        if self.phase == 'start':
            return self._start(loc)
        if self.phase == 'step':
            self._step_end(loc)
            raise PathEnd()
        if self.phase == 'replay':
            self._discover(loc)
            return self._next_replay()
        raise Unsupported('loop protocol')

    def _start(self, loc):
        e = E()
        inf = self.info()
        unknown, self.objs = [], {}
        self.entry = snapshot(loc, self.names, self.rt.world, self.rt.hints.roots, unknown, self.objs)
        for p, v in unknown:
            t = type(v)
            if not (t.__module__.startswith(('vc.', 'props', '__future__')) or t in STATELESS or isinstance(v, BaseException)):
                raise Unsupported('the state of %s (%s) in a loop' % (p, t.__name__))
        self.chosen = {}
        e.inductions.setdefault(self.lid, inf)
        hints = self.rt.hints
        for key in list(inf.modified):
            if key not in self.entry:
                continue
            ref, v0 = self.entry[key]
            if key[0] == 'L' and isinstance(v0, (VcList, VcBytearray)):
                # rebinding of a container variable: unsupported unless the object stays (content has its own slot)
                self.chosen[key] = ('const', lambda k, v0=v0: v0)
                if 'const' in inf.dead.get(key, ()):
                    self.chosen[key] = ('free', None)
                continue
            dead = inf.dead.setdefault(key, set())
            ch = None
            for lab, f in candidates(key, v0, hints, ghost_slot(key, ref)):
                if lab in dead:
                    continue
                try:
                    c = f.holds(0, v0) if isinstance(f, LenOnly) else prove_equal(f(0), v0)
                except (Unsupported, Restart, PathEnd):
                    raise
                except Exception:
                    c = None
                if c is None or c is False or (c is not True and not e.quick_valid(c)):
                    dead.add(lab)
                    continue
                ch = (lab, f)
                break
            self.chosen[key] = ch if ch is not None else ('free', None)
            inf.used[key] = self.chosen[key][0]
        if self.isfor and not inf.few and any(lab == 'free' and key[0] in 'CAG' and not self._is_ghost(key) for key, (lab, f) in self.chosen.items()) \
                and e.quick_valid(zi(mk(self.s.n)) <= 8):
            inf.few = True
            raise Restart()
        e.path_loops.append(self)
        self.born0 = len(e.born)
        # invariants established at entry
        for g in self._ghosts():
            for lab, c in g._vc_inv():
                e.ensure('%s: %s holds at loop entry' % (self.lid, lab), c)
        for n, f in self._preds():
            c = cond(f())
            if c is not True and (c is False or not e.quick_valid(c)):
                inf.deadpreds.add(n)
        self.counted = False
        if self.isfor:
            n = self.s.n
            self.kv = e.fresh_int('k', 0)
            e.fact(self.kv.i <= zi(mk(n)))
            if mk(self.kv.i) < mk(n):
                k = VcInt(self.kv.i, None, 0, None)
                self.stepk = k
                self.pending = []
                if getattr(self._witness_seq(), 'replay_step', False):
                    for w in self._witnesses():
                        if bool(w < k):
                            self.pending.append(w)
                if not self.s.conc():
                    for w in self.rt.hints.witnesses:
                        if bool(w >= 0) and bool(w < k):
                            self.pending.append(w)
                return self._next_replay(step=True)
            self.stepk = None
            self.pending = self._witnesses()
            if not self.s.conc():
                for w in self.rt.hints.witnesses:
                    if bool(w >= 0) and bool(w < mk(self.s.n)):
                        self.pending.append(w)
            return self._next_replay()
        self.kv = e.fresh_int('k', 0)
        self.stepk = VcInt(self.kv.i, None, 0, None)
        self._apply(self.stepk)
        self.phase = 'step'
        self.variant0 = [h() for h in self.rt.hints.variants]
        return True

    def drop_guess(self):
        inf = self.info()
        g = []
        for key, (lab, f) in self.chosen.items():
            if f is not None and lab != 'const' and (key, lab) not in inf.ok and lab not in inf.dead.get(key, ()):
                g.append((0 if lab[0] in '+-' or lab.startswith('hint') else 1, str(key), key, lab))
        if not g:
            return False
        _, _, key, lab = sorted(g, key=lambda x: x[:2])[0]
        inf.dead.setdefault(key, set()).add(lab)
        return True

    def _witness_seq(self):
        s = self.s
        return getattr(s, 'root', s)

    def _witnesses(self):
        s = self._witness_seq()
        ws = getattr(s, 'witness', [])
        e = E()
        out = []
        for w in ws:
            w = mk(w) if not isinstance(w, (int, VcInt)) else w
            if e.quick_valid(z3.And(zi(w) >= 0, zi(w) < zi(mk(self.s.n)))):
                out.append(w)
        return out

    def _next_replay(self, step=False):
        e = E()
        if self.pending:
            w = self.pending.pop(0)
            self.phase = 'replay'
            self._apply(w)
            self.item = self.s.get(ival(w))
            return True
        if self.stepk is not None:
            self.phase = 'step'
            self._apply(self.stepk)
            self.item = self.s.get(ival(self.stepk))
            return True
        self.phase = 'exit'
        self._apply(mk(self.s.n))
        return False

    def leave(self):
        """the loop is left; an earlier iteration that is only looked at again did not leave it"""
        t = sys.exc_info()[0]
        if t is not None and issubclass(t, core.Control):
            return
        if self.phase == 'replay':
            raise PathEnd()

    def _ghosts(self):
        return self.rt.hints.ghosts

    def _apply(self, k):
        """put every modified slot into the state the invariants describe at iteration k"""
        e = E()
        self.vals = {}
        fresh = {}
        inf = self.info()
        order = sorted(self.chosen, key=lambda key: (0 if self._is_ghost(key) else 1, str(key)))
        for key in order:
            lab, f = self.chosen[key]
            ref, v0 = self.entry[key]
            if f is None:
                if key[0] == 'C':
                    v = None
                    if isinstance(ref, VcBytearray):
                        v = free_bytes('hv.' + key[1])
                    else:
                        if not all_ints(v0):
                            raise Unsupported('no invariant for list %s in %s' % (key[1], self.lid))
                        v = free_ints('hv.' + key[1], None if key in inf.anylen else v0.n)
                elif key[0] in ('D', 'N'):
                    raise Unsupported('no invariant for %s in %s' % (key[1], self.lid))
                else:
                    v = free_havoc(v0, key[1])
                if not self._is_ghost(key):
                    e.imprecise = True
            else:
                v = f(k)
                if isinstance(f, LenOnly):
                    e.imprecise = True
            if key[0] == 'L':
                self.vals[key[1]] = v
            elif key[0] == 'C':
                ref.s = v if isinstance(v, Seq) else to_seq(v)
            elif key[0] in ('A',):
                o, a = ref
                setattr(o, a, v)
            elif key[0] == 'G':
                ref[0][ref[1]] = v
            elif key[0] == 'D':
                if lab != 'const':
                    raise Unsupported('dictionary modified in a loop')
                ref.e = [[a, b] for a, b in v0[:-1]]
        for g in self._ghosts():
            for lab, c in g._vc_inv():
                e.fact(c)
        for n, f in self._preds():
            c = f()
            if cond(c) is not True:
                e.fact(zb(c))
        self.headsnap = None

    def _is_ghost(self, key):
        if key[0] != 'A':
            return False
        ref = self.entry[key][0]
        return getattr(ref[0], '_vc_ghost', False) is True

    def _discover(self, loc):
        """slots changed by this iteration that were not known to be modified"""
        inf = self.info()
        now = snapshot(loc, self.names, self.rt.world, self.rt.hints.roots)
        new = False
        for key, (ref, v0) in now.items():
            if key[0] in 'AG' and key not in self.entry and (key[0] == 'G' or id(ref[0]) in self.objs) and not any(k[0] in 'AG' and r[0] is ref[0] and r[1] == ref[1] for k, (r, v) in self.entry.items()):
                raise Unsupported('an attribute is created in a loop: %s' % key[1])
        for key, (ref, v0) in self.entry.items():
            if key in inf.modified:
                continue
            if key not in now:
                if key[0] == 'A' and not hasattr(ref[0], ref[1]) or key[0] == 'G' and ref[1] not in ref[0]:
                    raise Unsupported('an attribute is deleted in a loop: %s' % key[1])
                continue
            if not same(v0, now[key][1]):
                if key[0] == 'N':
                    raise Unsupported('native list modified in a loop')
                inf.modified[key] = True
                new = True
        if new:
            raise Restart()
        known = set(id(ref[0]) if key[0] in 'AG' else id(ref) for key, (ref, v0) in self.entry.items())
        for o, was in E().born[self.born0:]:
            # an element first looked at during this iteration stands for every element: it has to be left as it was
            changed = modified(was, snapshot({'o': o}, (), None), known)
            if changed:
                raise Unsupported('an element of a collection is modified in a loop: %s' % changed)
        return now

    def _step_end(self, loc):
        e = E()
        inf = self.info()
        now = self._discover(loc)
        k1 = self.stepk + 1
        dropped = False
        for key, (lab, f) in self.chosen.items():
            if f is None:
                if key[0] == 'C' and isinstance(self.entry[key][0], VcList):
                    if key not in now or not all_ints(now[key][1]):
                        raise Unsupported('no invariant for list %s in %s' % (key[1], self.lid))
                    if key not in inf.anylen and not e.quick_valid(zi(mk(now[key][1].n)) == zi(mk(self.entry[key][1].n))):
                        inf.anylen.add(key)
                        dropped = True
                continue
            if key not in now:
                inf.dead[key].add(lab)
                dropped = True
                continue
            v1 = now[key][1]
            if key[0] == 'L' and isinstance(v1, (VcList, VcBytearray)):
                if v1 is not self.entry[key][1]:
                    inf.dead.setdefault(key, set()).add(lab)
                    dropped = True
                continue
            if key[0] == 'D':
                if not same(v1, self.entry[key][1]):
                    raise Unsupported('dictionary modified in a loop')
                continue
            try:
                if isinstance(f, LenOnly):
                    c = f.holds(k1, v1)
                    ok = c if isinstance(c, bool) else e.quick_valid(c)
                else:
                    ok = valid_equal(f(k1), v1)
            except (Unsupported, Restart, PathEnd):
                raise
            except Exception:
                ok = False
            if not ok:
                inf.dead[key].add(lab)
                dropped = True
            else:
                inf.ok.add((key, lab))
                e.obl.append(core.Obligation('%s: invariant "%s = %s" preserved' % (self.lid, key[1], lab), 'proved', 0.0))
        for n, f in self._preds():
            c = cond(f())
            if c is not True and (c is False or not e.quick_valid(c)):
                inf.deadpreds.add(n)
                dropped = True
            else:
                e.obl.append(core.Obligation('%s: invariant number %d over the environment preserved' % (self.lid, n), 'proved', 0.0))
        if dropped:
            raise Restart()
        for g in self._ghosts():
            for lab, c in g._vc_inv():
                e.ensure('%s: %s preserved' % (self.lid, lab), c)
        if not self.isfor:
            for h, v0 in zip(self.rt.hints.variants, self.variant0):
                v = h()
                e.ensure('%s: every iteration makes progress (variant decreases)' % self.lid, (v < v0) & (v0 >= 0)
                         if is_sym(v) or is_sym(v0) else (v < v0 and v0 >= 0))
