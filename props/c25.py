"""C25: hook points call their functions in installation order."""
from vc import core
from vc.core import Unsupported, mk, zi
from vc.harness import harness
from vc.seq import VcDict, VcList, ObjSeq, Conc
from vc.shims import GhostLock

HK = 'hooks.'
FNS = [HK + 'install_hook', HK + 'uninstall_hook', HK + 'call_hooks']
ERRORS = lambda: (HookError, KeyError, StopIteration, TypeError, ValueError, AttributeError, IndexError, OSError, RuntimeError, AssertionError)
FALSY = (0, False, b'', '', (), 'x', 1, (1, 2))


# names that begin alike
NAME = {'A': 'modbus.Master.before', 'B': 'modbus.Master.before_send', 'C': 'modbus.Master', 'a': 'a', 'b': 'a.b', 'c': 'ab'}


class HookError(Exception):
    pass


class Calls(object):
    """the calls of one hook point: in order, each with the arguments, none after the first value or error"""
    _vc_ghost = True

    def __init__(self, vc, name):
        self._vc_c, self._vc_name = vc, name
        self._vc_stop = None            # position at which a value is returned or an error raised
        self._vc_value = self._vc_exc = None
        self._vc_args = None            # None: the hook point is not being called
        self.count = 0

    def _vc_inv(self):
        vc = self._vc_c
        out = [('count', self.count >= 0)]
        if self._vc_stop is not None:
            out.append(('nothing is called after the first value', self.count <= self._vc_stop))
        return out

    def call(self, pos, who, args):
        vc, n = self._vc_c, self._vc_name
        vc.ensure('%s: only functions of the hook point that is called are called' % n, self._vc_args is not None, lambda: repr(who))
        vc.ensure('%s: a removed function is not called' % n, pos is not None, lambda: repr(who))
        vc.ensure('%s: the functions are called in installation order' % n, pos == self.count, lambda: 'function %r called as number %r' % (pos, self.count))
        vc.ensure('%s: the functions get the arguments' % n, args is self._vc_args or args == self._vc_args, lambda: repr(args))
        self.count = self.count + 1
        if self._vc_stop is not None:
            vc.ensure('%s: nothing is called after the first value or error' % n, pos <= self._vc_stop, lambda: 'function %r is called after %r' % (pos, self._vc_stop))
            if bool(pos == self._vc_stop):
                if self._vc_exc is not None:
                    raise self._vc_exc
                return self._vc_value
        return None


class HookFn(object):
    """function number i of an arbitrary list of functions"""
    def __init__(self, calls, i):
        self._calls, self._i = calls, i
        self._at = lambda i: i          # where it is in the list now

    def __call__(self, args):
        return self._calls.call(self._at(self._i), self, args)

    def __repr__(self):
        return 'f%r' % (self._i,)


class Hooks(object):
    """the hook module with any number of functions at the hook points A and B, none at C"""
    def __init__(self, vc):
        self.vc = vc
        self.w = vc.world()
        self.hooks = self.w.hooks
        for f in ('install_hook', 'uninstall_hook', 'call_hooks'):
            vc.need(self.hooks, f)
        self.points = {}
        self.fns = {}
        for p in 'AB':
            self.points[p] = Calls(vc, p)
        self.size = {}
        if vc.sym and not vc.bounded:
            d = self._registry()
            for p in 'AB':
                n = vc.int('functions of ' + p, 0)
                c = self.points[p]
                s = ObjSeq(n.i, lambda i, serial, c=c: self._make(c, mk(i)))
                self.size[p] = n
                d[NAME[p]] = VcList(s)
                self.fns[p] = s
        else:
            for p in 'AB':
                n = vc.int('functions of ' + p, 0, 12 if vc.conc else 3, near=(0, 1, 2, 3))
                fs = [HookFn(self.points[p], k) for k in range(12)][:int(n) if vc.conc else vc.E.choice(4)]
                if not vc.conc:
                    vc.assume(n == len(fs))
                for f in fs:
                    self.hooks.install_hook(NAME[p], f)
                self.fns[p] = fs
                self.size[p] = len(fs)
        vc.hints.ghosts += list(self.points.values())
        vc.hints.roots += list(self.points.values())

    def _make(self, c, i):
        f = HookFn(c, i)
        f._at = lambda i, c=c: self.where(c)(i)
        return f

    _where = None

    def where(self, c):
        return (self._where or {}).get(c, lambda i: i)

    def moved(self, p, at):
        """the functions of p are now at these positions"""
        c = self.points[p]
        if isinstance(self.fns[p], list):
            for f in self.fns[p]:
                f._at = at
        else:
            self._where = dict(self._where or {})
            self._where[c] = at

    def _registry(self):
        """the dictionary the hook module keeps, found by using it"""
        def probe(args):
            return None
        self.hooks.install_hook('probe', probe)
        d = [v for v in vars(self.hooks).values() if isinstance(v, VcDict) and v._find('probe') is not None]
        if len(d) != 1 or not isinstance(d[0]['probe'], VcList) or not d[0]['probe'].s.conc() or d[0]['probe'].s.items() != [probe]:
            raise Unsupported('the hooks are not a dictionary of lists of functions')
        del d[0]['probe']
        return d[0]

    def pick(self, p):
        """one of the functions of p and its position"""
        vc = self.vc
        n = self.size[p]
        vc.assume(n > 0)
        if isinstance(self.fns[p], list):
            i = vc.int('which', 0, 11 if vc.conc else 2)
            vc.assume(i < n)
            if not vc.conc:
                for k in range(len(self.fns[p])):
                    if bool(i == k):
                        return self.fns[p][k], k
            return self.fns[p][i], i
        i = vc.int('which', 0)
        vc.assume(i < n)
        return self.fns[p].get(i.i), i

    def check(self, p, total, label):
        """call hook point p, which has `total` functions"""
        vc = self.vc
        c = self.points.get(p)
        args = ('args', vc.int('argument'))
        kind = vc.pick('outcome', ('none', 'value', 'error')) if p == 'A' else 'none'
        value = exc = None
        if kind != 'none':
            stop = vc.int('stop', 0, None if vc.sym else 11)
            vc.assume(stop < total)
            if kind == 'value':
                value = c._vc_value = vc.pick('value', FALSY + (args,))
            else:
                exc = c._vc_exc = vc.pick('error', ERRORS())()
            c._vc_stop = stop
        if c is not None:
            c._vc_args = args
            c.count = 0
        vc.hints.context = lambda: p
        r = vc.call(self.hooks.call_hooks, NAME[p], args)
        if c is not None:
            c._vc_args = None
        vc.cover(kind)
        if kind == 'error':
            vc.ensure(label + ': the error of a hook function reaches the caller', r.exc is exc, r)
            vc.ensure(label + ': the functions up to the failing one were called', c.count == c._vc_stop + 1)
        elif kind == 'value':
            vc.ensure(label + ': the first value is returned', r.ok and r.value is value, r)
            vc.ensure(label + ': the functions up to the first value were called', c.count == c._vc_stop + 1)
        else:
            vc.ensure(label + ': nothing is returned', r.ok and r.value is None, r)
            if c is not None:
                vc.ensure(label + ': every function was called', c.count == total, lambda: '%r of %r' % (c.count, total))
        for l in self.w.locks:
            vc.ensure('no lock is held after a call', not l.locked())


@harness('C25', FNS, repr=True, weight=2)
def calling(vc):
    """any number of functions at each hook point"""
    h = Hooks(vc)
    p = vc.pick('point', ('A', 'B', 'C'))
    h.check(p, h.size.get(p, 0), 'call')


@harness('C25', FNS, repr=True, weight=2)
def installing(vc):
    h = Hooks(vc)
    p = vc.pick('point', ('A', 'B', 'C'))
    at = vc.pick('where', ('A', 'C'))
    c = h.points['A'] if at == 'A' else Calls(vc, 'C')
    n = h.size.get(at, 0)
    if at == 'C':
        h.points['C'] = c
        vc.hints.ghosts.append(c)
        vc.hints.roots.append(c)
    f = HookFn(c, n)
    r = vc.call(h.hooks.install_hook, NAME[at], f)
    vc.ensure('installing succeeds', r.ok, r)
    total = h.size.get(p, 0) + (1 if p == at else 0)
    h.check(p, total, 'after an installation')


@harness('C25', FNS, repr=True, weight=2)
def removing(vc):
    h = Hooks(vc)
    p = vc.pick('point', ('A', 'B'))
    f, i = h.pick('A')
    r = vc.call(h.hooks.uninstall_hook, NAME['A'], f)
    vc.ensure('removing an installed function succeeds', r.ok, r)
    f._at = lambda _: None

    def at(k):
        return vc.ite(k < i, k, k - 1)
    if isinstance(h.fns['A'], list):
        for g in h.fns['A']:
            if g is not f:
                g._at = at
    else:
        h.moved('A', at)
    h.check(p, h.size[p] - (1 if p == 'A' else 0), 'after a removal')


@harness('C25', FNS, repr=True)
def removing_all(vc):
    h = Hooks(vc)
    p = vc.pick('point', ('A', 'B'))
    vc.assume(h.size['A'] > 0)
    r = vc.call(h.hooks.uninstall_hook, NAME['A'])
    vc.ensure('removing all functions succeeds', r.ok, r)
    h.moved('A', lambda k: None)
    h.check(p, 0 if p == 'A' else h.size[p], 'after removing all functions')
    g = HookFn(h.points['A'], 0)
    if p == 'A':
        vc.call(h.hooks.install_hook, NAME['A'], g)
        h.points['A']._vc_stop = h.points['A']._vc_exc = None
        h.check('A', 1, 'after a new installation')


@harness('C25', FNS, sym=False)
def history(vc):
    """random histories of installations, removals and calls; hook functions that call, install and remove hooks"""
    w = vc.world()
    hk = w.hooks
    model = {}
    trace = []
    errors = ERRORS()

    def fn(name, k, ret):
        def f(args):
            trace.append((k, args))
            if ret == 'error':
                raise errors[k % len(errors)](k)
            if ret == 'nested':
                return hk.call_hooks('inner', ('inner', args))
            return args if ret == 'args' else ret
        return f
    ops = vc.given('ops', lambda r: [[r.choice(('install', 'install', 'install', 'again', 'again', 'fill', 'remove', 'clear', 'call', 'call', 'call')), r.choice('abc'), r.randrange(6),
                                      r.choice((None, None, None, None, None, 0, '', 'v', 'args', 'error', 'nested'))] for _ in range(r.randrange(1, 16))])
    inner = vc.pick('inner', (None, 7))
    hk.install_hook('inner', lambda args: (trace.append(('inner', args)), inner)[1])
    serial = 0
    for op, p, k, ret in ops:
        l = model.setdefault(p, [])
        if op == 'install':
            serial += 1
            f = fn(p, serial, ret)
            hk.install_hook(NAME[p], f)
            l.append((serial, ret, f))
        elif op == 'again' and any(model.values()):
            # a function that is installed already, at this or another hook point
            l2 = [x for p2 in sorted(model) for x in model[p2]]
            x = l2[k % len(l2)]
            hk.install_hook(NAME[p], x[2])
            l.append(x)
        elif op == 'fill':
            for _ in range(k * 3):
                serial += 1
                f = fn(p, serial, None)
                hk.install_hook(NAME[p], f)
                l.append((serial, None, f))
        elif op == 'remove' and l:
            f = l[k % len(l)][2]
            l.pop([x[2] for x in l].index(f))       # the earliest installation goes
            hk.uninstall_hook(NAME[p], f)
        elif op == 'clear' and l:
            hk.uninstall_hook(NAME[p])
            l[:] = []
        elif op == 'call':
            del trace[:]
            args = (p, k)
            r = vc.call(hk.call_hooks, NAME[p], args)
            want, res, err = [], None, None
            for s, ret2, f in l:
                want.append((s, args))
                if ret2 == 'nested':
                    want.append(('inner', ('inner', args)))
                    ret2 = inner
                if ret2 == 'error':
                    err = errors[s % len(errors)]
                    break
                if ret2 is not None:
                    res = args if ret2 == 'args' else ret2
                    break
            vc.ensure('the functions are called in installation order up to the first value', trace == want, lambda: '%r, expected %r' % (trace, want))
            if err:
                vc.ensure('the error reaches the caller', r.raised(err), r)
            else:
                vc.ensure('the first value is returned', r.ok and r.value == res and type(r.value) is type(res), r)
