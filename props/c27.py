"""C27: every operation on a slave is one critical section of the lock of that slave."""
import sys, struct
from vc import core, seq
from vc.core import Unsupported
from vc.harness import harness, Reject
from vc.seq import VcDict, VcList
from vc.shims import GhostLock
from .common import KINDS
from .registry import Reg

SL = 'modbus.Slave.'
LOCAL = [SL + f for f in ('get_values', 'set_values', 'add_block', 'remove_block', 'remove_all_blocks', '_get_block')]
REMOTE = [SL + f for f in ('handle_request', '_read_coils', '_read_discrete_inputs', '_read_digital', '_read_registers', '_read_holding_registers', '_read_input_registers',
                           '_read_exception_status', '_write_single_coil', '_write_single_register', '_write_multiple_coils', '_write_multiple_registers',
                           '_mask_write_register', '_read_write_multiple_registers', '_get_block_and_offset')]
BLOCK = ['modbus.ModbusBlock.__getitem__', 'modbus.ModbusBlock.__setitem__', 'modbus.ModbusBlock.is_in']


class Guard(object):
    """ghost state: is the lock of the slave held, how many critical sections have accessed the slave so far"""
    _vc_ghost = True

    def __init__(self, vc):
        self._vc_c = vc
        self._vc_on = False
        self._vc_probe = None
        self._vc_lock = None
        self._vc_n = 0
        self.held = 0
        self.sections = 0
        self.inside = False         # the current critical section has accessed the slave

    def event(self, what, lock):
        if lock is not self._vc_lock:
            return
        self.held = 1 if what == 'acquire' else 0
        self.inside = False

    def touch(self, what):
        if self._vc_probe is not None:
            self._vc_probe.append([l for l in self._vc_c.rt.world.locks if l.depth > 0])
        if not self._vc_on:
            return
        vc = self._vc_c
        self._vc_n += 1
        vc.ensure('the slave is accessed only inside a critical section of its lock', self.held == 1, lambda: what)
        if not bool(self.inside):
            self.inside = True
            self.sections = self.sections + 1

    def _vc_inv(self):
        return []


GUARD = [None]


def watch(o):
    """accesses of the code to this container are reported"""
    if isinstance(o, VcDict):
        object.__setattr__(o, '__class__', GDict)
    elif isinstance(o, VcList):
        object.__setattr__(o, '__class__', GList)


def _report(self, k):
    if GUARD[0] is not None and not sys._getframe(2).f_code.co_filename.endswith('loops.py'):
        GUARD[0].touch('access to a %s' % ('dictionary' if isinstance(self, VcDict) else 'list'))


class GDict(VcDict):
    def __getattribute__(self, k):
        if k in ('e', 'base'):
            _report(self, k)
        return object.__getattribute__(self, k)


class GList(VcList):
    def __getattribute__(self, k):
        if k == 's':
            _report(self, k)
        return object.__getattribute__(self, k)


def guarded_class(c):
    """a subclass whose container attributes are watched when they are replaced"""
    def setter(self, k, v):
        if GUARD[0] is not None and isinstance(v, (VcDict, VcList, dict, list)):
            GUARD[0].touch('attribute %s is replaced' % k)
        object.__setattr__(self, k, v)
    return type(c.__name__, (c,), {'__setattr__': setter, '__module__': c.__module__})


class Watched(object):
    """an arbitrary slave whose registry and values are watched"""
    def __init__(self, vc, focus=KINDS):
        self.vc = vc
        self.w = w = vc.world()
        GUARD[0] = None
        GhostLock.monitor = None
        self.reg = Reg(vc, w, focus)
        self.slave = self.reg.slave
        self.blockclass = guarded_class(w.modbus.ModbusBlock)
        if self.reg.any:
            for s in self.reg.mem.seqs.values():
                s.make = self.wrap(s.make)
                for _, b in s.known:
                    self.block(b)
        for v in list(vars(self.slave).values()):
            self.mark(v, 0)
        self.slave.__class__ = guarded_class(type(self.slave))
        self.guard = g = Guard(vc)
        vc.hints.roots.append(g)
        vc.hints.ghosts.append(g)
        vc.hints.preds.append(lambda: vc.or_(vc.and_(g.inside, g.sections == 1), vc.and_(vc.not_(g.inside), g.sections == 0)))
        self.find_lock()

    def wrap(self, make):
        def m(i, serial):
            on, GUARD[0] = GUARD[0], None
            b = make(i, serial)
            self.block(b)
            GUARD[0] = on
            return b
        return m

    def block(self, b):
        for v in list(vars(b).values()):
            watch(v)
        b.__class__ = self.blockclass

    def mark(self, v, depth):
        if isinstance(v, VcDict):
            vals = [x for _, x in v.e]
        elif isinstance(v, VcList):
            vals = v.s.items() if v.s.conc() else []
        elif isinstance(v, tuple):
            vals = list(v)
        elif isinstance(v, self.w.modbus.ModbusBlock):
            self.block(v)
            return
        else:
            return
        if isinstance(v, VcDict) and vals and all(callable(x) for x in vals):
            return              # the table of functions
        for x in vals:
            self.mark(x, depth + 1)
        watch(v)

    def find_lock(self):
        """the lock held whenever a read looks up a name"""
        vc, g = self.vc, self.guard
        g._vc_probe = []
        GUARD[0] = g
        vc.call(self.slave.get_values, 'no such name', 0)
        GUARD[0] = None
        seen, g._vc_probe = g._vc_probe, None
        if not seen:
            raise Unsupported('a read does not access the registry')
        common = [l for l in seen[0] if all(any(l is m for m in s) for s in seen)]
        vc.ensure('the slave is accessed only inside a critical section of its lock', len(common) > 0, 'get_values of an unknown name')
        own = [l for l in common if any(l is v for v in vars(self.slave).values())]
        g._vc_lock = (own or common)[0]

    def op(self, f, *a):
        """one operation of the user or of a client"""
        vc, g = self.vc, self.guard
        GUARD[0] = g
        GhostLock.monitor = g.event
        g._vc_on = True
        try:
            r = vc.call(f, *a)
        finally:
            g._vc_on = False
            GUARD[0] = None
            GhostLock.monitor = None
        vc.ensure('all accesses of an operation are in one critical section', g.sections <= 1, lambda: '%r sections' % (g.sections,))
        vc.ensure('the lock is released', g.held == 0 and not g._vc_lock.locked())
        for l in self.w.locks:
            vc.ensure('no lock stays held', not l.locked())
        if r.ok:
            vc.ensure('an operation hands out copies', not isinstance(r.value, (GDict, GList)), lambda: repr(type(r.value)))
            vc.ensure('an operation hands out no block', not isinstance(r.value, self.w.modbus.ModbusBlock))
        if g._vc_n:
            vc.cover('accesses')
        return r


@harness('C27', LOCAL + BLOCK, repr=True, conc=False, weight=2)
def local(vc):
    """local operations with any arguments on any slave"""
    what = vc.pick('operation', ('get', 'set', 'set one', 'add', 'remove', 'remove all'))
    x = Watched(vc)
    reg, s = x.reg, x.slave
    name, rec = reg.pick('name')
    if what == 'get':
        size = vc.pick('size', ((), (1,), (vc.int('count'),)))
        x.op(s.get_values, name, vc.int('address'), *size)
    elif what == 'set':
        vals = vc.ints('values', vc.size('count', 0, None, reps=(0, 1, 2)))
        x.op(s.set_values, name, vc.int('address'), vals)
    elif what == 'set one':
        x.op(s.set_values, name, vc.int('address'), vc.int('value'))
    elif what == 'add':
        kind = vc.pick('kind', KINDS[:1] + KINDS[2:3] + (9,))
        start, size = vc.int('start_'), vc.int('size_')
        if kind in KINDS:
            reg.overlaps(kind, start, size)
        x.op(s.add_block, name, kind, start, size)
    elif what == 'remove':
        x.op(s.remove_block, name)
    else:
        x.op(s.remove_all_blocks)


def remote_harness(name, codes):
    @harness('C27', REMOTE + BLOCK, repr=True, conc=False, weight=3, name=name)
    def h(vc):
        """any request PDU on any slave"""
        fc = vc.pick('function', codes)
        cast = vc.flag('broadcast')
        x = Watched(vc)
        rest = vc.bytes('rest', lo=0, hi=None, reps=(0, 4, 5, 6, 9))
        pdu = vc.tobytes(vc.cat([fc], rest)) if fc is not None else vc.mkbytes([])
        x.op(x.slave.handle_request, pdu, cast)


remote_harness('remote_read', (1, 2, 3, 4))
remote_harness('remote_write_one', (5, 6, 22, 7, 99, None))
remote_harness('remote_write_many', (15, 16))
remote_harness('remote_read_write', (23,))


# ------------------------------------------------------------------------------------------------ interleavings of the real code
def op_of(w, d):
    """an operation from its description"""
    k = d[0]
    if k == 'pdu':
        return lambda s: s.handle_request(bytes(d[1]), d[2])
    return lambda s: getattr(s, k)(*[tuple(a) if isinstance(a, list) and d[-1] == 't' else a for a in d[1]])


FAMILY = {'values': (1, 2, 3, 0, 0, 7, 7, 8, 8, 9), 'registry': (7, 8, 9, 10, 10, 11, 11, 12, 0, 1, 4, 5), 'remote': (0, 1, 2, 3, 3, 4, 4, 5, 6, 8, 9)}


def random_op(r, family):
    w = lambda v: [v >> 8 & 255, v & 255]
    a, n = r.choice((0, 0, 2, 5)), r.choice((1, 3, 4, 9, 12))
    v = r.randrange(1, 65536)
    kind = r.choice((1, 3, 3))
    k = r.choice(FAMILY[family])
    if k == 0:
        return ['pdu', [kind] + w(a) + w(n), False]
    if k == 1:
        return ['pdu', [16] + w(a) + w(n) + [2 * n] + w(v) * n, r.random() < .2]
    if k == 2:
        return ['pdu', [15] + w(a) + w(n) + [(n + 7) // 8] + [r.choice((0, 255, 0x55))] * ((n + 7) // 8), r.random() < .2]
    if k == 3:
        return ['pdu', [23] + w(a) + w(n) + w(a) + w(n) + [2 * n] + w(v) * n, False]
    if k == 4:
        return ['pdu', [22] + w(a) + w(r.choice((0, 0xff, 0xffff, 0xf0f0))) + w(r.choice((0, 0xff, 0xffff, 0x1234))), r.random() < .2]
    if k == 5:
        return ['pdu', [6] + w(a) + w(v), False]
    if k == 6:
        return ['pdu', [5] + w(a) + r.choice(([0, 0], [255, 0], [1, 2])), False]
    if k == 7:
        return ['get_values', ['b%d' % kind, a, n], '']
    if k == 8:
        return ['set_values', ['b%d' % kind, a, [v % 2 if kind == 1 else v] * n], r.choice('lt')]
    if k == 9:
        return ['set_values', ['b%d' % kind, a, v % 2 if kind == 1 else v], '']
    if k == 10:
        return ['add_block', [r.choice(('new', 'b3', 'new')), kind, r.choice((16, 20, 0, 18)), r.choice((1, 3, 8))], '']
    if k == 11:
        return ['remove_block', ['b%d' % kind], '']
    return ['remove_all_blocks', [], '']


def look(w, s):
    out = []
    for n in ('b1', 'b3', 'new'):
        for z in (16, 8, 3, 1):
            hit = False
            for st in (0, 16, 20, 18):
                try:
                    out.append((n, st, z, tuple(s.get_values(n, st, z))))
                    hit = True
                except w.modbus.ModbusError:
                    pass
                except Exception as e:
                    out.append((n, st, z, type(e).__name__))
            if hit:
                break
    for kind in (1, 3):
        for st, z in ((0, 16), (16, 1), (18, 1), (20, 1)):
            try:
                out.append(bytes(s.handle_request(struct.pack('>BHH', kind, st, z))))
            except Exception as e:
                out.append(type(e).__name__)
    return out


def interleaved(vc, family):
    """two or three operations interleaved in every way a few switches allow give what some order of them gives"""
    import itertools
    from vc.sched import interleave
    n = vc.pick('threads', (2, 2, 2, 3))
    ops = vc.given('ops', lambda r: [random_op(r, family) for _ in range(n)])
    unsigned = vc.flag('unsigned')
    w = vc.world()
    GhostLock.monitor = None

    def fresh():
        s = w.modbus.Slave(1, unsigned)
        for k in (1, 3):
            s.add_block('b%d' % k, k, 0, 16)
            s.set_values('b%d' % k, 0, [j % 2 if k == 1 else j * 257 for j in range(16)])
        return s

    def one(s, d):
        r = vc.call(op_of(w, d), s)
        return norm(r.value if r.ok else None, None if r.ok else r.exc)

    def norm(v, e):
        if e is not None:
            return 'raised', type(e).__name__
        return 'ok', bytes(v) if isinstance(v, (bytes, bytearray)) else tuple(v) if isinstance(v, (tuple, list)) else v
    allowed = []
    for order in itertools.permutations(range(n)):
        s = fresh()
        res = [None] * n
        for t in order:
            res[t] = one(s, ops[t])
        allowed.append((res, look(w, s)))
    deep = vc.tier == 'thorough'
    runs = vc.given('schedules', lambda r: [[r.choice((r.randrange(40), r.randrange(150), r.randrange(600), -r.randrange(1, 4))) for _ in range(r.choice((1, 1, 2, 3)))]
                                            for _ in range(60 if deep else 14)])
    for sw in runs:
        s = fresh()
        fs = [(lambda d=d: op_of(w, d)(s)) for d in ops]
        out = interleave(fs, sw)
        vc.ensure('no deadlock', not any(o is None or o[0] == 'deadlock' for o in out), lambda: repr((ops, sw, out)))
        res = [norm(o[1], None) if o[0] == 'ok' else norm(None, o[1]) for o in out]
        for l in w.locks:
            vc.ensure('no lock stays held', not l.locked())
        got = (res, look(w, s))
        vc.ensure('concurrent operations act as if one came after the other', got in allowed, lambda: '%r with switches after %r steps: %r' % (ops, sw, res))


for _f in sorted(FAMILY):
    harness('C27', LOCAL + REMOTE + BLOCK, sym=False, name='interleaved_' + _f, m3=4.0)(lambda vc, f=_f: interleaved(vc, f))
