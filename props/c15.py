"""C15: blocks of one kind never overlap; the block registry is a map."""
import struct
from vc import core
from vc.core import mk, zi, PathEnd
from vc.harness import harness
from .common import KINDS, excs
from .registry import Reg, Rec

SL = 'modbus.Slave.'
FNS = [SL + 'add_block', SL + 'remove_block', SL + 'remove_all_blocks', SL + '_get_block', 'modbus.ModbusBlock.is_in', SL + '__init__', 'modbus.ModbusBlock.__init__']


def untouched(vc, reg, label, name, but=None):
    """every other name keeps its block"""
    def f():
        other, rec = reg.pick('other')
        if other == name:
            return
        if but is not None and rec is but:
            return
        if rec is None:
            reg.missing(label + ': an unknown name stays unknown', other)
        else:
            reg.holds(label + ': every other block keeps its name, range and contents', other, rec)
    vc.aside(f)


def sorted_disjoint(vc, reg, p, q):
    """representation: the lists stay sorted and disjoint"""
    if not reg.any:
        return

    def f():
        changed = [k for k in KINDS if reg.list_now(k) is not reg.mem.seqs[k]]
        if not changed:
            return
        s = reg.list_now(changed[vc.E.choice(len(changed))])
        vc.assume(q < mk(s.n))
        a, b = s.get(p.i), s.get(q.i)
        vc.ensure('representation: blocks of a kind stay sorted and disjoint', a.starting_address + a.size <= b.starting_address)
    vc.aside(f)


def ghosts(vc):
    if not (vc.sym and not vc.bounded):
        return None, None
    p, q = vc.E.fresh_int('p', 0), vc.E.fresh_int('q', 0)
    vc.assume(p < q)
    vc.hints.witnesses += [p]
    return p, q


def do_add(vc, kinds):
    w = vc.world()
    e = excs(w)
    reg = Reg(vc, w)
    kind = vc.pick('kind', kinds)
    name, rec = reg.pick('name', 0.25)
    start = vc.int('start_', near=reg.near() + [0])
    size = vc.int('size_', near=(0, 1, 2, 5))
    if vc.conc and size > 5000:
        size = 5000
    p, q = ghosts(vc)
    bad = []
    if not bool(size > 0):
        bad.append(e.InvalidArgumentError)
    elif not bool(start >= 0):
        bad.append(e.InvalidArgumentError)
    if rec is not None:
        bad.append(e.DuplicatedKeyError)
    if kind not in KINDS:
        bad.append(e.InvalidModbusBlockError)
    elif not bad or e.InvalidArgumentError not in bad:
        if reg.overlaps(kind, start, size):
            bad.append(e.OverlapModbusBlockError)
    r = vc.call(reg.slave.add_block, name, kind, start, size)
    if bad:
        vc.cover('refused')
        vc.ensure('an illegal addition is refused with the corresponding error', any(r.raised(c) for c in bad), r)
        sorted_disjoint(vc, reg, p, q)
        if vc.conc:
            reg.all_hold('a refused addition changes nothing')
        untouched(vc, reg, 'a refused addition', name if rec is None else None)
        if rec is None:
            reg.missing('a refused addition adds no name', name)
        return
    vc.cover('added')
    vc.ensure('an addition of an unused name on a free range succeeds', r.ok, r)
    if not r.ok:
        return
    sorted_disjoint(vc, reg, p, q)
    if vc.conc:
        reg.all_hold('an addition changes no other block')
    untouched(vc, reg, 'an addition', name)
    new = Rec(name, kind, start, size, vc.mklist([0]) * size)
    if reg.any:
        at = reg.find_new(kind)
        if at is None:
            vc.ensure('representation: the new block is in the list of its kind', False)
            return
        new.index = mk(at[0])
        s = reg.list_now(kind)
        u = vc.E.fresh_int('u', 0)

        def f():
            vc.assume(u < mk(reg.mem.seqs[kind].n))
            o = reg.mem.seqs[kind].get(u.i)
            x = s.get(u.i)
            vc.ensure('representation: no block is lost', x is o or s.get((u + 1).i) is o)
        vc.aside(f)
        vc.ensure('representation: one more block', mk(s.n) == mk(reg.mem.seqs[kind].n) + 1)
    reg.holds('the new block covers its range and holds zeros', name, new)


def add_kind(k):
    @harness('C15', FNS, repr=True, weight=5, name='add_kind%d' % k)
    def h(vc):
        do_add(vc, (k,))


for _k in KINDS:
    add_kind(_k)


@harness('C15', FNS, repr=True)
def add_invalid_kind(vc):
    do_add(vc, (0, 'x'))


@harness('C15', FNS, repr=True, weight=3)
def remove(vc):
    w = vc.world()
    e = excs(w)
    reg = Reg(vc, w)
    name, rec = reg.pick('name')
    p, q = ghosts(vc)
    if p is not None and rec is not None:
        vc.hints.witnesses = []
    r = vc.call(reg.slave.remove_block, name)
    if rec is None:
        vc.cover('unknown')
        vc.ensure('removing an unknown name is refused with a missing-key error', r.raised(e.MissingKeyError), r)
        if vc.conc:
            reg.all_hold('a refused removal changes nothing')
        untouched(vc, reg, 'a refused removal', name)
        return
    vc.cover('removed')
    vc.ensure('removing a block succeeds', r.ok, r)
    if not r.ok:
        return
    sorted_disjoint(vc, reg, p, q)
    untouched(vc, reg, 'a removal', name, rec)
    if vc.conc:
        reg.recs.remove(rec)
        reg.all_hold('a removal changes no other block')
    vc.aside(lambda: reg.missing('a removed name is unknown', name))
    r = vc.call(reg.slave.add_block, name, rec.kind, rec.start, rec.size)
    vc.ensure('the range of a removed block is free again', r.ok, r)


@harness('C15', FNS, repr=True)
def remove_all(vc):
    w = vc.world()
    reg = Reg(vc, w)
    name, rec = reg.pick('name')
    r = vc.call(reg.slave.remove_all_blocks)
    vc.ensure('removing all blocks succeeds', r.ok, r)
    vc.cover('cleared')
    vc.aside(lambda: reg.missing('no name is left after removing all blocks', name))
    kind = vc.pick('kind', KINDS)
    start = vc.int('start_', 0, near=reg.near())
    size = vc.int('size_', 1, None if vc.sym else 3000)
    r = vc.call(reg.slave.add_block, name, kind, start, size)
    vc.ensure('every range is free after removing all blocks', r.ok, r)


@harness('C15', FNS)
def fresh(vc):
    """a new slave has no block"""
    w = vc.world()
    s = w.modbus.Slave(1)
    name = vc.pick('name', ('a', '', '0'))
    r = vc.call(s.get_values, name, vc.int('address'))
    vc.ensure('a new slave has no block', r.raised(excs(w).MissingKeyError), r)
    r = vc.call(s.remove_block, name)
    vc.ensure('removing an unknown name is refused with a missing-key error', r.raised(excs(w).MissingKeyError), r)
    kind = vc.pick('kind', KINDS)
    r = vc.call(s.add_block, name, kind, vc.int('start', 0), vc.int('size', 1, None if vc.sym else 3000))
    vc.ensure('every range of a new slave is free', r.ok, r)
    vc.cover('fresh')


# ------------------------------------------------------------------------------------------------ histories
class Model(object):
    """what a slave with named blocks must look like"""
    def __init__(self, vc, w, slave):
        self.vc, self.w, self.slave = vc, w, slave
        self.blocks = {}        # name -> (kind, start, [values])

    def free(self, kind, start, size):
        return not any(k == kind and start < s + len(v) and s < start + size for k, s, v in self.blocks.values())

    def add(self, name, kind, start, size):
        vc, e = self.vc, excs(self.w)
        want = []
        if size <= 0 or start < 0:
            want.append(e.InvalidArgumentError)
        if name in self.blocks:
            want.append(e.DuplicatedKeyError)
        if kind not in KINDS:
            want.append(e.InvalidModbusBlockError)
        if kind in KINDS and size > 0 and start >= 0 and not self.free(kind, start, size):
            want.append(e.OverlapModbusBlockError)
        r = vc.call(self.slave.add_block, name, kind, start, size)
        if want:
            vc.ensure('an illegal addition is refused with the corresponding error', any(r.raised(c) for c in want), '%s %r' % ((name, kind, start, size), r))
        else:
            vc.ensure('an addition of an unused name on a free range succeeds', r.ok, '%s %r' % ((name, kind, start, size), r))
            self.blocks[name] = (kind, start, [0] * size)

    def remove(self, name):
        vc = self.vc
        r = vc.call(self.slave.remove_block, name)
        if name in self.blocks:
            vc.ensure('removing a block succeeds', r.ok, '%s %r' % (name, r))
            del self.blocks[name]
        else:
            vc.ensure('removing an unknown name is refused with a missing-key error', r.raised(excs(self.w).MissingKeyError), '%s %r' % (name, r))

    def set(self, name, address, values):
        vc, e = self.vc, excs(self.w)
        r = vc.call(self.slave.set_values, name, address, values)
        if name not in self.blocks:
            vc.ensure('writing to an unknown name is refused with a missing-key error', r.raised(e.MissingKeyError), '%s %r' % (name, r))
            return
        k, s, v = self.blocks[name]
        vals = list(values) if isinstance(values, (list, tuple)) else [values]
        if address >= s and address + len(vals) <= s + len(v):
            vc.ensure('a write inside the block succeeds', r.ok or not vals, '%s %r' % ((name, address, values), r))
            v[address - s:address - s + len(vals)] = vals
        elif vals:
            vc.ensure('a write outside the block is refused', r.raised(e.OutOfModbusBlockError), '%s %r' % ((name, address, values), r))

    def remote_write(self, address, value):
        """function 6"""
        vc = self.vc
        r = vc.call(self.slave.handle_request, struct.pack('>BHH', 6, address, value))
        for k, s, v in self.blocks.values():
            if k == 3 and s <= address < s + len(v):
                v[address - s] = value if self.slave.unsigned or value < 32768 else value - 65536
                vc.ensure('a remote write to a mapped address succeeds', r.ok and bytes(r.value) == struct.pack('>BHH', 6, address, value), r)
                return
        vc.ensure('a remote write to an unmapped address is refused', r.ok and bytes(r.value) == b'\x86\x02', r)

    def remote_read(self, kind, address):
        vc = self.vc
        fc = {1: 1, 2: 2, 3: 3, 4: 4}[kind]
        d = self.w.load('defines')
        fc = {d.COILS: 1, d.DISCRETE_INPUTS: 2, d.HOLDING_REGISTERS: 3, d.ANALOG_INPUTS: 4}[kind]
        r = vc.call(self.slave.handle_request, struct.pack('>BHH', fc, address, 1))
        for k, s, v in self.blocks.values():
            if k == kind and s <= address < s + len(v):
                x = v[address - s]
                want = struct.pack('>BBB', fc, 1, 1 if x else 0) if fc < 3 else struct.pack('>BB', fc, 2) + struct.pack('>H', x & 0xffff)
                vc.ensure('a remote read sees the value of the one block at the address', r.ok and bytes(r.value) == want,
                          'kind %d address %d: %r, expected %r' % (kind, address, r, want))
                return
        vc.ensure('a remote read of an unmapped address is refused', r.ok and bytes(r.value) == struct.pack('>BB', fc | 128, 2), 'kind %d address %d: %r' % (kind, address, r))

    def check(self):
        vc, e = self.vc, excs(self.w)
        for n in NAMES:
            if n not in self.blocks:
                r = vc.call(self.slave.get_values, n, 0)
                vc.ensure('an unknown name is refused with a missing-key error', r.raised(e.MissingKeyError), r)
        for n, (k, s, v) in self.blocks.items():
            r = vc.call(self.slave.get_values, n, s, len(v))
            vc.ensure('every block holds what was last written to it', r.ok and r.value == tuple(v), lambda: '%s: %r, expected %r' % (n, r, v))
            for a, z in ((s - 1, 1), (s + len(v), 1), (s, len(v) + 1), (s - 1, len(v) + 2)):
                r = vc.call(self.slave.get_values, n, a, z)
                vc.ensure('an access not completely inside the block is refused', r.raised(e.OutOfModbusBlockError), '%s %r' % ((n, a, z), r))
        for k in KINDS:
            seen = set()
            for kk, s, v in self.blocks.values():
                if kk == k:
                    seen.update((s - 1, s, s + len(v) - 1, s + len(v)))
            for a in sorted(seen | {0}):
                if 0 <= a <= 65535:
                    self.remote_read(k, a)


NAMES = ('a', '', 'c', '0', 'e', 'None')


def random_ops(r, n):
    out = []
    base = r.choice((0, 0, 10, 65500))
    kinds = r.choice(((1, 3, 3, 3, 4, 2), (1,), (2,), (3,), (3,), (4,), (3, 4), (1, 2)))
    names = NAMES[:r.choice((3, 5, 6, 6))]
    low = r.choice((0, 0, r.random(), 1, 1))
    sizes = r.choice(((1, 1, 2, 3, 4, 6), (1, 1, 1, 1, 2), (1, 1, 1, 3, 3, 5)))
    for _ in range(n):
        k = r.random()
        if k >= 0.65 and r.random() < low:
            k = r.random() * 0.65
        nm = r.choice(names)
        kind = r.choice(kinds)
        at = base + r.randrange(0, 14) - (1 if r.random() < 0.05 else 0)
        if k < 0.5:
            out.append(['add', nm, kind if r.random() < 0.95 else r.choice((0, 5)), at, r.choice(sizes) if r.random() < 0.98 else 0])
        elif k < 0.65:
            out.append(['remove', nm])
        elif k < 0.67:
            out.append(['clear'])
        elif k < 0.85:
            m = r.choice((1, 1, 2, 3, 0))
            out.append(['set', nm, at, r.choice(('number', 'list', 'tuple')), [r.randrange(32768 if kind != 1 else 2) for _ in range(m)]])
        else:
            out.append(['remote', max(0, at), r.randrange(65536)])
    return out


def play(vc, n):
    w = vc.world()
    s = w.modbus.Slave(1, vc.flag('unsigned'))
    m = Model(vc, w, s)
    ops = vc.given('ops', lambda r: random_ops(r, r.randrange(1, n)))
    every = vc.given('every', lambda r: r.choice((1, 7, 50)))
    for k, op in enumerate(ops):
        if op[0] == 'add':
            m.add(*op[1:])
        elif op[0] == 'remove':
            m.remove(op[1])
        elif op[0] == 'clear':
            s.remove_all_blocks()
            m.blocks.clear()
        elif op[0] == 'remote':
            m.remote_write(op[1], op[2])
        else:
            vals = op[4]
            m.set(op[1], op[2], tuple(vals) if op[3] == 'tuple' else list(vals) if op[3] == 'list' or not vals else vals[0])
        if k % every == every - 1 or k == len(ops) - 1:
            m.check()


@harness('C15', FNS + [SL + 'get_values', SL + 'set_values'], sym=False, m3=4)
def history(vc):
    """random histories on the real code (bounded length)"""
    play(vc, 25)
