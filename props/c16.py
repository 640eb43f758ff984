"""C16: local reads and writes of block values are exact and bounds-checked."""
import struct
from vc.core import mk, zi
from vc.harness import harness
from .common import KINDS, excs, content_after
from .registry import Reg
from .c15 import play

SL = 'modbus.Slave.'
FNS = [SL + 'set_values', SL + 'get_values', SL + '_get_block', 'modbus.ModbusBlock.__getitem__', 'modbus.ModbusBlock.__setitem__']


def others(vc, reg, label, name, rec):
    def f():
        other, orec = reg.pick('other')
        if other == name:
            return
        if orec is None:
            reg.missing(label + ': an unknown name stays unknown', other)
        else:
            reg.holds(label + ': every item of every other block is unchanged', other, orec)
    vc.aside(f)


def most(rec):
    return 40 if rec is None else max(40, rec.size + 3)


def draw_values(vc, rec):
    how = vc.pick('type', ('list', 'tuple', 'number'))
    if how == 'number':
        v = vc.int('value', near=(0, 1, 65535))
        return how, v, vc.mklist([v]), 1
    n = vc.size('count', 0, None if vc.sym else most(rec), reps=(0, 1, 2, 3), near=(rec.size,) if rec is not None and vc.conc else ())
    vals = vc.ints('values', n)
    return how, (vals[:] if how == 'list' else vc.mktuple(vals)), vals, n


def draw_address(vc, reg, rec, n):
    def mk_(r):
        if rec is None or r.random() < 0.1:
            return None
        return rec.start + r.choice((0, rec.size - n, rec.size - n, -1, rec.size - n + 1, rec.size, r.randrange(rec.size)))
    return vc.int('address', near=reg.near(), make=mk_)


def inside(vc, rec, a, n):
    return bool(vc.and_(a >= rec.start, a + n <= rec.start + rec.size))


@harness('C16', FNS, repr=True, weight=3)
def write(vc):
    w = vc.world()
    e = excs(w)
    reg = Reg(vc, w)
    name, rec = reg.pick('name')
    how, arg, vals, n = draw_values(vc, rec)
    a = draw_address(vc, reg, rec, n)
    r = vc.call(reg.slave.set_values, name, a, arg)
    if rec is None:
        vc.cover('unknown name')
        vc.ensure('writing to an unknown name is refused with a missing-key error', r.raised(e.MissingKeyError), r)
        if vc.conc:
            reg.all_hold('a refused write changes nothing')
        others(vc, reg, 'a refused write', name, rec)
        return
    if not inside(vc, rec, a, n):
        vc.cover('outside')
        if not bool(mk(n) == 0):
            vc.ensure('a write that is not completely inside the block is refused', r.raised(e.OutOfModbusBlockError), r)
        if vc.conc:
            reg.all_hold('a refused write changes nothing')
            return
        others(vc, reg, 'a refused write', name, rec)
        reg.holds('a refused write changes nothing', name, rec)
        return
    vc.cover('inside')
    if not bool(mk(n) == 0):
        vc.ensure('a write inside the block succeeds', r.ok, r)
        if how == 'list':
            # the list stays the caller's: what it does with it later is not the block's business
            arg[0] = arg[0] + 1
    o = a - rec.start
    if vc.conc:
        new = list(rec.content)
        new[o:o + n] = list(vals)
        reg.all_hold('a write changes exactly the items it names', {name: new})
        return
    others(vc, reg, 'a write', name, rec)
    new = content_after(vc, rec.content, o, n, lambda k: vc.at(vals, k))
    vc.aside(lambda: reg.holds('a write changes exactly the items it names', name, rec, new))
    if how == 'number':
        r = vc.call(reg.slave.get_values, name, a)
    elif bool(mk(n) >= 1):
        r = vc.call(reg.slave.get_values, name, a, n)
    else:
        return
    vc.ensure('what was written is read back', r.ok, r)
    if r.ok:
        vc.ensure_eq('what was written is read back', r.value, vals)


@harness('C16', FNS, repr=True, weight=2)
def read(vc):
    w = vc.world()
    e = excs(w)
    reg = Reg(vc, w)
    name, rec = reg.pick('name')
    n = vc.size('count', 1, None if vc.sym else most(rec), reps=(1, 2, 3), near=(rec.size,) if rec is not None and vc.conc else ())
    a = draw_address(vc, reg, rec, n)
    if vc.pick('size given', (True, False)):
        r = vc.call(reg.slave.get_values, name, a, n)
    else:
        vc.assume(mk(n) == 1)
        r = vc.call(reg.slave.get_values, name, a)
    if rec is None:
        vc.cover('unknown name')
        vc.ensure('reading from an unknown name is refused with a missing-key error', r.raised(e.MissingKeyError), r)
    elif not inside(vc, rec, a, n):
        vc.cover('outside')
        vc.ensure('a read that is not completely inside the block is refused', r.raised(e.OutOfModbusBlockError), r)
    else:
        vc.cover('inside')
        vc.ensure('a read inside the block succeeds', r.ok, r)
        if r.ok:
            vc.ensure('reading returns a tuple', is_tuple(r.value), r)
            vc.ensure_eq('a read returns the stored values', r.value, vc.sub(rec.content, a - rec.start, n))
    others(vc, reg, 'a read', name, rec)
    if rec is not None:
        if vc.conc:
            reg.all_hold('a read changes nothing')
        else:
            reg.holds('a read changes nothing', name, rec)


def is_tuple(v):
    from vc.seq import VcTuple
    return isinstance(v, (tuple, VcTuple))


@harness('C16', FNS + [SL + 'add_block', SL + 'handle_request'], sym=False, m3=4)
def history(vc):
    """random histories with remote and local accesses on the real code (bounded length)"""
    play(vc, 40)


SIZES = (1, 2, 3, 8, 9, 16, 31, 64, 99, 100, 101, 120, 125, 126, 127, 200, 255, 256, 257, 300, 1000)


def gen_lists(r):
    blocks = [r.choice(SIZES) for _ in range(r.choice((1, 2, 3)))]
    ops = []
    for _ in range(r.choice((2, 4, 8, 16))):
        b = r.randrange(len(blocks))
        n = min(blocks[b], r.choice((blocks[b], blocks[b], r.choice(SIZES), r.randrange(1, blocks[b] + 1))))
        o = r.choice((0, 0, blocks[b] - n, r.randrange(blocks[b] - n + 1)))
        how = r.choice(('list', 'list', 'tuple', 'same', 'same', 'number', 'mutate', 'remote'))
        vals = [r.choice((0, 0, 1, 7, 65535))] * n if r.random() < 0.3 else [r.randrange(65536) for _ in range(n)]
        ops.append([b, how, o, vals if how != 'mutate' else vals[:3]])
    return blocks, ops


@harness('C16', FNS + [SL + 'add_block', SL + 'handle_request'], sym=False)
def long_lists(vc):
    """long and constant lists, the same list object written several times and changed in between (bounded length)"""
    w = vc.world()
    slave = w.modbus.Slave(1)
    sizes, ops = vc.given('lists', gen_lists)
    model = []
    for k, n in enumerate(sizes):
        slave.add_block('b%d' % k, 3, 2000 * k, n)
        model.append([0] * n)
    shared = [5]
    for b, how, o, vals in ops:
        base, n = 2000 * b, len(vals)
        if how == 'mutate':
            # the caller goes on using its own list
            shared[:len(vals)] = vals
        elif how == 'number':
            vc.call(slave.set_values, 'b%d' % b, base + o, vals[0])
            model[b][o] = vals[0]
        elif how == 'remote':
            slave.handle_request(struct.pack('>BHH', 6, base + o, vals[0]))
            model[b][o] = vals[0]
        else:
            if how == 'same':
                shared[:] = vals
            given = shared if how == 'same' else tuple(vals) if how == 'tuple' else list(vals)
            r = vc.call(slave.set_values, 'b%d' % b, base + o, given)
            vc.ensure('a write inside the block succeeds', r.ok, r)
            vc.ensure('the values given are only read', list(given) == vals, lambda: '%r became %r' % (vals[:5], given[:5]))
            model[b][o:o + n] = vals
        for k, vals_ in enumerate(model):
            r = vc.call(slave.get_values, 'b%d' % k, 2000 * k, len(vals_))
            vc.ensure('every item holds the value last written to it', r.ok and r.value == tuple(vals_), lambda: 'block of %d items after %s of %d at %d: %s' % (
                len(vals_), how, n, o, r if not r.ok else len(r.value) if len(r.value) != len(vals_) else [(i, x, y) for i, (x, y) in enumerate(zip(r.value, vals_)) if x != y][:3]))
