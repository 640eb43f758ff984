"""C08: multi-item writes and read/write."""
from vc.harness import harness
from .common import (Memory, make_slave, pdu_of, extra, words_payload, sword, content_after, bit_of, vmin, COILS, HOLDING_REGISTERS)
from .c06 import read_hints
from .c07 import send

HR = 'modbus.Slave.handle_request'
GB = 'modbus.Slave._get_block_and_offset'
SI = 'modbus.ModbusBlock.__setitem__'


def written(vc, mem, kind, start, q, blk, off, item):
    vc.forall('item n of the payload is stored at start+n', q, lambda n: blk[off + n] == item(n))
    mem.frame('no other item changes', lambda k, a: vc.and_(k == kind, a >= start, a < start + q))


@harness('C08', [HR, 'modbus.Slave._write_multiple_coils', GB, SI], weight=3)
def multiple_coils(vc):
    do_multiple_coils(vc)


def do_multiple_coils(vc, broadcast=False):
    w = vc.world()
    unsigned = vc.pick('unsigned', (True, False))
    mem = Memory(vc, w, values={COILS: (-3, 70000) if vc.conc else (None, None)})
    slave = make_slave(vc, w, mem, unsigned)
    start, q = mem.range(COILS, 'quantity', 'start', 1, 1968, reps=(1, 7, 8, 9, 17))
    blk, off, ct = mem.containing(COILS, start, q)
    nb = (q + 7) // 8
    data = vc.bytes('data', nb)
    item = lambda n: bit_of(vc, data, n)
    if not vc.conc:
        h = vc.hints
        h.contents.append(lambda entry, k: content_after(vc, entry, off, vmin(vc, 8 * k, q), item))
        h.contents.append(lambda entry, k: content_after(vc, entry, off, k, item))
        h.ints.append(lambda k: vmin(vc, 8 * k, q))
    pdu = pdu_of(vc, [15], vc.word(start), vc.word(q), [nb], data, extra(vc))
    r = send(vc, slave, pdu, broadcast)
    if not broadcast:
        vc.ensure('a legal write is answered', r.ok and vc.is_bytes(r.value), r)
        vc.ensure_eq('the reply repeats address and quantity', r.value, vc.cat([15], vc.word(start), vc.word(q)))
    vc.cover('legal write')
    written(vc, mem, COILS, start, q, blk, off, item)


@harness('C08', [HR, 'modbus.Slave._write_multiple_registers', GB, SI], weight=3)
def multiple_registers(vc):
    do_multiple_registers(vc)


def do_multiple_registers(vc, broadcast=False):
    w = vc.world()
    unsigned = vc.pick('unsigned', (True, False))
    mem = Memory(vc, w, focus=(HOLDING_REGISTERS,))
    slave = make_slave(vc, w, mem, unsigned)
    start, q = mem.range(HOLDING_REGISTERS, 'quantity', 'start', 1, 123, reps=(1, 2, 3))
    blk, off, ct = mem.containing(HOLDING_REGISTERS, start, q)
    data = vc.bytes('data', 2 * q)
    item = lambda n: sword(vc, data, 2 * n, unsigned)
    if not vc.conc:
        vc.hints.contents.append(lambda entry, k: content_after(vc, entry, off, k, item))
    pdu = pdu_of(vc, [16], vc.word(start), vc.word(q), [2 * q], data, extra(vc))
    r = send(vc, slave, pdu, broadcast)
    if not broadcast:
        vc.ensure('a legal write is answered', r.ok and vc.is_bytes(r.value), r)
        vc.ensure_eq('the reply repeats address and quantity', r.value, vc.cat([16], vc.word(start), vc.word(q)))
    vc.cover('legal write')
    written(vc, mem, HOLDING_REGISTERS, start, q, blk, off, item)


@harness('C08', [HR, 'modbus.Slave._read_write_multiple_registers', GB, SI], weight=4)
def read_write(vc):
    do_read_write(vc)


def do_read_write(vc, broadcast=False):
    w = vc.world()
    unsigned = vc.pick('unsigned', (True, False))
    mem = Memory(vc, w, focus=(HOLDING_REGISTERS,), values={HOLDING_REGISTERS: ('bv', 16, not unsigned)})
    slave = make_slave(vc, w, mem, unsigned)
    rs, rq = mem.range(HOLDING_REGISTERS, 'read_quantity', 'read_start', 1, 125, reps=(1, 2))
    ws, wq = mem.range(HOLDING_REGISTERS, 'write_quantity', 'write_start', 1, 123, reps=(1, 2))
    rblk, roff, rct = mem.containing(HOLDING_REGISTERS, rs, rq)
    wblk, woff, wct = mem.containing(HOLDING_REGISTERS, ws, wq)
    data = vc.bytes('data', 2 * wq)
    item = lambda n: sword(vc, data, 2 * n, unsigned)
    read_hints(vc, rct, roff, rq)
    if not vc.conc:
        vc.hints.contents.append(lambda entry, k: content_after(vc, entry, woff, k, item))
    pay = words_payload(vc, lambda n: vc.at(rct, roff + n), rq)
    pdu = pdu_of(vc, [23], vc.word(rs), vc.word(rq), vc.word(ws), vc.word(wq), [2 * wq], data, extra(vc))
    r = send(vc, slave, pdu, broadcast)
    vc.cover('legal read/write')
    if not broadcast:
        vc.ensure('a legal read/write is answered', r.ok and vc.is_bytes(r.value), r)
        vc.aside(lambda: vc.ensure_eq('the reply is the words before the write', r.value, vc.cat([23, 2 * rq], pay)))
    written(vc, mem, HOLDING_REGISTERS, ws, wq, wblk, woff, item)


from . import slavehist          # noqa: E402


@harness('C08', ['modbus.Slave.handle_request'], sym=False)
def histories(vc):
    """sequences of requests and local operations on two slaves, against a plain model"""
    slavehist.play(vc, 'C08')
