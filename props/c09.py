"""C09: exception codes of illegal requests."""
from vc.harness import harness, Reject
from .common import (Memory, make_slave, pdu_of, is_exception_reply, COILS, DISCRETE_INPUTS, HOLDING_REGISTERS, ANALOG_INPUTS, KINDS)

HR = 'modbus.Slave.handle_request'
GB = 'modbus.Slave._get_block_and_offset'
SUPPORTED = (1, 2, 3, 4, 5, 6, 7, 15, 16, 22, 23)
ANY = {COILS: (None, None), HOLDING_REGISTERS: ('bv', 16, False)}
CONC = {COILS: (-3, 70000)}


def expect(vc, r, fc, code):
    vc.ensure('the request is answered', r.ok and vc.is_bytes(r.value), r)
    vc.ensure('the answer is exception code %d' % code, is_exception_reply(vc, r.value, fc, code), r)


def setup(vc, kind, unsigned=True):
    w = vc.world()
    mem = Memory(vc, w, focus=(kind,), values=None if vc.conc else {kind: ANY.get(kind, ('bv', 16, False))})
    return w, mem, make_slave(vc, w, mem, unsigned)


@harness('C09', [HR])
def unsupported_function(vc):
    w = vc.world()
    mem = Memory(vc, w, focus=())
    slave = make_slave(vc, w, mem, vc.pick('unsigned', (True, False)))
    fc = vc.int('function', 0, 255, bv=8)
    vc.assume(vc.and_(*[fc != k for k in SUPPORTED]))
    body = vc.bytes('body', lo=0, reps=(0, 1, 4, 9))
    r = vc.call(slave.handle_request, pdu_of(vc, [fc], body))
    vc.cover('unsupported function')
    expect(vc, r, fc, 1)


@harness('C09', [HR, 'modbus.Slave._read_digital', 'modbus.Slave._read_registers', GB])
def reads(vc):
    fc = vc.pick('function', (1, 2, 3, 4))
    kind = {1: COILS, 2: DISCRETE_INPUTS, 3: HOLDING_REGISTERS, 4: ANALOG_INPUTS}[fc]
    limit = 2000 if fc < 3 else 125
    w, mem, slave = setup(vc, kind, vc.pick('unsigned', (True, False)))
    start, q = mem.range(kind, 'quantity', 'start', 0, 65535, reps=(0, 1, limit, limit + 1, 65535))
    pdu = pdu_of(vc, [fc], vc.word(start), vc.word(q))
    if bool(vc.or_(q < 1, q > limit)):
        r = vc.call(slave.handle_request, pdu)
        vc.cover('quantity out of range')
        expect(vc, r, fc, 3)
    else:
        mem_none(vc, mem, kind, start, q)
        r = vc.call(slave.handle_request, pdu)
        vc.cover('not mapped')
        expect(vc, r, fc, 2)


def mem_none(vc, mem, kind, start, q):
    mem.none_contains(kind, start, q)


@harness('C09', [HR, 'modbus.Slave._write_single_coil', 'modbus.Slave._write_single_register', 'modbus.Slave._mask_write_register', GB])
def single_writes(vc):
    fc = vc.pick('function', (5, 6, 22))
    kind = COILS if fc == 5 else HOLDING_REGISTERS
    w, mem, slave = setup(vc, kind, vc.pick('unsigned', (True, False)))
    addr, _ = mem.range(kind, None, 'address', 1, 1)
    data = vc.bytes('data', 4 if fc == 22 else 2)
    pdu = pdu_of(vc, [fc], vc.word(addr), data)
    m = mem.mapped(kind, addr, 1)
    if m is None:
        r = vc.call(slave.handle_request, pdu)
        vc.cover('not mapped')
        if fc == 5:
            v = vc.at(data, 0) * 256 + vc.at(data, 1)
            if not bool(vc.or_(v == 0, v == 0xff00)):
                vc.cover('illegal coil value, not mapped')
                vc.ensure('the request is answered', r.ok and vc.is_bytes(r.value), r)
                vc.ensure('the answer is exception code 2 or 3', vc.or_(is_exception_reply(vc, r.value, fc, 2), is_exception_reply(vc, r.value, fc, 3)), r)
                return
        expect(vc, r, fc, 2)
    elif fc == 5:
        v = vc.at(data, 0) * 256 + vc.at(data, 1)
        vc.assume(vc.and_(v != 0, v != 0xff00))
        r = vc.call(slave.handle_request, pdu)
        vc.cover('illegal coil value, mapped')
        expect(vc, r, fc, 3)
    elif vc.conc:
        raise Reject('legal')


@harness('C09', [HR, 'modbus.Slave._write_multiple_coils', 'modbus.Slave._write_multiple_registers', GB], weight=2)
def multiple_writes(vc):
    fc = vc.pick('function', (15, 16))
    kind = COILS if fc == 15 else HOLDING_REGISTERS
    limit = 1968 if fc == 15 else 123
    w, mem, slave = setup(vc, kind, vc.pick('unsigned', (True, False)))
    start, q = mem.range(kind, 'quantity', 'start', 0, 65535, reps=(0, 1, 8, 9, limit, limit + 1, 65535))
    right = (q + 7) // 8 if fc == 15 else 2 * q
    bc = vc.size('byte_count', 0, 255, reps=(0, 1, 2, 245, 246, 247), near=() if vc.sym else (right, right, right & 255))
    n = vc.size('present', 0, None if vc.sym else 400, reps=(0, 1, 2, 245, 246, 247), near=() if vc.sym else (bc, bc))
    data = vc.bytes('data', n)
    pdu = pdu_of(vc, [fc], vc.word(start), vc.word(q), [bc], data)
    if bool(vc.or_(q < 1, q > limit, bc != right, n < bc)):
        r = vc.call(slave.handle_request, pdu)
        vc.cover('bad quantity, byte count or data')
        expect(vc, r, fc, 3)
    else:
        mem.none_contains(kind, start, q)
        r = vc.call(slave.handle_request, pdu)
        vc.cover('not mapped')
        expect(vc, r, fc, 2)


@harness('C09', [HR, 'modbus.Slave._read_write_multiple_registers', GB], weight=3)
def read_write(vc):
    kind = HOLDING_REGISTERS
    unsigned = vc.pick('unsigned', (True, False))
    w = vc.world()
    mem = Memory(vc, w, focus=(kind,), values={kind: ('bv', 16, not unsigned)})
    slave = make_slave(vc, w, mem, unsigned)
    rs, rq = mem.range(kind, 'read_quantity', 'read_start', 0, 65535, reps=(0, 1, 125, 126))
    ws, wq = mem.range(kind, 'write_quantity', 'write_start', 0, 65535, reps=(0, 1, 123, 124))
    bc = vc.size('byte_count', 0, 255, reps=(0, 2, 246, 248), near=() if vc.sym else (2 * wq, 2 * wq))
    n = vc.size('present', 0, None if vc.sym else 400, reps=(0, 2, 246, 248), near=() if vc.sym else (bc, bc))
    data = vc.bytes('data', n)
    pdu = pdu_of(vc, [23], vc.word(rs), vc.word(rq), vc.word(ws), vc.word(wq), [bc], data)
    if bool(vc.or_(rq < 1, rq > 125, wq < 1, wq > 123, bc != 2 * wq, n < bc)):
        m = mem.mapped(kind, rs, rq) if vc.sym and bool(rq >= 1) else None
        r = vc.call(slave.handle_request, pdu)
        vc.cover('bad quantity, byte count or data')
        expect(vc, r, 23, 3)
        return
    from .c06 import read_hints
    m = mem.mapped(kind, rs, rq)
    if m is None:
        vc.cover('read range not mapped')
    else:
        mem.none_contains(kind, ws, wq)
        read_hints(vc, m[2], m[1], rq)
        vc.cover('write range not mapped')
    r = vc.call(slave.handle_request, pdu)
    expect(vc, r, 23, 2)


from . import slavehist          # noqa: E402


@harness('C09', ['modbus.Slave.handle_request'], sym=False)
def histories(vc):
    """sequences of requests and local operations on two slaves, against a plain model"""
    slavehist.play(vc, 'C09')
