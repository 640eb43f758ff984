"""C10: what a request may change."""
from vc.harness import harness
from .common import (Memory, make_slave, pdu_of, content_after, sword, w16, bit_of, vmin, COILS, DISCRETE_INPUTS, HOLDING_REGISTERS, ANALOG_INPUTS, KINDS)
from .c09 import SUPPORTED
from .c05 import bit_byte, payload
from .c06 import read_hints

HR = 'modbus.Slave.handle_request'
GB = 'modbus.Slave._get_block_and_offset'
SI = 'modbus.ModbusBlock.__setitem__'
WRITES = (5, 6, 15, 16, 22, 23)


def normal_write(vc, r, fc, broadcast):
    """the outcome is the normal reply to a write (or its silent completion, for a broadcast)"""
    if not r.ok:
        return False
    if broadcast:
        return not vc.is_bytes(r.value) or not bool(vc.len(r.value) == 2)
    if not vc.is_bytes(r.value) or not bool(vc.len(r.value) >= 1):
        return False
    return bool(vc.at(r.value, 0) == fc)


def one_function(vc, fc):
    w = vc.world()
    unsigned = vc.pick('unsigned', (True, False))
    broadcast = vc.pick('broadcast', (False, True))
    kind = COILS if fc in (5, 15) else HOLDING_REGISTERS
    anyval = (None, None) if vc.sym else (-3, 70000)
    mem = Memory(vc, w, values={COILS: anyval, HOLDING_REGISTERS: ('bv', 16, not unsigned) if fc == 22 else anyval,
                                DISCRETE_INPUTS: anyval, ANALOG_INPUTS: anyval}, focus=(kind,))
    slave = make_slave(vc, w, mem, unsigned)
    head = {5: 4, 6: 4, 22: 6, 15: 5, 16: 5, 23: 9}[fc]
    if vc.pick('length', ('any', 'short')) == 'short':
        body = vc.bytes('body', lo=0, hi=head - 1, reps=(0, head - 1))
        vc.cover('truncated')
        r = vc.call(slave.handle_request, pdu_of(vc, [fc], body), broadcast)
        mem.frame('a truncated request changes nothing')
        return
    # fields first, so that concrete runs can aim
    wq = 1
    if fc in (5, 6, 22):
        start, _ = mem.range(kind, None, 'start', 1, 1)
        fields = [vc.word(start)]
        q, bc = 1, None
    else:
        if fc == 23:
            rs, rq = mem.range(kind, 'read_quantity', 'read_start', 0, 65535, reps=(0, 1, 2, 126))
        start, q = mem.range(kind, 'quantity', 'start', 0, 65535, reps=(0, 1, 2, 9, 124, 1969))
        right = (q + 7) // 8 if fc == 15 else 2 * q
        bc = vc.size('byte_count', 0, 255, reps=(0, 1, 2, 4), near=() if vc.sym else (right, right, right & 255))
        fields = [vc.word(start), vc.word(q), [bc]]
        if fc == 23:
            fields = [vc.word(rs), vc.word(rq)] + fields
    hi = None if vc.sym else 300
    rest = vc.bytes('rest', lo={5: 2, 6: 2, 22: 4}.get(fc, 0), hi=hi, reps=(2, 4)) if bc is None else \
        vc.bytes('rest', n=vc.size('rest.len', 0, hi, reps=(0, 1, 2, 4), near=() if vc.sym else (bc, bc, bc)))
    pdu = pdu_of(vc, [fc], *(fields + [rest]))
    m = m2 = None
    limit = {15: 1968, 16: 123, 23: 123}.get(fc, 1)
    if bool(vc.and_(q >= 1, q <= limit)):
        m = mem.mapped(kind, start, q)
        if m is not None and fc == 23 and bool(vc.and_(rq >= 1, rq <= 125)):
            m2 = mem.mapped(kind, rs, rq)
    if m is not None and not vc.conc:
        off = m[1]
        h = vc.hints
        if fc == 23 and m2 is not None:
            read_hints(vc, m2[2], m2[1], rq)
        if fc == 15:
            item = lambda n: bit_of(vc, rest, n)
            h.contents.append(lambda entry, k: content_after(vc, entry, off, vmin(vc, 8 * k, q), item))
            h.ints.append(lambda k: vmin(vc, 8 * k, q))
        if fc in (16, 23):
            item = lambda n: sword(vc, rest, 2 * n, unsigned)
        if fc in (15, 16, 23):
            h.contents.append(lambda entry, k: content_after(vc, entry, off, k, item))
    r = vc.call(slave.handle_request, pdu, broadcast)
    vc.ensure('a request does not change how words are read', slave.unsigned is unsigned)
    if normal_write(vc, r, fc, broadcast):
        vc.cover('normal write')
        mem.frame('a write changes nothing outside its range', lambda k, a: vc.and_(k == kind, a >= start, a < start + q))
    else:
        vc.cover('refused')
        mem.frame('a refused or failed request changes nothing')


def make(fc, fn):
    @harness('C10', [HR, fn, GB, SI], name='write_fc%d' % fc, weight=4 if fc == 23 else 2)
    def h(vc):
        one_function(vc, fc)


for _fc, _fn in ((5, '_write_single_coil'), (6, '_write_single_register'), (22, '_mask_write_register'), (15, '_write_multiple_coils'),
                 (16, '_write_multiple_registers'), (23, '_read_write_multiple_registers')):
    make(_fc, 'modbus.Slave.' + _fn)


@harness('C10', [HR, 'modbus.Slave._read_digital', 'modbus.Slave._read_registers', 'modbus.Slave._read_exception_status', GB])
def not_a_write(vc):
    """every other PDU: reads, unsupported functions, the empty PDU"""
    w = vc.world()
    unsigned = vc.pick('unsigned', (True, False))
    broadcast = vc.pick('broadcast', (False, True))
    anyval = (None, None) if vc.sym else (-3, 70000)
    fc = vc.pick('function', (1, 2, 3, 4, 7, 'other', 'empty'))
    kind = {1: COILS, 2: DISCRETE_INPUTS, 3: HOLDING_REGISTERS, 4: ANALOG_INPUTS}.get(fc)
    mem = Memory(vc, w, focus=(kind,) if kind else KINDS, values={kind or COILS: anyval})
    slave = make_slave(vc, w, mem, unsigned)
    if fc == 'empty':
        pdu = pdu_of(vc)
    elif fc == 'other':
        f = vc.int('fc', 0, 255, bv=8)
        vc.assume(vc.and_(*[f != k for k in SUPPORTED]))
        pdu = pdu_of(vc, [f], vc.bytes('body', lo=0, reps=(0, 4)))
    elif fc == 7 or vc.pick('length', ('whole', 'short')) == 'short':
        pdu = pdu_of(vc, [fc], vc.bytes('body', lo=0, hi=3, reps=(0, 3)))
    else:
        start, q = mem.range(kind, 'quantity', 'start', 0, 65535, reps=(0, 1, 9, 17))
        pdu = pdu_of(vc, [fc], vc.word(start), vc.word(q), vc.bytes('extra', lo=0, hi=None if vc.sym else 5, reps=(0, 1)))
        m = mem.mapped(kind, start, q) if bool(q >= 1) else None
        if m is not None and not vc.conc:
            blk, off, ct = m
            if fc < 3:
                full = payload(vc, ct, off, q, (q + 7) // 8)
                vc.hints.streams.append((full, [('k//8', lambda k: k // 8), ('k', lambda k: k), ('k+1', lambda k: k + 1)]))
                vc.hints.ints.append(lambda k: bit_byte(vc, ct, off, k // 8, k))
                vc.hints.ints.append(lambda k: bit_byte(vc, ct, off, k, q))
            else:
                read_hints(vc, ct, off, q)
    r = vc.call(slave.handle_request, pdu, broadcast)
    vc.cover('outcome')
    mem.frame('a request that is not a write changes nothing')


from . import slavehist          # noqa: E402


@harness('C10', ['modbus.Slave.handle_request'], sym=False)
def histories(vc):
    """sequences of requests and local operations on two slaves, against a plain model"""
    slavehist.play(vc, 'C10')
