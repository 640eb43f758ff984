"""C07: single-item writes."""
from vc.harness import harness
from .common import (Memory, make_slave, pdu_of, extra, COILS, HOLDING_REGISTERS)

HR = 'modbus.Slave.handle_request'
GB = 'modbus.Slave._get_block_and_offset'
SI = 'modbus.ModbusBlock.__setitem__'


def send(vc, slave, pdu, broadcast):
    if broadcast:
        return vc.call(slave.handle_request, pdu, broadcast=True)
    return vc.call(slave.handle_request, pdu)


def finish(vc, mem, kind, addr, blk, off, r, fields, pdu, want, broadcast=False):
    if not broadcast:
        vc.ensure('a legal write is answered', r.ok and vc.is_bytes(r.value), r)
        n = vc.len(fields)
        if bool(vc.len(pdu) == n):
            vc.ensure_eq('the reply echoes the request', r.value, pdu)
        else:
            vc.cover('more bytes than needed')
            vc.ensure_eq('the reply echoes the request', vc.sub(r.value, 0, n), fields)
    vc.ensure('the item holds the requested value', blk[off] == want, lambda: 'item is %r, expected %r' % (blk[off], want))
    vc.ensure('the item is an integer', not isinstance(blk[off], bool))
    mem.frame('no other item changes', lambda k, a: k == kind and a == addr)
    vc.cover('legal write')


@harness('C07', [HR, 'modbus.Slave._write_single_coil', GB, SI])
def single_coil(vc):
    do_single_coil(vc)


def do_single_coil(vc, broadcast=False):
    w = vc.world()
    unsigned = vc.pick('unsigned', (True, False))
    mem = Memory(vc, w, values={COILS: (-3, 70000) if vc.conc else (None, None)})
    slave = make_slave(vc, w, mem, unsigned)
    addr, _ = mem.range(COILS, None, 'address', 1, 1)
    blk, off, ct = mem.containing(COILS, addr, 1)
    value = vc.pick('value', (0, 0xff00))
    fields = vc.cat([5], vc.word(addr), vc.word(value))
    pdu = pdu_of(vc, fields, extra(vc))
    r = send(vc, slave, pdu, broadcast)
    finish(vc, mem, COILS, addr, blk, off, r, fields, pdu, 1 if value else 0, broadcast)


@harness('C07', [HR, 'modbus.Slave._write_single_register', GB, SI])
def single_register(vc):
    do_single_register(vc)


def do_single_register(vc, broadcast=False):
    w = vc.world()
    unsigned = vc.pick('unsigned', (True, False))
    mem = Memory(vc, w, focus=(HOLDING_REGISTERS,))
    slave = make_slave(vc, w, mem, unsigned)
    addr, _ = mem.range(HOLDING_REGISTERS, None, 'address', 1, 1)
    blk, off, ct = mem.containing(HOLDING_REGISTERS, addr, 1)
    value = vc.int('value', 0, 65535, bv=16, near=(0, 32767, 32768, 65535))
    fields = vc.cat([6], vc.word(addr), vc.word(value))
    pdu = pdu_of(vc, fields, extra(vc))
    want = value if unsigned else vc.ite(value >= 32768, value - 65536, value)
    r = send(vc, slave, pdu, broadcast)
    finish(vc, mem, HOLDING_REGISTERS, addr, blk, off, r, fields, pdu, want, broadcast)


@harness('C07', [HR, 'modbus.Slave._mask_write_register', GB, SI])
def mask_write(vc):
    do_mask_write(vc)


def do_mask_write(vc, broadcast=False):
    w = vc.world()
    unsigned = vc.pick('unsigned', (True, False))
    mem = Memory(vc, w, values={HOLDING_REGISTERS: ('bv', 16, not unsigned)})
    slave = make_slave(vc, w, mem, unsigned)
    addr, _ = mem.range(HOLDING_REGISTERS, None, 'address', 1, 1)
    blk, off, ct = mem.containing(HOLDING_REGISTERS, addr, 1)
    am = vc.int('and_mask', 0, 65535, bv=16, near=(0, 32767, 32768, 65535))
    om = vc.int('or_mask', 0, 65535, bv=16, near=(0, 32767, 32768, 65535))
    fields = vc.cat([22], vc.word(addr), vc.word(am), vc.word(om))
    pdu = pdu_of(vc, fields, extra(vc))
    old = vc.at(ct, off)
    word = ((old & am) | (om & (0xFFFF - am))) & 0xFFFF
    want = word if unsigned else vc.ite(word >= 32768, word - 65536, word)
    r = send(vc, slave, pdu, broadcast)
    finish(vc, mem, HOLDING_REGISTERS, addr, blk, off, r, fields, pdu, want, broadcast)


@harness('C07', [HR, 'modbus.Slave._write_single_register', 'modbus.Slave.__init__', 'modbus.Databank.add_slave', 'modbus.Server.add_slave'])
def signedness(vc):
    """a slave is unsigned unless made signed, however it is added"""
    w = vc.world()
    how = vc.pick('made', ('slave', 'databank', 'server'))
    args, kw, unsigned = vc.pick('args', (((), {}, True), ((True,), {}, True), ((False,), {}, False),
                                          ((), {'unsigned': True}, True), ((), {'unsigned': False}, False)))
    make = {'slave': lambda: w.modbus.Slave, 'databank': lambda: w.modbus.Databank().add_slave,
            'server': lambda: w.modbus.Server(w.modbus.Databank()).add_slave}[how]()
    slave = make(7, *args, **kw)
    start = vc.int('start', 0, 65535, near=(0, 65535))
    slave.add_block('b', HOLDING_REGISTERS, start, 1)
    value = vc.int('value', 0, 65535, bv=16, near=(0, 32767, 32768, 65535))
    pdu = vc.tobytes(vc.cat([6], vc.word(start), vc.word(value)))
    r = vc.call(slave.handle_request, pdu)
    vc.ensure('a legal write is answered', r.ok, r)
    vc.ensure_eq('the reply echoes the request', r.value, pdu)
    got = slave.get_values('b', start, 1)[0]
    want = value if unsigned else vc.ite(value >= 32768, value - 65536, value)
    vc.ensure('the item holds the requested value', got == want, lambda: 'item is %r, expected %r' % (got, want))
    vc.cover('signed' if not unsigned else 'unsigned')


from . import slavehist          # noqa: E402


@harness('C07', ['modbus.Slave.handle_request'], sym=False)
def histories(vc):
    """sequences of requests and local operations on two slaves, against a plain model"""
    slavehist.play(vc, 'C07')
