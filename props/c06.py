"""C06: reading holding and input registers."""
from vc.harness import harness
from .common import (Memory, make_slave, pdu_of, extra, words_payload, HOLDING_REGISTERS, ANALOG_INPUTS)


def read_hints(vc, ct, off, q):
    if not vc.conc:
        pay = words_payload(vc, lambda n: vc.at(ct, off + n), q)
        vc.hints.streams.append((pay, [('2k', lambda k: 2 * k), ('k', lambda k: k)]))


@harness('C06', ['modbus.Slave.handle_request', 'modbus.Slave._read_holding_registers', 'modbus.Slave._read_input_registers',
                 'modbus.Slave._read_registers', 'modbus.Slave._get_block_and_offset', 'modbus.ModbusBlock.__getitem__'])
def read_registers(vc):
    w = vc.world()
    fc = vc.pick('function', (3, 4))
    unsigned = vc.pick('unsigned', (True, False))
    kind = HOLDING_REGISTERS if fc == 3 else ANALOG_INPUTS
    mem = Memory(vc, w, focus=(kind,), values={kind: ('bv', 16, not unsigned)})
    slave = make_slave(vc, w, mem, unsigned)
    start, q = mem.range(kind, 'quantity', 'start', 1, 125, reps=(1, 2, 3))
    blk, off, ct = mem.containing(kind, start, q)
    read_hints(vc, ct, off, q)
    pay = words_payload(vc, lambda n: vc.at(ct, off + n), q)
    pdu = pdu_of(vc, [fc], vc.word(start), vc.word(q), extra(vc))
    r = vc.call(slave.handle_request, pdu)
    vc.ensure('a legal read is answered', r.ok and vc.is_bytes(r.value), r)
    vc.ensure_eq('the reply is function, byte count and the stored words', r.value, vc.cat([fc, 2 * q], pay))
    mem.frame('reading changes no item')
    vc.cover('legal read')


from . import slavehist          # noqa: E402


@harness('C06', ['modbus.Slave.handle_request'], sym=False)
def histories(vc):
    """sequences of requests and local operations on two slaves, against a plain model"""
    slavehist.play(vc, 'C06')
