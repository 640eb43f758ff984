"""C05: reading coils and discrete inputs."""
from vc.harness import harness
from .common import (Memory, make_slave, pdu_of, extra, COILS, DISCRETE_INPUTS)


def bit_byte(vc, ct, off, m, q):
    """payload byte m: items off+8m .. off+8m+7, those beyond the quantity read as 0"""
    v = 0
    for j in range(8):
        n = m * 8 + j
        if vc.conc or (isinstance(n, int) and isinstance(q, int) and not hasattr(ct, 'get')):
            b = n < q and ct[off + n] != 0
            v += (1 << j) if b else 0
        else:
            it = vc.at(ct, off + n)
            v = vc.ite(vc.and_(n < q, it != 0), 1 << j, 0) + v
    return v


def payload(vc, ct, off, q, nbytes):
    return vc.fn(nbytes, lambda m: bit_byte(vc, ct, off, m, q))


@harness('C05', ['modbus.Slave.handle_request', 'modbus.Slave._read_coils', 'modbus.Slave._read_discrete_inputs', 'modbus.Slave._read_digital',
                 'modbus.Slave._get_block_and_offset', 'modbus.ModbusBlock.__getitem__'])
def read_bits(vc):
    w = vc.world()
    fc = vc.pick('function', (1, 2))
    unsigned = vc.pick('unsigned', (True, False))
    kind = COILS if fc == 1 else DISCRETE_INPUTS
    mem = Memory(vc, w, focus=(kind,), values={kind: (None, None) if vc.sym else (-3, 70000)})
    slave = make_slave(vc, w, mem, unsigned)
    start, q = mem.range(kind, 'quantity', 'start', 1, 2000, reps=(1, 7, 8, 9, 17))
    blk, off, ct = mem.containing(kind, start, q)
    nbytes = (q + 7) // 8
    pay = payload(vc, ct, off, q, nbytes)
    if not vc.conc:
        full = payload(vc, ct, off, q, nbytes)
        vc.hints.streams.append((full, [('k//8', lambda k: k // 8), ('k', lambda k: k), ('k+1', lambda k: k + 1)]))
        vc.hints.ints.append(lambda k: bit_byte(vc, ct, off, k // 8, k))
        vc.hints.ints.append(lambda k: bit_byte(vc, ct, off, k, q))
    pdu = pdu_of(vc, [fc], vc.word(start), vc.word(q), extra(vc))
    r = vc.call(slave.handle_request, pdu)
    vc.ensure('a legal read is answered', r.ok and vc.is_bytes(r.value), r)
    vc.ensure_eq('the reply is function, byte count and the stored bits', r.value, vc.cat([fc, nbytes], pay))
    mem.frame('reading changes no item')
    vc.cover('legal read')


from . import slavehist          # noqa: E402


@harness('C05', ['modbus.Slave.handle_request'], sym=False)
def histories(vc):
    """sequences of requests and local operations on two slaves, against a plain model"""
    slavehist.play(vc, 'C05')
