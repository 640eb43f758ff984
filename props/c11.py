"""C11: any byte string, in frame or no answer."""
import random
from vc.harness import harness, known_check, is_known
from vc import world as world_mod
from .common import crc_patches, Memory, make_slave, pdu_of, COILS, HOLDING_REGISTERS, DISCRETE_INPUTS, ANALOG_INPUTS, KINDS
from .bank import Bank, arbitrary_request, frame_reply, frame_request, query_of, falsy, FRAMES, random_pdu, with_crc

DB = 'modbus.Databank.handle_request'
FNS = [DB, 'modbus.Databank.get_slave', 'modbus_rtu.RtuQuery.parse_request', 'modbus_rtu.RtuQuery.build_response', 'modbus_tcp.TcpQuery.parse_request',
       'modbus_tcp.TcpQuery.build_response', 'modbus_tcp.TcpMbap.check_length', 'modbus_tcp.TcpMbap.unpack']
KNOWN = is_known('C11', 'unframed-failure-reply')


def unframed(vc, value, pdu):
    """the known finding: two raw bytes, the function code with its top bit set and code 4 (the request was not handled)"""
    if not KNOWN or not vc.is_bytes(value) or not bool(vc.len(value) == 2):
        return False
    if pdu is None or not bool(vc.len(pdu) >= 1):
        f = 0x81
    else:
        f = vc.ite(vc.at(pdu, 0) >= 128, vc.at(pdu, 0), vc.at(pdu, 0) + 128)
    return vc.and_(vc.at(value, 0) == f, vc.at(value, 1) == 4)


@known_check('C11', 'unframed-failure-reply')
def _still_there():
    w = world_mod.World(None)
    db = w.modbus.Databank()
    db.add_slave(1)
    return db.handle_request(w.modbus_tcp.TcpQuery(), bytes([0, 1, 0, 0, 0, 99, 1, 3, 0, 0, 0, 1])) == bytes([0x81, 4])


@harness('C11', FNS, weight=2)
def any_string(vc):
    """slaves under the contract of Slave.handle_request"""
    patches, spec = crc_patches(vc)
    w = vc.world(patches=patches)
    vc.trust('modbus.Slave.handle_request returns a PDU of at most 253 bytes or no longer than the request, or raises (slave_contract)')
    proto = vc.pick('framing', FRAMES)
    bank = Bank(vc, w, ('reply', 'error', 'struct', 'modbus', 'type'))
    req = arbitrary_request(vc, proto, spec, bank.ids if vc.conc else None)
    r = vc.call(bank.db.handle_request, query_of(w, proto), req.raw)
    vc.ensure('handling a byte string raises nothing', r.ok, r)
    if not req.good:
        vc.cover('not a frame')
        vc.ensure('a damaged request has no effect', len(bank.calls) == 0, lambda: '%d calls' % len(bank.calls))
        if proto == 'rtu':
            vc.ensure('a damaged RTU request is not answered', falsy(vc, r.value), r)
        elif not falsy(vc, r.value):
            vc.ensure('a damaged TCP request is not answered', unframed(vc, r.value, None), r)
        return
    answered = [c for c in bank.calls if not c.broadcast]
    if not answered:
        vc.cover('no slave addressed')
        vc.ensure('without an addressed slave there is no reply', falsy(vc, r.value), r)
        return
    c = answered[-1]
    if c.reply is None:
        vc.cover('the slave fails')
        if not falsy(vc, r.value):
            vc.ensure('a failing slave gives no reply or one frame', unframed(vc, r.value, req.pdu), r)
        return
    vc.cover('the slave answers')
    vc.ensure('the reply is bytes', vc.is_bytes(r.value), r)
    vc.ensure_eq('the reply is one frame with the slave\'s answer', r.value, frame_reply(vc, proto, spec, req.raw, c.reply))


def reply_shape(vc, pdu, r):
    if not r.ok:
        return
    vc.ensure('a reply PDU is bytes', vc.is_bytes(r.value), r)
    n = vc.len(r.value)
    vc.ensure('a reply PDU is not empty', n >= 1)
    vc.ensure('a reply PDU fits a frame', vc.or_(n <= 253, n <= vc.len(pdu)))
    f, g = vc.at(pdu, 0), vc.at(r.value, 0)
    vc.ensure('a reply PDU carries the function code of the request', vc.or_(g == f, g == f + 128))


HR = 'modbus.Slave.handle_request'
GB = 'modbus.Slave._get_block_and_offset'


def one_contract(name, fcs, fns):
    @harness('C11', [HR, GB] + fns, name='slave_contract_' + name)
    def h(vc):
        w = vc.world()
        fc = vc.pick('function', fcs)
        kind = {1: COILS, 2: DISCRETE_INPUTS, 3: HOLDING_REGISTERS, 4: ANALOG_INPUTS, 5: COILS, 6: HOLDING_REGISTERS, 15: COILS, 16: HOLDING_REGISTERS,
                22: HOLDING_REGISTERS, 23: HOLDING_REGISTERS}.get(fc)
        unsigned = vc.pick('unsigned', (True, False))
        reg = ('bv', 16, not unsigned)
        mem = Memory(vc, w, focus=(kind,) if kind else (), values={HOLDING_REGISTERS: reg, ANALOG_INPUTS: reg})
        slave = make_slave(vc, w, mem, unsigned)
        if fc == 'other':
            f = vc.int('fc', 0, 255, bv=8)
            vc.assume(vc.and_(*[f != k for k in (1, 2, 3, 4, 5, 6, 7, 15, 16, 22, 23)]))
        else:
            f = fc
        if vc.conc and fc in (1, 2, 3, 4):
            start, q = mem.range(kind, 'quantity', 'start', 0, 65535)
            pdu = pdu_of(vc, [fc], vc.word(start), vc.word(q))
        else:
            pdu = pdu_of(vc, [f], vc.bytes('body', lo=0, hi=None if vc.sym else 300, reps=(0, 4, 5, 7, 8, 9, 11)))
        r = vc.call(slave.handle_request, pdu)
        vc.cover('outcome')
        reply_shape(vc, pdu, r)


one_contract('reads', (1, 2, 3, 4), ['modbus.Slave._read_digital', 'modbus.Slave._read_registers'])
one_contract('single', (5, 6, 22), ['modbus.Slave._write_single_coil', 'modbus.Slave._write_single_register', 'modbus.Slave._mask_write_register'])
one_contract('multiple', (15, 16), ['modbus.Slave._write_multiple_coils', 'modbus.Slave._write_multiple_registers'])
one_contract('read_write', (23,), ['modbus.Slave._read_write_multiple_registers'])
one_contract('others', (7, 'other'), ['modbus.Slave._read_exception_status'])


@harness('C11', FNS + [HR], sym=False)
def real_slaves(vc):
    """the same with real slaves: replies are the frames of what an identical slave answers to the PDU"""
    w = vc.world()
    spec = crc_patches(vc)[1]
    proto = vc.pick('framing', FRAMES)

    def build():
        db = w.modbus.Databank(err)
        for i, u, blocks in layout:
            s = db.add_slave(i, unsigned=u)
            for k, (kind, a, n) in enumerate(blocks):
                s.add_block('b%d' % k, kind, a, n)
                s.set_values('b%d' % k, a, [(a + j * 7) & 1 if kind < 3 else (a + j * 7) & 0x7fff for j in range(n)])
        return db
    err = vc.flag('error_on_missing_slave')
    layout = vc.given('layout', lambda r: [[i, r.random() < 0.5, [[k, 0, r.choice((1, 10, 30, 2100))] for k in KINDS if r.random() < 0.9]]
                                           for i in sorted(set(r.choice((1, 2, 3, 255)) for _ in range(r.choice((1, 2, 3)))))])
    req = arbitrary_request(vc, proto, spec, [x[0] for x in layout])
    db, twin = build(), build()
    r = vc.call(db.handle_request, query_of(w, proto), req.raw)
    vc.ensure('handling a byte string raises nothing', r.ok, r)
    state = lambda d: [[d.get_slave(i).get_values('b%d' % k, a, n) for k, (kind, a, n) in enumerate(bl)] for i, u, bl in layout]
    if not req.good:
        vc.ensure('a damaged request has no effect', state(db) == state(twin))
        vc.ensure('a damaged request is not answered', falsy(vc, r.value) or proto == 'tcp' and unframed(vc, r.value, None), r)
        return
    if req.unit == 0 or req.unit not in [x[0] for x in layout]:
        vc.ensure('without an addressed slave there is no reply', falsy(vc, r.value), r)
        if req.unit:
            vc.ensure('a request for no slave has no effect', state(db) == state(twin))
        return
    a = vc.call(twin.get_slave(req.unit).handle_request, bytes(req.pdu))
    vc.ensure('memory is what the addressed slave alone makes of it', state(db) == state(twin))
    if a.ok:
        vc.ensure('the reply is bytes', vc.is_bytes(r.value), r)
        vc.ensure_eq('the reply is one frame with the slave\'s answer', r.value, frame_reply(vc, proto, spec, list(req.raw), list(a.value)))
    else:
        vc.ensure('a failing slave gives no reply or one frame', falsy(vc, r.value) or unframed(vc, r.value, req.pdu), r)
