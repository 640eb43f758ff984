"""C13: requests reach exactly the addressed slave."""
from vc.harness import harness
from .common import crc_patches
from .bank import Bank, frame_request, frame_reply, query_of, falsy, changing, FRAMES

DB = 'modbus.Databank.handle_request'
FNS = [DB, 'modbus.Databank.get_slave', 'modbus_rtu.RtuQuery.parse_request', 'modbus_rtu.RtuQuery.build_response', 'modbus_tcp.TcpQuery.parse_request',
       'modbus_tcp.TcpQuery.build_response']


def setup(vc, outcomes=('reply',)):
    patches, spec = crc_patches(vc)
    w = vc.world(patches=patches)
    proto = vc.pick('framing', FRAMES)
    return w, proto, spec, Bank(vc, w, outcomes)


@harness('C13', FNS)
def addressed_slave(vc):
    w, proto, spec, bank = setup(vc, ('reply', 'empty'))
    vc.trust('modbus.Slave.handle_request returns a PDU of at most 253 bytes or no longer than the request, or raises (C05-C10)')
    near = bank.ids if vc.conc else ()
    unit = vc.int('unit', 1, 255, near=near, make=lambda r: r.choice(near) if near and r.random() < 0.7 else None)
    pdu = vc.bytes('pdu', lo=0, hi=65534 if vc.sym else 300, reps=(0, 1, 5))
    raw = frame_request(vc, proto, spec, unit, pdu)
    addressed = bank.has(unit)
    r = vc.call(bank.db.handle_request, query_of(w, proto), raw)
    if addressed is None:
        vc.cover('no such slave')
        vc.ensure('a request to a missing slave raises nothing', r.ok, r)
        vc.ensure('a request to a missing slave is carried out by nobody', len(bank.calls) == 0)
        vc.ensure('a request to a missing slave is not answered', falsy(vc, r.value), r)
        return
    vc.cover('addressed slave')
    vc.ensure('exactly one slave is called', len(bank.calls) == 1, lambda: '%d calls' % len(bank.calls))
    c = bank.calls[0]
    vc.ensure('it is the one registered under the unit', c.slave is addressed)
    vc.ensure('it is not told the request is a broadcast', not c.broadcast)
    vc.ensure('it gets bytes', vc.is_bytes(c.pdu))
    vc.aside(lambda: vc.ensure_eq('it gets the PDU unaltered', c.pdu, pdu))
    if bool(vc.len(c.reply) == 0):
        vc.cover('an answer without content (a hook that answers in the place of the slave)')
        return
    vc.ensure('the reply is bytes', r.ok and vc.is_bytes(r.value), r)
    vc.ensure_eq('the reply carries what the slave answered', r.value, frame_reply(vc, proto, spec, raw, c.reply))


@harness('C13', FNS + ['modbus.Databank.add_slave', 'modbus.Databank.remove_slave', 'modbus.Databank.remove_all_slaves'], sym=False)
def changing_slaves(vc):
    changing(vc, False)
