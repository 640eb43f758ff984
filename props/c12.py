"""C12: broadcasts."""
from vc.harness import harness
from .common import crc_patches
from .bank import Bank, frame_request, query_of, falsy, changing, FRAMES, random_pdu

DB = 'modbus.Databank.handle_request'
OUT = ('silent', 'error', 'struct', 'modbus', 'invalid', 'missing', 'type', 'out', 'reply')


@harness('C12', [DB, 'modbus_rtu.RtuQuery.parse_request', 'modbus_tcp.TcpQuery.parse_request'])
def every_slave(vc):
    """any number of slaves, each refusing, failing or obeying: each is handed the request once; no reply"""
    patches, spec = crc_patches(vc)
    w = vc.world(patches=patches)
    proto = vc.pick('framing', FRAMES)
    bank = Bank(vc, w, OUT)
    pdu = vc.bytes('pdu', lo=0, hi=65534 if vc.sym else 300, reps=(0, 1, 5))
    raw = frame_request(vc, proto, spec, 0, pdu)

    def check(c):
        vc.ensure('a slave is told that the request is a broadcast', c.broadcast)
        vc.ensure('a slave gets bytes', vc.is_bytes(c.pdu))
        vc.aside(lambda: vc.ensure_eq('a slave gets the PDU unaltered', c.pdu, pdu))
    bank.check = check
    if vc.pick('slaves', ('some', 'any')) == 'some':
        bank.watch_one()
    r = vc.call(bank.db.handle_request, query_of(w, proto), raw)
    vc.cover('broadcast')
    vc.ensure('a broadcast raises nothing', r.ok, r)
    vc.ensure('a broadcast is not answered', falsy(vc, r.value), r)
    if bank.watch is not None:
        vc.ensure('every slave is handed the broadcast exactly once', bank.watch.count == 1, lambda: 'called %s times' % bank.watch.count)


from . import c07, c08          # noqa: E402  (their contracts, for broadcasts)
HR = 'modbus.Slave.handle_request'
for _n, _f, _fn in (('coil', c07.do_single_coil, '_write_single_coil'), ('register', c07.do_single_register, '_write_single_register'),
                    ('mask', c07.do_mask_write, '_mask_write_register'), ('coils', c08.do_multiple_coils, '_write_multiple_coils'),
                    ('registers', c08.do_multiple_registers, '_write_multiple_registers'), ('read_write', c08.do_read_write, '_read_write_multiple_registers')):
    def _h(vc, f=_f):
        f(vc, broadcast=True)
    harness('C12', [HR, 'modbus.Slave.' + _fn], name='broadcast_' + _n)(_h)


@harness('C12', [DB, HR], sym=False)
def real_slaves(vc):
    """real slaves: a broadcast leaves every slave as the same request addressed to it would, a broadcast read leaves all as they were"""
    w = vc.world()
    spec = crc_patches(vc)[1]
    proto = vc.pick('framing', FRAMES)
    layout = vc.given('layout', lambda r: [[i, r.random() < 0.5, [[k, r.choice((0, 0, 5)), r.choice((1, 10, 30))] for k in (1, 2, 3, 4) if r.random() < 0.8]]
                                           for i in sorted(set(r.choice((1, 2, 3, 4, 255)) for _ in range(r.choice((1, 2, 3, 4)))))])

    def build():
        db = w.modbus.Databank(True)
        for i, u, blocks in layout:
            s = db.add_slave(i, unsigned=u)
            for k, (kind, a, n) in enumerate(blocks):
                s.add_block('b%d' % k, kind, a, n)
                s.set_values('b%d' % k, a, [(a + j * 7) & 1 if kind < 3 else (a + j * 7) & 0x7fff for j in range(n)])
        return db
    db, twin = build(), build()
    pdu = vc.given('pdu', random_pdu)
    r = vc.call(db.handle_request, query_of(w, proto), frame_request(vc, proto, spec, 0, pdu))
    vc.ensure('a broadcast raises nothing', r.ok, r)
    vc.ensure('a broadcast is not answered', falsy(vc, r.value), r)
    for i, u, bl in layout:
        if pdu and pdu[0] not in (1, 2, 3, 4):
            vc.call(twin.get_slave(i).handle_request, bytes(pdu))
        st = lambda d: [d.get_slave(i).get_values('b%d' % k, a, n) for k, (kind, a, n) in enumerate(bl)]
        vc.ensure('a broadcast does to a slave what the request does', st(db) == st(twin), lambda: 'slave %d: %r, expected %r' % (i, st(db), st(twin)))


@harness('C12', [DB, 'modbus.Databank.add_slave', 'modbus.Databank.remove_slave', 'modbus.Databank.remove_all_slaves'], sym=False)
def changing_slaves(vc):
    changing(vc, True)
