"""C03: Modbus TCP framing; C04 uses the same pieces."""
from vc.harness import harness
from .common import excs


def set_counter(vc, w, name='counter'):
    """an arbitrary earlier history: any last transaction id"""
    q = w.modbus_tcp.TcpQuery
    if hasattr(q, '_last_transaction_id'):
        q._last_transaction_id = vc.int(name, 0, 65535, near=(0, 65534, 65535))


def hdr(vc, tid, pid, length, unit):
    return vc.cat(vc.word(tid), vc.word(pid), vc.word(length), [unit])


def w16(vc, s, i):
    return vc.at(s, i) * 256 + vc.at(s, i + 1)


@harness('C03', ['modbus_tcp.TcpQuery.build_request', 'modbus_tcp.TcpQuery.parse_request', 'modbus_tcp.TcpQuery.build_response',
                 'modbus_tcp.TcpQuery.parse_response', 'modbus_tcp.TcpMbap.pack', 'modbus_tcp.TcpMbap.unpack', 'modbus_tcp.TcpMbap.clone'])
def roundtrip(vc):
    w = vc.world()
    set_counter(vc, w)
    unit = vc.int('unit', near=(0, 255))
    pdu = vc.bytes('pdu', lo=0, hi=65534, reps=(0, 1, 2, 5))
    q = w.modbus_tcp.TcpQuery()
    used = vc.flag('used before')
    other = vc.int('earlier unit', 0, 255) if used else 0
    if used:
        e = vc.call(q.build_request, vc.tobytes(vc.mkbytes([7])), other)
        vc.call(q.parse_response, e.value)
    r = vc.call(q.build_request, pdu, unit)
    if not bool(vc.and_(unit >= 0, unit <= 255)):
        vc.cover('unit out of range')
        vc.ensure('a unit id outside 0..255 is refused', r.raised(excs(w).InvalidArgumentError), r)
        return
    vc.cover('unit in range')
    vc.ensure('build_request returns bytes', r.ok and vc.is_bytes(r.value), r)
    n = vc.len(pdu)
    vc.ensure('request is seven header bytes and the PDU', vc.len(r.value) == n + 7)
    tid = w16(vc, r.value, 0)
    vc.ensure_eq('request frame', r.value, vc.cat(hdr(vc, tid, 0, n + 1, unit), pdu))
    q2 = w.modbus_tcp.TcpQuery()
    if used:
        vc.call(q2.parse_request, vc.tobytes(vc.cat(vc.word(vc.int('earlier transaction', 0, 65535)), vc.word(vc.int('earlier protocol', 0, 65535)), [0, 2, other, 7])))
        vc.call(q2.build_response, vc.tobytes(vc.mkbytes([7])))
    p = vc.call(q2.parse_request, r.value)
    vc.ensure('a built request is accepted', p.ok and isinstance(p.value, tuple) and len(p.value) == 2, p)
    vc.ensure('parsing gives back the unit', p.value[0] == unit)
    vc.ensure('parsing gives back bytes', vc.is_bytes(p.value[1]))
    vc.ensure_eq('parsing gives back the PDU', p.value[1], pdu)
    resp = vc.bytes('resp', lo=0, hi=65534, reps=(0, 1, 3))
    b = vc.call(q2.build_response, resp)
    vc.ensure('build_response returns bytes', b.ok and vc.is_bytes(b.value), b)
    m = vc.len(resp)
    vc.ensure_eq('response repeats ids with its own length', b.value, vc.cat(hdr(vc, tid, 0, m + 1, unit), resp))
    g = vc.call(q.parse_response, b.value)
    vc.ensure('the response is accepted by the requester', g.ok and vc.is_bytes(g.value), g)
    vc.ensure_eq('the requester gets the response PDU', g.value, resp)


@harness('C03', ['modbus_tcp.TcpQuery.parse_request', 'modbus_tcp.TcpMbap.check_length', 'modbus_tcp.TcpQuery.build_response'])
def any_request(vc):
    w = vc.world()
    kind = vc.pick('type', ('bytes', 'bytearray'))
    raw = vc.bytes('frame', lo=0, hi=None if vc.sym else 300, reps=(0, 1, 5, 6, 7, 8, 10), kind=kind)
    n = vc.len(raw)
    lenok = vc.derived('lenok', lambda: vc.and_(n >= 7, w16(vc, raw, 4) == n - 6) if bool(n >= 7) else False)
    if not vc.sym and n >= 6:
        want = n - 6 if lenok else None
        if want is not None:
            l = list(raw) if vc.conc else raw.s.items()
            l[4], l[5] = want >> 8 & 255, want & 255
            d = vc.pick('off', (0, 0, 1, -1, 256))
            v = (want + d) % 65536
            l[4], l[5] = v >> 8, v & 255
            raw = vc.mkbytes(l) if kind == 'bytes' else vc.mkbytearray(l)
    q = w.modbus_tcp.TcpQuery()
    before = vc.pick('used before', ('no', 'accepted', 'refused'))
    if before != 'no':
        # an earlier request of any header, right or wrong about its length
        m = vc.size('earlier', 0, 65534 if vc.sym else 300, reps=(0, 1, 3), near=() if vc.sym else (vc.len(raw) - 7, vc.len(raw) - 8))
        l = m + 1 if before == 'accepted' else vc.int('earlier length', 0, 65535, near=() if vc.sym else (vc.len(raw) - 6,))
        vc.call(q.parse_request, vc.tobytes(vc.cat(hdr(vc, vc.int('earlier transaction', 0, 65535), vc.int('earlier protocol', 0, 65535), l, vc.int('earlier unit', 0, 255)),
                                                   vc.bytes('earlier pdu', n=m))))
    r = vc.call(q.parse_request, raw)
    if bool(n >= 7) and bool(w16(vc, raw, 4) == n - 6):
        vc.cover('consistent length')
        vc.ensure('a request with a right length field is accepted', r.ok and isinstance(r.value, tuple) and len(r.value) == 2, r)
        vc.ensure('its unit is the seventh byte', r.value[0] == vc.at(raw, 6))
        vc.ensure_eq('its PDU is what follows', r.value[1], vc.sub(raw, 7, n - 7))
        resp = vc.bytes('resp', lo=0, hi=65534, reps=(0, 1, 3))
        b = vc.call(q.build_response, resp)
        vc.ensure('build_response returns bytes', b.ok and vc.is_bytes(b.value), b)
        vc.ensure_eq('response repeats ids with its own length', b.value,
                     vc.cat(vc.sub(raw, 0, 4), vc.word(vc.len(resp) + 1), [vc.at(raw, 6)], resp))
    else:
        vc.cover('inconsistent length')
        vc.ensure('any other byte string is refused with an error', not r.ok, r)


@harness('C03', ['modbus_tcp.TcpQuery.parse_response', 'modbus_tcp.TcpMbap.check_response', 'modbus_tcp.TcpMbap._check_ids', 'modbus_tcp.TcpMbap.check_length'])
def any_response(vc):
    w = vc.world()
    set_counter(vc, w)
    unit = vc.int('unit', 0, 255)
    q = w.modbus_tcp.TcpQuery()
    req = vc.call(q.build_request, vc.mkbytes([3, 0, 0, 0, 1]), unit)
    if not req.ok:
        vc.fail('build_request', req)
    req = req.value
    kind = vc.pick('type', ('bytes', 'bytearray'))
    raw = vc.bytes('frame', lo=0, hi=None if vc.sym else 300, reps=(0, 1, 5, 6, 7, 8, 10), kind=kind)
    n = vc.len(raw)

    def good():
        if not bool(n >= 7):
            return False
        return vc.and_(w16(vc, raw, 0) == w16(vc, req, 0), w16(vc, raw, 2) == 0, w16(vc, raw, 4) == n - 6, vc.at(raw, 6) == unit)
    near = vc.derived('near', good)
    if not vc.sym and near and n >= 7:
        l = list(raw) if vc.conc else raw.s.items()
        rq = list(req) if vc.conc else [x for x in vc.sub(req, 0, 7).items()]
        m = n - 6
        l[:7] = rq[:4] + [m >> 8 & 255, m & 255] + rq[6:7]
        k = vc.pick('flip', (None, None, 0, 1, 2, 3, 4, 5, 6))
        if k is not None:
            l[k] ^= 1 << vc.int('bit', 0, 7)
        raw = vc.mkbytes(l) if kind == 'bytes' else vc.mkbytearray(l)
    r = vc.call(q.parse_response, raw)
    if bool(good()):
        vc.cover('matching response')
        vc.ensure('a matching response is accepted', r.ok and vc.is_bytes(r.value), r)
        vc.ensure_eq('its PDU is what follows the header', r.value, vc.sub(raw, 7, n - 7))
    else:
        vc.cover('mismatching response')
        vc.ensure('any other byte string is refused with an error', not r.ok, r)
