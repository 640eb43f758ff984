"""C02: RTU framing."""
from vc.harness import harness
from .common import crc_patches, with_crc, excs


def setup(vc):
    patches, spec = crc_patches(vc)
    return vc.world(patches=patches), spec


def frame_draw(vc, spec, name, address=None):
    """an arbitrary byte string; concrete runs make its checksum right when asked to"""
    kind = vc.pick('type', ('bytes', 'bytearray'))
    raw = vc.bytes(name, lo=0, hi=None if vc.sym else 300, reps=(0, 1, 2, 3, 4, 6), kind=kind)

    def good():
        if vc.len(raw) < 3:
            return False
        n = vc.len(raw)
        body = vc.tobytes(vc.sub(raw, 0, n - 2))
        return vc.at(raw, n - 2) * 256 + vc.at(raw, n - 1) == spec(body)
    if vc.sym:
        ok = vc.derived('crcok', good)
        return raw, ok
    l = list(raw) if vc.conc else raw.s.items()
    if vc.derived('crcok', None) and len(l) >= 3:
        l = list(with_crc(vc, l[:-2], spec)) if vc.conc else with_crc(vc, vc.mkbytes(l[:-2]), spec).items()
        k = vc.pick('flip', (None, None, 0, 1, 2, -1, -2, -3))
        if k is not None and -len(l) <= k < len(l):
            l[k] ^= 1 << vc.int('bit', 0, 7)
    raw = vc.mkbytes(l) if kind == 'bytes' else vc.mkbytearray(l)
    return raw, good()


@harness('C02', ['modbus_rtu.RtuQuery.build_request', 'modbus_rtu.RtuQuery.parse_request', 'modbus_rtu.RtuQuery.parse_response'])
def request_roundtrip(vc):
    w, spec = setup(vc)
    slave = vc.int('slave', near=(0, 255))
    pdu = vc.bytes('pdu', lo=0, reps=(0, 1, 2, 5))
    q = w.modbus_rtu.RtuQuery()
    used = vc.flag('used before')
    other = vc.int('earlier address', 0, 255) if used else 0
    if used:
        vc.call(q.build_request, vc.tobytes(vc.mkbytes([7])), other)
        vc.call(q.parse_response, vc.tobytes(with_crc(vc, vc.cat([other], [7]), spec)))
    r = vc.call(q.build_request, pdu, slave)
    if not bool(vc.and_(slave >= 0, slave <= 255)):
        vc.cover('address out of range')
        vc.ensure('an address outside 0..255 is refused', r.raised(excs(w).InvalidArgumentError), r)
        return
    vc.cover('address in range')
    vc.ensure('build_request returns bytes', r.ok and vc.is_bytes(r.value), r)
    frame = vc.tobytes(with_crc(vc, vc.cat([slave], pdu), spec))
    vc.ensure_eq('request frame is address, PDU, checksum', r.value, frame)
    q2 = w.modbus_rtu.RtuQuery()
    if used:
        vc.call(q2.parse_request, vc.tobytes(with_crc(vc, vc.cat([other], [7]), spec)))
        vc.call(q2.build_response, vc.tobytes(vc.mkbytes([7])))
    p = vc.call(q2.parse_request, frame)
    vc.ensure('a built request is accepted', p.ok, p)
    vc.ensure('parsing gives two values', isinstance(p.value, tuple) and len(p.value) == 2)
    vc.ensure('parsing gives back the address', p.value[0] == slave)
    vc.ensure('parsing gives back bytes', vc.is_bytes(p.value[1]))
    vc.ensure_eq('parsing gives back the PDU', p.value[1], pdu)
    resp = vc.bytes('resp', lo=0, reps=(0, 1, 3))
    b = vc.call(q2.build_response, resp)
    vc.ensure('build_response returns bytes', b.ok and vc.is_bytes(b.value), b)
    rframe = vc.tobytes(with_crc(vc, vc.cat([slave], resp), spec))
    vc.ensure_eq('response frame is the request address, PDU, checksum', b.value, rframe)
    g = vc.call(q.parse_response, rframe)
    vc.ensure('the response is accepted by the requester', g.ok and vc.is_bytes(g.value), g)
    vc.ensure_eq('the requester gets the response PDU', g.value, resp)


@harness('C02', ['modbus_rtu.RtuQuery.parse_request'])
def damaged_request(vc):
    w, spec = setup(vc)
    raw, good = frame_draw(vc, spec, 'frame')
    q = w.modbus_rtu.RtuQuery()
    r = vc.call(q.parse_request, raw)
    if bool(good):
        vc.cover('valid frame')
        vc.ensure('a request with a right checksum is accepted', r.ok and isinstance(r.value, tuple) and len(r.value) == 2, r)
        vc.ensure('its address is the first byte', r.value[0] == vc.at(raw, 0))
        vc.ensure_eq('its PDU is what lies between', r.value[1], vc.sub(raw, 1, vc.len(raw) - 3))
    else:
        vc.cover('damaged frame')
        vc.ensure('a short or damaged request is refused with an invalid-request error', r.raised(excs(w).ModbusInvalidRequestError), r)


@harness('C02', ['modbus_rtu.RtuQuery.parse_response'])
def damaged_response(vc):
    w, spec = setup(vc)
    slave = vc.int('slave', 0, 255)
    q = w.modbus_rtu.RtuQuery()
    vc.call(q.build_request, vc.mkbytes([3, 0, 0, 0, 1]), slave)
    raw, good = frame_draw(vc, spec, 'frame')
    if not vc.sym and vc.len(raw) and vc.pick('sameaddr', (True, False)) and vc.mode == 'conc':
        l = [slave] + list(raw)[1:]
        if good:
            l = list(with_crc(vc, l[:-2], spec))
        raw = bytes(l)
        good = len(raw) >= 3 and list(with_crc(vc, list(raw)[:-2], spec)) == list(raw)
    r = vc.call(q.parse_response, raw)
    if bool(good) and bool(vc.at(raw, 0) == slave):
        vc.cover('valid response')
        vc.ensure('a matching response is accepted', r.ok and vc.is_bytes(r.value), r)
        vc.ensure_eq('its PDU is what lies between', r.value, vc.sub(raw, 1, vc.len(raw) - 3))
    else:
        vc.cover('damaged or foreign response')
        vc.ensure('a short, damaged or foreign response is refused with an invalid-response error', r.raised(excs(w).ModbusInvalidResponseError), r)
