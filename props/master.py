"""A master over a link that records (C17, C18, C19): the framing and the link are replaced by their contracts."""
from vc import core, seq, shims
from vc.core import VcInt
from .common import excs


class Stop(Exception):
    """the harness ends the call here"""


FRAME = b'\x11frame\x22'


class Link(object):
    """what the master did: pdus handed to the framing layer, frames sent, expected lengths"""
    _vc_ghost = True

    def __init__(self):
        self._vc_pdus, self._vc_sent, self._vc_expected, self._vc_units = [], [], [], []
        self._vc_answer = None          # fn(pdu) -> response PDU, raw: handed out by the framing layer

    pdus = property(lambda s: s._vc_pdus)
    sent = property(lambda s: s._vc_sent)
    expected = property(lambda s: s._vc_expected)
    units = property(lambda s: s._vc_units)


def make_master(vc, w, answer=None):
    """(master, link): answer(pdu) is the response PDU; without it the call ends with Stop when it would receive"""
    if vc.session is not None and 'master' in vc.session:
        # a further call of the same master
        m, link = vc.session['master']
        link._vc_answer = answer
        for l in (link.pdus, link.sent, link.expected, link.units):
            del l[:]
        return m, link
    link = Link()
    link._vc_answer = answer
    base = w.modbus.Master

    class Q(object):
        def build_request(self, pdu, slave):
            link._vc_pdus.append(pdu)
            link._vc_units.append(slave)
            return FRAME

        def parse_response(self, response):
            return response

    class M(base):
        def _do_open(self):
            return None

        def _do_close(self):
            return True

        def _send(self, request):
            link._vc_sent.append(request)

        def _recv(self, expected_length=-1):
            link._vc_expected.append(expected_length)
            if link._vc_answer is None:
                raise Stop()
            return link._vc_answer(link._vc_pdus[-1])

        def _make_query(self):
            return Q()
    m = M(5.0)
    if vc.session is not None:
        vc.session['master'] = (m, link)
    return m, link


def plain_reply(pdu):
    """a proper normal reply to a request"""
    f = pdu[0] if pdu else 1
    if f in (1, 2, 3, 4, 23) and len(pdu) >= 5:
        n = (pdu[3] * 256 + pdu[4] + 7) // 8 if f < 3 else 2 * (pdu[3] * 256 + pdu[4])
        return bytes([f, n & 255] + [0] * n)
    return bytes(pdu[:7 if f == 22 else 5]) if f in (5, 6, 15, 16, 22) else bytes(pdu) + b'\x00'


def sends(vc, r, link, pdu, unit=None):
    """the call sends exactly one frame, built from this PDU"""
    vc.ensure('the call does not fail before it sends', r.raised(Stop) or link._vc_answer is not None, r)
    vc.ensure('one request is sent', len(link.sent) == 1 and link.sent[0] == FRAME and len(link.pdus) == 1, lambda: '%d sent' % len(link.sent))
    vc.ensure('the PDU is bytes', vc.is_bytes(link.pdus[0]))
    if unit is not None:
        vc.ensure('the request goes to the given unit', link.units[0] == unit)
    vc.ensure_eq('the PDU is the encoding of the arguments', link.pdus[0], pdu)


def refuses(vc, r, link):
    vc.ensure('a call that cannot be encoded raises an error', not r.ok and not r.raised(Stop) and not link.sent, r)
    vc.ensure('a call that cannot be encoded sends nothing', len(link.sent) == 0)


def u16(vc, v):
    """is v a 16-bit word?"""
    return bool(vc.and_(v >= 0, v <= 65535))


def coil_byte(vc, values, n, m, upto=8):
    """byte m of the packed coils values[0..n-1], its bits below `upto`"""
    t = 0
    for b in range(8):
        i = 8 * m + b
        if vc.conc:
            on = i < n and b < upto and values[i] > 0
        else:
            if isinstance(i, int) and isinstance(n, int) and i >= n:
                continue
            on = vc.and_(i < n, b < upto, vc.at(values, i) > 0)
        t = t + vc.ite(on, 1 << b, 0)
    if isinstance(t, VcInt):
        t = shims.narrowed(t, 0, 255)
    return t


def packed_coils(vc, values, n):
    return vc.fn((n + 7) // 8, lambda m: coil_byte(vc, values, n, m))


def word_bytes(vc, get, n):
    """2n bytes: get(0..n-1) as words, big endian (negative values in two's complement)"""
    def byte(m):
        v = get(m // 2)
        if vc.conc:
            return (v & 0xffff) >> (0 if m % 2 else 8) & 255
        v = vc.ite(v < 0, v + 65536, v)
        return vc.ite(m % 2 == 0, core.byte_of(v, 8), core.byte_of(v, 0))
    return vc.fn(2 * n, byte)
