"""C18: what a master call returns for every response PDU."""
import struct as _struct
from vc.harness import harness
from vc import core, shims
from .common import bit_of, vmin, w16, sword
from .master import make_master, word_bytes
SIZES = {'B': 1, 'x': 1, 'H': 2, 'h': 2, 'I': 4, 'i': 4, 'q': 8, 'e': 2, 'f': 4, 'd': 8}

EX = 'modbus.Master.execute'


def response(vc, fc, make, lo=0):
    """any response PDU (concrete runs: mostly make(rng), the data of a proper one)"""
    if vc.sym:
        return vc.bytes('response', lo=lo, reps=(0, 1, 2, 3, 4, 5, 6, 9))

    def gen(r):
        p = [fc] + make(r)
        k = r.random()
        if k < 0.12:
            p = p[:r.randrange(len(p) + 1)]
        elif k < 0.2:
            p = p + [r.randrange(256) for _ in range(r.randrange(1, 4))]
        elif k < 0.3:
            p = [fc | 0x80, r.randrange(256)] + p[2:2 + r.choice((0, 0, 0, 1, 40))]
        elif k < 0.4:
            p[0] = r.choice((0, 1, 2, 3, 4, 5, 6, 15, 16, 22, 23, 127, 128, 129, 131, 255, r.randrange(256)))
        elif k < 0.5 and len(p) > 1:
            p[1] = (p[1] + r.choice((-2, -1, 1, 2))) % 256
        return p
    return bytes(vc.given('response', gen))


def call(vc, resp, fc, *a, **k):
    """(outcome of the call, modbus module)"""
    w = vc.world()
    slave = vc.int('slave', 0, 255)
    m, link = make_master(vc, w, answer=lambda pdu: resp)
    return vc.call(m.execute, slave, fc, *a, **k), w.modbus


def judge(vc, r, mb, resp, fc, matching):
    n = vc.len(resp)
    if bool(n < 2):
        vc.cover('too short')
        vc.ensure('a response without function code and data raises', not r.ok, r)
        return
    rc = vc.at(resp, 0)
    if bool(rc == fc + 128):
        vc.cover('exception reply')
        vc.ensure('an exception reply raises a Modbus error', r.raised(mb.ModbusError), r)
        vc.ensure('the error carries the exception code of the slave', r.exc.get_exception_code() == vc.at(resp, 1), r)
    elif bool(rc != fc):
        vc.cover('another function')
        vc.ensure('a response with another function code raises', not r.ok, r)
    else:
        vc.cover('matching function')
        matching(n)


def read_judge(vc, r, mb, resp, fc, nbytes, raw, values):
    def matching(n):
        if bool(vc.at(resp, 1) != n - 2):
            vc.ensure('a byte count that disagrees with the data raises an invalid-response error', r.raised(mb.ModbusInvalidResponseError), r)
        elif raw:
            vc.ensure('raw data is returned', r.ok, r)
            vc.ensure_eq('raw data is what follows the byte count', r.value, vc.sub(resp, 2, n - 2))
        elif bool(n - 2 != nbytes):
            vc.ensure('another number of items than asked for raises', not r.ok, r)
        else:
            vc.cover('values')
            vc.ensure('a proper response is decoded', r.ok, r)
            values()
    judge(vc, r, mb, resp, fc, matching)


@harness('C18', [EX], weight=3)
def read_bits(vc):
    fc = vc.pick('function', (1, 2))
    a = vc.int('start', 0, 65535)
    q = vc.size('quantity', 0, 65535, reps=(0, 1, 7, 8, 9, 16, 17), make=lambda r: r.choice((1, 2, 7, 8, 9, 15, 16, 17, r.randrange(100), r.randrange(2001))))
    raw = vc.flag('raw')
    nb = (q + 7) // 8
    resp = response(vc, fc, lambda r: [nb & 255] + [r.randrange(256) for _ in range(nb)])
    bit = lambda i: bit_of(vc, resp, i + 16)
    if not vc.conc:
        h = vc.hints
        h.contents.append(lambda entry, k: vc.cat(entry, vc.fn(vmin(vc, 8 * k, q), bit)))
        h.contents.append(lambda entry, k: vc.cat(entry, vc.fn(k, bit)))
    r, mb = call(vc, resp, fc, a, q, returns_raw=raw)
    read_judge(vc, r, mb, resp, fc, nb, raw, lambda: vc.ensure_eq('the bits asked for are returned, in order', r.value, vc.fn(q, bit)))


@harness('C18', [EX])
def read_registers(vc):
    fc = vc.pick('function', (3, 4, 23))
    a = vc.int('start', 0, 65535)
    q = vc.size('quantity', 0, 65535, reps=(0, 1, 2, 3), make=lambda r: r.choice((1, 2, 3, r.randrange(20), r.randrange(130))))
    raw = vc.flag('raw')
    resp = response(vc, fc, lambda r: [2 * q & 255] + [r.randrange(256) for _ in range(2 * q)])
    kw = dict(output_value=vc.mklist([7])) if fc == 23 else {}
    r, mb = call(vc, resp, fc, a, q, returns_raw=raw, **kw)
    read_judge(vc, r, mb, resp, fc, 2 * q, raw,
               lambda: vc.ensure_eq('the words asked for are returned, in order', r.value, vc.fn(q, lambda i: w16(vc, resp, 2 + 2 * i))))


@harness('C18', [EX])
def read_formatted(vc):
    """the caller's data format decides how the data are decoded"""
    fc = vc.pick('function', (3, 4, 23))
    fmt, q = vc.pick('format', (('>h', 1), ('>hh', 2), ('>I', 2), ('>i', 2), ('>BB', 1), ('>Hh', 2), ('<H', 1), ('>q', 4), ('>f', 2), ('<f', 2), ('>d', 4), ('!ff', 4), ('>fH', 3), ('>he', 2), ('=Hi', 3), ('>2H', 2), ('>xBI', 3)))
    resp = response(vc, fc, lambda r: [2 * q] + [r.randrange(256) for _ in range(2 * q)])
    kw = dict(output_value=vc.mklist([7])) if fc == 23 else {}
    r, mb = call(vc, resp, fc, 5, q, data_format=fmt, **kw)

    def values():
        want, pos = [], 2
        for code in fmt[1:].replace('2H', 'HH'):
            sz = SIZES[code]
            bs = [vc.at(resp, pos + j) for j in range(sz)]
            pos += sz
            if code == 'x':
                continue
            if code in 'efd':
                x = vc.float_of(bs if fmt[0] in '>!' else bs[::-1], code)
                vc.assume(x == x)       # not NaN
                want.append(x)
                continue
            v = 0
            for b in (bs if fmt[0] in '>!' else bs[::-1]):
                v = v * 256 + b
            if code in 'hiq':
                v = vc.ite(v >= 1 << (8 * sz - 1), v - (1 << (8 * sz)), v)
            want.append(v)
        vc.ensure_eq('the data are decoded with the given format', r.value, vc.mktuple(want))
    read_judge(vc, r, mb, resp, fc, 2 * q, False, values)


@harness('C18', [EX])
def writes(vc):
    fc = vc.pick('function', (5, 6, 15, 16, 22))
    raw = vc.flag('raw')
    nw = 3 if fc == 22 else 2
    resp = response(vc, fc, lambda r: [r.randrange(256) for _ in range(2 * nw)])
    if fc == 22:
        kw = dict(and_mask=vc.int('and_mask', 0, 65535), or_mask=vc.int('or_mask', 0, 65535))
    elif fc in (5, 6):
        kw = dict(output_value=vc.int('value', 0, 65535))
    else:
        kw = dict(output_value=vc.mklist([1, 0, 1]))
    r, mb = call(vc, resp, fc, vc.int('start', 0, 65535), returns_raw=raw, **kw)

    def matching(n):
        if raw:
            vc.ensure('raw data is returned', r.ok, r)
            vc.ensure_eq('raw data is what follows the function code', r.value, vc.sub(resp, 1, n - 1))
        elif bool(n != 2 * nw + 1):
            vc.ensure('a response of another length raises', not r.ok, r)
        else:
            vc.cover('echo')
            vc.ensure('a proper response is decoded', r.ok, r)
            vc.ensure_eq('the echoed fields are returned', r.value, vc.mktuple([w16(vc, resp, 1 + 2 * j) for j in range(nw)]))
    judge(vc, r, mb, resp, fc, matching)


@harness('C18', [EX])
def others(vc):
    """exception status, diagnostics, device information"""
    fc = vc.pick('function', (7, 8, 43))
    raw = vc.flag('raw')
    if fc == 7:
        size, kw = 2, {}
        a = 0
    elif fc == 8:
        n = vc.size('n', 1, None if vc.sym else 30, reps=(1, 2, 3))
        size, kw = n + 3, dict(output_value=vc.ints('data', n, 0, 255))
        a = vc.int('subfunction', 0, 65535)
        if not vc.conc:
            vc.hints.streams.append((kw['output_value'].s, [('k', lambda k: k)]))
    else:
        size, kw = None, dict(output_value=vc.mklist([1, 0]))
        a = 0
    resp = response(vc, fc, lambda r: [r.randrange(256) for _ in range((size or r.randrange(40)) - 1)])
    r, mb = call(vc, resp, fc, a, returns_raw=raw, **kw)

    def matching(n):
        if raw:
            vc.ensure('raw data is returned', r.ok, r)
            vc.ensure_eq('raw data is what follows the function code', r.value, vc.sub(resp, 1, n - 1))
        elif size is not None and bool(n != size):
            vc.ensure('a response of another length raises', not r.ok, r)
        else:
            vc.cover('values')
            vc.ensure('a proper response is decoded', r.ok, r)
            if fc == 8:
                want = vc.cat([w16(vc, resp, 1)], vc.sub(resp, 3, n - 3))
            else:
                want = vc.sub(resp, 1, n - 1)
            vc.ensure_eq('the data are returned', r.value, want)
    judge(vc, r, mb, resp, fc, matching)


def file_record(vc, counts):
    """that many groups, of any lengths"""
    n = vc.pick('groups', counts if vc.sym else (1, 2, 3, 4, 7))
    raw = vc.flag('raw')
    if vc.sym:
        vc.rt.unroll = 400
    q = [vc.size('length%d' % k, 1, 65535 if vc.sym else 14, reps=(1, 2, 60)) for k in range(n)]

    def make(r):
        out = []
        for x in q:
            out += [2 * x + r.choice((1, 1, 0)), 6] + [r.randrange(256) for _ in range(2 * x)]
        if r.random() < 0.3:
            k = r.randrange(n)
            out[sum(2 * x + 2 for x in q[:k])] = r.choice((0, 1, 2, 2 * q[k] + 2, 2 * q[k] - 1, r.randrange(256)))
        return [len(out) & 255] + out
    resp = response(vc, 20, make)
    r, mb = call(vc, resp, 20, vc.mktuple([1] * n), vc.mktuple(q), number_file=vc.mktuple([4] * n), returns_raw=raw)

    def matching(ln):
        if bool(vc.at(resp, 1) != ln - 2):
            vc.ensure('a byte count that disagrees with the data raises an invalid-response error', r.raised(mb.ModbusInvalidResponseError), r)
            return
        if raw:
            vc.ensure('raw data is returned', r.ok, r)
            vc.ensure_eq('raw data is what follows the byte count', r.value, vc.sub(resp, 2, ln - 2))
            return
        total = 0
        for x in q:
            total = total + 2 * x + 2
        if bool(ln - 2 != total):
            vc.ensure('another number of items than asked for raises', not r.ok, r)
            return
        at, pos = [], 2
        for x in q:
            at.append(pos)
            pos = pos + 2 * x + 2
        good = vc.and_(*[vc.or_(vc.at(resp, p) == 2 * x, vc.at(resp, p) == 2 * x + 1) for p, x in zip(at, q)])
        if not bool(good):
            vc.cover('inconsistent groups')
            vc.ensure('inconsistent group lengths raise', not r.ok, r)
            return
        vc.cover('groups')
        vc.ensure('a proper response is decoded', r.ok, r)
        vc.ensure('one group per request is returned', vc.len(r.value) == n, r)
        for k in range(n):
            vc.aside(lambda: vc.ensure_eq('a group is its words', vc.at(r.value, k), vc.fn(q[k], lambda i: w16(vc, resp, at[k] + 2 + 2 * i))))
    judge(vc, r, mb, resp, 20, matching)


# the loop over the groups is executed as often as there are groups: the number of groups is a stated bound, their lengths and contents are not
FILE_RECORDS = []
for quick, thorough in (((1, 2, 3, 4), range(1, 15)), ((5,), range(15, 20)), ((6,), range(20, 24)), ((7,), range(24, 27)), ((8,), range(27, 30)),
                        ((9,), (30, 31)), ((10,), (32, 33)), ((3, 4), (34, 35, 36))):
    def fr(vc, quick=quick, thorough=thorough):
        """a file record response with that many groups of any lengths"""
        file_record(vc, tuple(quick if vc.tier == 'quick' else thorough))
    FILE_RECORDS.append(fr)
    harness('C18', [EX], name='file_record_%d' % len(FILE_RECORDS), m3=0.3, within='responses of 1 to 10 groups (thorough: 36), of any lengths')(fr)


@harness('C18', [EX])
def raw_pdu(vc):
    """function RAW: the response to the caller's own PDU"""
    fc = vc.int('fc', 1, 127)
    raw = vc.flag('raw')
    resp = response(vc, fc, lambda r: [r.randrange(256) for _ in range(4)])
    pdu = vc.tobytes(vc.cat([fc], vc.bytes('body', lo=0, hi=None if vc.sym else 20, reps=(0, 3))))
    r, mb = call(vc, resp, 0, 0, pdu=pdu, data_format='>HH', returns_raw=raw)
    n = vc.len(resp)
    if bool(n < 2):
        vc.ensure('a response without function code and data raises', not r.ok, r)
    elif bool(vc.at(resp, 0) == fc + 128):
        vc.ensure('an exception reply raises a Modbus error', r.raised(mb.ModbusError), r)
        vc.ensure('the error carries the exception code of the slave', r.exc.get_exception_code() == vc.at(resp, 1), r)
    elif bool(vc.at(resp, 0) == fc):
        vc.cover('matching function')
        if raw:
            vc.ensure('raw data is returned', r.ok, r)
            vc.ensure_eq('raw data is what follows the function code', r.value, vc.sub(resp, 1, n - 1))
        elif bool(n != 5):
            vc.ensure('a response of another length raises', not r.ok, r)
        else:
            vc.ensure('a proper response is decoded', r.ok, r)
            vc.ensure_eq('the data are decoded with the given format', r.value, vc.mktuple([w16(vc, resp, 1), w16(vc, resp, 3)]))


@harness('C18', [EX], sym=False)
def successive(vc):
    """several calls of the same master"""
    vc.successive((read_bits, read_registers, read_formatted, writes, others, FILE_RECORDS[0], raw_pdu))
