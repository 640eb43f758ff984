"""C17: request PDUs of the master."""
import struct as _struct
from vc.harness import harness
from .master import make_master, sends, refuses, u16, packed_coils, coil_byte, word_bytes, plain_reply

EX = 'modbus.Master.execute'


def setup(vc):
    w = vc.world()
    kind = vc.pick('answer', ('none', 'reply', 'reply', 'exception', 'other')) if vc.session is not None else 'none'
    m, link = make_master(vc, w, {'none': None, 'reply': plain_reply, 'exception': lambda pdu: bytes([(pdu[0] if pdu else 0) | 128, 2]), 'other': lambda pdu: b'\x01'}[kind])
    return w, m, link, vc.int('slave', 0, 255)


def anyint(vc, name, near=(0, 1, 65535, 65536)):
    return vc.int(name, -70000 if vc.conc else None, 140000 if vc.conc else None, near=near)


def judge(vc, good, r, link, slave, pdu):
    if good:
        vc.cover('sent')
        sends(vc, r, link, pdu(), slave)
    else:
        vc.cover('refused')
        refuses(vc, r, link)


@harness('C17', [EX])
def reads(vc):
    w, m, link, slave = setup(vc)
    fc = vc.pick('function', (1, 2, 3, 4))
    a, q = anyint(vc, 'start'), anyint(vc, 'quantity', near=(0, 1, 7, 8, 9, 125, 2000, 65535, 65536))
    r = vc.call(m.execute, slave, fc, a, q)
    judge(vc, u16(vc, a) and u16(vc, q), r, link, slave, lambda: vc.cat([fc], vc.word(a), vc.word(q)))


@harness('C17', [EX])
def single_writes(vc):
    w, m, link, slave = setup(vc)
    fc = vc.pick('function', (5, 6))
    a = anyint(vc, 'start')
    v = anyint(vc, 'value', near=(0, 1, -1, -32768, -32769, 65535, 65536, 0xff00))
    r = vc.call(m.execute, slave, fc, a, output_value=v)
    if fc == 5:
        judge(vc, u16(vc, a), r, link, slave, lambda: vc.cat([5], vc.word(a), [vc.ite(v != 0, 0xff, 0), 0]))
    else:
        good = u16(vc, a) and bool(vc.and_(v >= -32768, v <= 65535))
        judge(vc, good, r, link, slave, lambda: vc.cat([6], vc.word(a), vc.word(vc.ite(v < 0, v + 65536, v))))


@harness('C17', [EX])
def mask_write(vc):
    w, m, link, slave = setup(vc)
    a, x, y = anyint(vc, 'start'), anyint(vc, 'and_mask'), anyint(vc, 'or_mask')
    r = vc.call(m.execute, slave, 22, a, and_mask=x, or_mask=y)
    judge(vc, u16(vc, a) and u16(vc, x) and u16(vc, y), r, link, slave, lambda: vc.cat([22], vc.word(a), vc.word(x), vc.word(y)))


@harness('C17', [EX], weight=3)
def coils(vc):
    w, m, link, slave = setup(vc)
    a = anyint(vc, 'start')
    n = vc.size('n', 0, None if vc.sym else 2100, reps=(0, 1, 7, 8, 9, 16, 17))
    vals = vc.ints('values', n, 0, None if vc.sym else 2)
    if not vc.conc:
        h = vc.hints
        h.ints.append(lambda k: coil_byte(vc, vals, n, k // 8, k % 8))
        h.streams.append((packed_coils(vc, vals, n), [('k//8', lambda k: k // 8)]))
    arg = vals if not vc.conc else vc.pick('type', (list, tuple))(vals)
    r = vc.call(m.execute, slave, 15, a, output_value=arg)
    judge(vc, u16(vc, a) and bool(n <= 2040), r, link, slave,
          lambda: vc.cat([15], vc.word(a), vc.word(n), [(n + 7) // 8], packed_coils(vc, vals, n)))


def registers(vc, fc):
    """function 16 or 23 with a list of register values: all encodable, or one (at any place) not"""
    w, m, link, slave = setup(vc)
    a = anyint(vc, 'start')
    n = vc.size('n', 0, None if vc.sym else 140, reps=(0, 1, 2, 3))
    bad = vc.pick('values', ('encodable', 'one is not')) == 'one is not'
    if bad:
        vals = vc.ints('values', n, None if vc.sym else -33000, None if vc.sym else 66000)
        i = vc.int('where', 0, None if vc.sym else 139)
        vc.assume(i < n)
        vc.assume(vc.or_(vc.at(vals, i) < -32768, vc.at(vals, i) > 65535))
    else:
        vals = vc.ints('values', n, -32768, 65535)
    pay = word_bytes(vc, lambda k: vc.at(vals, k), n)
    if not vc.conc:
        vc.hints.streams.append((pay, [('2k', lambda k: 2 * k)]))
        if bad:
            vc.hints.witnesses.append(i)
    arg = vals if not vc.conc else vc.pick('type', (list, tuple))(vals)
    ok = (not bad) and u16(vc, a) and bool(n <= 127)
    if fc == 16:
        r = vc.call(m.execute, slave, 16, a, output_value=arg)
        pdu = lambda: vc.cat([16], vc.word(a), vc.word(n), [2 * n], pay)
    else:
        q, wa = anyint(vc, 'quantity'), anyint(vc, 'write_start')
        ok = ok and u16(vc, q) and u16(vc, wa)
        r = vc.call(m.execute, slave, 23, a, quantity_of_x=q, output_value=arg, write_starting_address_fc23=wa)
        pdu = lambda: vc.cat([23], vc.word(a), vc.word(q), vc.word(wa), vc.word(n), [2 * n], pay)
    judge(vc, ok, r, link, slave, pdu)


@harness('C17', [EX], weight=2)
def write_registers(vc):
    registers(vc, 16)


@harness('C17', [EX], weight=2)
def read_write_registers(vc):
    registers(vc, 23)


FMTS = (('>I', 1), ('>i', 1), ('<I', 1), ('>Hh', 2), ('<HH', 2), ('>q', 1), ('>HI', 2), ('>BBH', 3), ('>hhhh', 4),
        ('>f', 1), ('<f', 1), ('>d', 1), ('!ff', 2), ('>fHH', 3), ('>he', 2), ('=Hi', 2), ('>2H', 2), ('>B?h', 3), ('<2fH', 3), ('>HxxI', 2))
SIZES = {'B': 1, '?': 1, 'x': 1, 'H': 2, 'h': 2, 'I': 4, 'i': 4, 'q': 8, 'e': 2, 'f': 4, 'd': 8}


@harness('C17', [EX])
def write_formatted(vc):
    """registers given with a data format: the packed values are the register contents"""
    w, m, link, slave = setup(vc)
    a = anyint(vc, 'start')
    fmt, n = vc.pick('format', FMTS)
    little = fmt[0] in '<='
    codes = fmt[1:].replace('2H', 'HH').replace('2f', 'ff')
    vals = [vc.floating('v%d' % k, c) if c in 'efd' else vc.flag('v%d' % k) if c == '?' else anyint(vc, 'v%d' % k, near=(0, 65535, 65536, -1, 127, 128, -32768, 1 << 31))
            for k, c in enumerate(codes.replace('x', ''))]
    want, ok = [], True
    left = list(vals)
    for code in codes:
        sz = SIZES[code]
        v = 0 if code == 'x' else left.pop(0)
        if code in 'efd':
            bs = vc.float_bytes(v, code)
            want += bs[::-1] if little else bs
            continue
        if code == '?':
            v = int(v)
        lo, hi = (-(1 << (8 * sz - 1)), (1 << (8 * sz - 1)) - 1) if code in 'hiq' else (0, (1 << 8 * sz) - 1)
        if not bool(vc.and_(v >= lo, v <= hi)):
            ok = False
            break
        v = vc.ite(v < 0, v + (1 << (8 * sz)), v)
        bs = [(v // (1 << (8 * j))) % 256 for j in range(sz)]
        want += bs if little else bs[::-1]
    r = vc.call(m.execute, slave, 16, a, output_value=vc.mklist(vals), data_format=fmt)
    judge(vc, ok and u16(vc, a), r, link, slave, lambda: vc.cat([16], vc.word(a), vc.word(len(want) // 2), [len(want)], want))


@harness('C17', [EX], sym=False)
def write_floats(vc):
    w, m, link, slave = setup(vc)
    a = vc.int('start', 0, 65535)
    fmt = vc.pick('format', ('>f', '>ff', '>d', '<f', '>fHH', '>H' * 1))
    n = sum(1 for c in fmt[1:])
    vals = vc.given('values', lambda r: [r.choice((0, 1, 3, 100, r.randrange(60000))) for _ in range(n)])
    r = vc.call(m.execute, slave, 16, a, output_value=list(vals), data_format=fmt)
    data = _struct.pack(fmt, *vals)
    judge(vc, True, r, link, slave, lambda: vc.cat([16], vc.word(a), vc.word(len(data) // 2), [len(data)], list(data)))


@harness('C17', [EX])
def others(vc):
    """read exception status, diagnostics, device information, raw, and functions that are not supported"""
    w, m, link, slave = setup(vc)
    what = vc.pick('function', ('status', 'diagnostic', 'device', 'raw', 'unsupported'))
    if what == 'status':
        r = vc.call(m.execute, slave, 7, 0)
        judge(vc, True, r, link, slave, lambda: [7])
    elif what == 'diagnostic':
        a = anyint(vc, 'subfunction')
        n = vc.size('n', 0, None if vc.sym else 260, reps=(0, 1, 2))
        bad = vc.flag('one value is no byte')
        data = vc.ints('data', n, None if bad and vc.sym else -2 if bad else 0, None if bad and vc.sym else 300 if bad else 255)
        if bad:
            i = vc.int('where', 0, None if vc.sym else 259)
            vc.assume(i < n)
            vc.assume(vc.or_(vc.at(data, i) < 0, vc.at(data, i) > 255))
        if not vc.conc:
            vc.hints.streams.append((data.s, [('k', lambda k: k)]))
            if bad:
                vc.hints.witnesses.append(i)
        r = vc.call(m.execute, slave, 8, a, output_value=data)
        judge(vc, u16(vc, a) and not bad, r, link, slave, lambda: vc.cat([8], vc.word(a), data))
    elif what == 'device':
        x, y = anyint(vc, 'code', near=(0, 1, 4, 255, 256)), anyint(vc, 'object', near=(0, 1, 255, 256))
        r = vc.call(m.execute, slave, 43, 0, output_value=vc.mklist([x, y]))
        judge(vc, bool(vc.and_(x >= 0, x <= 255, y >= 0, y <= 255)), r, link, slave, lambda: [43, 14, x, y])
    elif what == 'raw':
        pdu = vc.bytes('pdu', lo=0, reps=(0, 1, 5))
        r = vc.call(m.execute, slave, 0, 0, pdu=pdu)
        judge(vc, True, r, link, slave, lambda: pdu)
    else:
        fc = anyint(vc, 'function code', near=(-1, 0, 9, 17, 21, 43, 128, 255))
        vc.assume(vc.and_(*[fc != k for k in (0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 20, 22, 23, 43)]))
        r = vc.call(m.execute, slave, fc, vc.int('start', 0, 65535), vc.int('quantity', 0, 65535), output_value=vc.mklist([1, 2]))
        vc.cover('unsupported')
        refuses(vc, r, link)


@harness('C17', [EX], weight=2)
def file_record(vc):
    """1 to 36 groups (more do not fit the byte count): file, record and length of every group"""
    w, m, link, slave = setup(vc)
    n = vc.pick('groups', range(1, 37))
    if vc.sym and n <= 2 or vc.conc and n < 4:
        draw = lambda nm, lo: anyint(vc, nm)                            # any integer
    else:
        draw = lambda nm, lo: vc.int(nm, lo, 65535)
    g = [[draw('%s%d' % (nm, k), lo) for k in range(n)] for nm, lo in (('file', 0), ('record', 0), ('length', 1))]
    if n > 2 and vc.pick('values', ('encodable', 'one is not')) == 'one is not':
        x = anyint(vc, 'fault')
        vc.assume(vc.or_(x < 0, x > 65535))
        g[vc.pick('column', range(3))][vc.pick('place', range(n))] = x
    r = vc.call(m.execute, slave, 20, vc.mktuple(g[1]), vc.mktuple(g[2]), number_file=vc.mktuple(g[0]))
    ok = all(u16(vc, l[k]) for k in range(n) for l in g)
    judge(vc, ok, r, link, slave, lambda: vc.cat([20, 7 * n], *[vc.cat([6], vc.word(g[0][k]), vc.word(g[1][k]), vc.word(g[2][k])) for k in range(n)]))


@harness('C17', [EX])
def file_record_refused(vc):
    """numbers of groups that cannot be encoded, and lists of groups of different lengths"""
    w, m, link, slave = setup(vc)
    fault = vc.pick('fault', ('too many', 'mismatch', 'no files given'))
    if fault == 'too many':
        n = vc.size('n', 37, None if vc.sym else 60, reps=(37, 40))
        k = [n, n, n]
    else:
        k = [vc.size('n%d' % j, 0, None if vc.sym else 8, reps=(0, 1, 2)) for j in range(3)]
        vc.assume(vc.not_(vc.and_(k[0] == k[1], k[1] == k[2], k[0] > 0)) if fault == 'mismatch' else k[2] == 0)
    a = [vc.ints('l%d' % j, k[j], 0, 65535) for j in range(3)]
    files = {} if fault == 'no files given' else {'number_file': vc.mktuple(a[2])}
    r = vc.call(m.execute, slave, 20, vc.mktuple(a[0]), vc.mktuple(a[1]), **files)
    vc.cover('refused')
    refuses(vc, r, link)


@harness('C17', [EX])
def file_record_left_out(vc):
    """the file numbers are left out of the second call: those of the first are not used for it"""
    w, m, link, slave = setup(vc)
    n = vc.pick('groups', (1, 2, 3))
    g = [[vc.int('%s%d' % (nm, k), 0, 65535) for k in range(n)] for nm in ('file', 'record', 'length')]
    r = vc.call(m.execute, slave, 20, vc.mktuple(g[1]), vc.mktuple(g[2]), number_file=vc.mktuple(g[0]))
    vc.cover('first')
    judge(vc, True, r, link, slave, lambda: vc.cat([20, 7 * n], *[vc.cat([6], vc.word(g[0][k]), vc.word(g[1][k]), vc.word(g[2][k])) for k in range(n)]))
    if vc.flag('another master'):
        m, link = make_master(vc, w)
    else:
        for l in (link.pdus, link.sent, link.expected, link.units):
            del l[:]
    n = vc.pick('groups of the second call', (1, 2, 3))
    g = [[vc.int('%s2%d' % (nm, k), 0, 65535) for k in range(n)] for nm in ('record', 'length')]
    r = vc.call(m.execute, slave, 20, vc.mktuple(g[0]), vc.mktuple(g[1]))
    refuses(vc, r, link)


@harness('C17', [EX], sym=False)
def successive(vc):
    """several calls of the same master, answered or not"""
    vc.successive((reads, single_writes, mask_write, coils, write_registers, read_write_registers, write_formatted, others, file_record, file_record, file_record_refused))
