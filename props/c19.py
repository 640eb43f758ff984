"""C19: a real master against a real slave; framing by its contract (C02, C03, C13), everything real in the concrete harness."""
from vc.harness import harness
from vc import core
from .common import (Memory, make_slave, words_payload, content_after, vmin, crc_patches, COILS, DISCRETE_INPUTS, HOLDING_REGISTERS, ANALOG_INPUTS)
from .c05 import bit_byte, payload
from .c06 import read_hints
from .master import make_master, coil_byte, packed_coils, word_bytes

EX = 'modbus.Master.execute'
HR = 'modbus.Slave.handle_request'


class Pair(object):
    """a master talking to a slave with this memory"""
    def __init__(self, vc, w, mem, unsigned):
        self.vc = vc
        vc.trust('RTU and TCP framing carry the PDUs unchanged (C02, C03, C13)')
        self.slave = make_slave(vc, w, mem, unsigned)
        self.replies = []
        self.master, self.link = make_master(vc, w, answer=self.answer)

    def answer(self, pdu):
        r = self.vc.call(self.slave.handle_request, pdu)
        self.vc.ensure('the slave answers a legal request', r.ok and self.vc.is_bytes(r.value), r)
        self.replies.append(r.value)
        return r.value

    def execute(self, *a, **k):
        return self.vc.call(self.master.execute, 1, *a, **k)

    def check_length(self):
        vc = self.vc
        vc.ensure('one request, one reply', len(self.replies) == len(self.link.expected), lambda: '%d replies' % len(self.replies))
        for e, p in zip(self.link.expected, self.replies):
            vc.ensure('the expected length is the length of the RTU frame of the normal reply', e == vc.len(p) + 3)


def reg_word(vc, v):
    return vc.ite(v < 0, v + 65536, v)


def bits_hints(vc, ct, off, q, want):
    if not vc.conc:
        h = vc.hints
        h.streams.append((payload(vc, ct, off, q, (q + 7) // 8), [('k//8', lambda k: k // 8), ('k', lambda k: k), ('k+1', lambda k: k + 1)]))
        h.ints.append(lambda k: bit_byte(vc, ct, off, k // 8, k))
        h.ints.append(lambda k: bit_byte(vc, ct, off, k, q))
        h.contents.append(lambda entry, k: vc.cat(entry, vc.fn(vmin(vc, 8 * k, q), want)))


@harness('C19', [EX, HR, 'modbus.Slave._read_digital'], weight=2)
def read_bits(vc):
    w = vc.world()
    fc = vc.pick('function', (1, 2))
    kind = COILS if fc == 1 else DISCRETE_INPUTS
    unsigned = vc.pick('unsigned', (True, False))
    mem = Memory(vc, w, focus=(kind,))
    p = Pair(vc, w, mem, unsigned)
    start, q = mem.range(kind, 'quantity', 'start', 1, 2000, reps=(1, 7, 8, 9, 17))
    blk, off, ct = mem.containing(kind, start, q)
    want = lambda i: vc.ite(vc.at(ct, off + i) != 0, 1, 0)
    bits_hints(vc, ct, off, q, want)
    r = p.execute(fc, start, q)
    vc.cover('read')
    vc.ensure('the read succeeds', r.ok, r)
    p.check_length()
    vc.ensure_eq('the read returns what the memory holds', r.value, vc.fn(q, want))


@harness('C19', [EX, HR, 'modbus.Slave._read_registers'], weight=2)
def read_registers(vc):
    w = vc.world()
    fc = vc.pick('function', (3, 4))
    kind = HOLDING_REGISTERS if fc == 3 else ANALOG_INPUTS
    unsigned = vc.pick('unsigned', (True, False))
    mem = Memory(vc, w, focus=(kind,), values={kind: ('bv', 16, not unsigned)})
    p = Pair(vc, w, mem, unsigned)
    start, q = mem.range(kind, 'quantity', 'start', 1, 125, reps=(1, 2, 3))
    blk, off, ct = mem.containing(kind, start, q)
    read_hints(vc, ct, off, q)
    r = p.execute(fc, start, q)
    vc.cover('read')
    vc.ensure('the read succeeds', r.ok, r)
    p.check_length()
    vc.ensure_eq('the read returns what the memory holds', r.value, vc.fn(q, lambda i: reg_word(vc, vc.at(ct, off + i))))


@harness('C19', [EX, HR, 'modbus.Slave._write_single_coil', 'modbus.Slave._write_single_register', 'modbus.Slave._mask_write_register'], weight=2)
def single(vc):
    """write one item, then read it"""
    w = vc.world()
    fc = vc.pick('function', (5, 6, 22))
    kind = COILS if fc == 5 else HOLDING_REGISTERS
    unsigned = vc.pick('unsigned', (True, False))
    mem = Memory(vc, w, focus=(kind,), values={kind: (0, 1) if fc == 5 else ('bv', 16, not unsigned)})
    p = Pair(vc, w, mem, unsigned)
    addr, _ = mem.range(kind, None, 'address', 1, 1)
    blk, off, ct = mem.containing(kind, addr, 1)
    old = reg_word(vc, vc.at(ct, off))
    if fc == 22:
        x, y = vc.int('and', 0, 65535, bv=16), vc.int('or', 0, 65535, bv=16)
        r = p.execute(22, addr, and_mask=x, or_mask=y)
        fields, value = [addr, x, y], (old & x) | (y & (x ^ 0xffff))
    elif fc == 5:
        v = vc.int('value', -2 if vc.conc else None, 70000 if vc.conc else None)
        r = p.execute(5, addr, output_value=v)
        fields, value = [addr, vc.ite(v != 0, 0xff00, 0)], vc.ite(v != 0, 1, 0)
    else:
        v = vc.int('value', -32768, 65535, near=(-1, 0, 32767, 32768))
        r = p.execute(6, addr, output_value=v)
        value = reg_word(vc, v)
        fields = [addr, value]
    vc.cover('written')
    vc.ensure('the write succeeds', r.ok, r)
    vc.ensure_eq('the write returns the echo of what was stored', r.value, vc.mktuple(fields))
    p.check_length()
    r2 = p.execute(1 if fc == 5 else 3, addr, 1)
    vc.ensure('the read succeeds', r2.ok, r2)
    p.check_length()
    vc.ensure_eq('the read returns what was written', r2.value, vc.mktuple([value]))


@harness('C19', [EX, HR, 'modbus.Slave._write_multiple_coils', 'modbus.Slave._read_digital'], weight=4)
def many_coils(vc):
    w = vc.world()
    unsigned = vc.pick('unsigned', (True, False))
    mem = Memory(vc, w, focus=(COILS,))
    p = Pair(vc, w, mem, unsigned)
    start, q = mem.range(COILS, 'quantity', 'start', 1, 1968, reps=(1, 7, 8, 9, 17))
    blk, off, ct = mem.containing(COILS, start, q)
    vals = vc.ints('values', q, 0, None if vc.sym else 2)
    item = lambda i: vc.ite(vc.at(vals, i) > 0, 1, 0)
    if not vc.conc:
        h = vc.hints
        h.ints.append(lambda k: coil_byte(vc, vals, q, k // 8, k % 8))
        h.streams.append((packed_coils(vc, vals, q), [('k//8', lambda k: k // 8)]))
        h.contents.append(lambda entry, k: content_after(vc, entry, off, vmin(vc, 8 * k, q), item))
        h.contents.append(lambda entry, k: content_after(vc, entry, off, k, item))
        h.ints.append(lambda k: vmin(vc, 8 * k, q))
    r = p.execute(15, start, output_value=vals)
    vc.cover('written')
    vc.ensure('the write succeeds', r.ok, r)
    vc.ensure_eq('the write returns the echo of what was stored', r.value, vc.mktuple([start, q]))
    p.check_length()
    vc.forall('the coils written are stored', q, lambda i: blk[off + i] == item(i))
    if not vc.conc:
        h.streams.append((packed_coils(vc, vals, q), [('k', lambda k: k), ('k+1', lambda k: k + 1)]))
        h.contents.append(lambda entry, k: vc.cat(entry, vc.fn(vmin(vc, 8 * k, q), item)))
    r2 = p.execute(1, start, q)
    vc.ensure('the read succeeds', r2.ok, r2)
    p.check_length()
    vc.ensure_eq('the read returns what was written', r2.value, vc.fn(q, item))


@harness('C19', [EX, HR, 'modbus.Slave._write_multiple_registers', 'modbus.Slave._read_registers'], weight=4)
def many_registers(vc):
    w = vc.world()
    unsigned = vc.pick('unsigned', (True, False))
    mem = Memory(vc, w, focus=(HOLDING_REGISTERS,), values={HOLDING_REGISTERS: ('bv', 16, not unsigned)})
    p = Pair(vc, w, mem, unsigned)
    start, q = mem.range(HOLDING_REGISTERS, 'quantity', 'start', 1, 123, reps=(1, 2, 3))
    blk, off, ct = mem.containing(HOLDING_REGISTERS, start, q)
    vals = vc.ints('values', q, -32768, 65535)
    word = lambda i: reg_word(vc, vc.at(vals, i))
    item = lambda i: word(i) if unsigned else vc.ite(word(i) >= 32768, word(i) - 65536, word(i))
    pay = word_bytes(vc, lambda i: vc.at(vals, i), q)
    if not vc.conc:
        vc.hints.streams.append((pay, [('2k', lambda k: 2 * k)]))
        vc.hints.contents.append(lambda entry, k: content_after(vc, entry, off, k, item))
    r = p.execute(16, start, output_value=vals)
    vc.cover('written')
    vc.ensure('the write succeeds', r.ok, r)
    vc.ensure_eq('the write returns the echo of what was stored', r.value, vc.mktuple([start, q]))
    p.check_length()
    vc.forall('the words written are stored', q, lambda i: blk[off + i] == item(i))
    r2 = p.execute(3, start, q)
    vc.ensure('the read succeeds', r2.ok, r2)
    p.check_length()
    vc.ensure_eq('the read returns what was written', r2.value, vc.fn(q, word))


@harness('C19', [EX, HR, 'modbus.Slave._read_write_multiple_registers'], weight=4)
def read_write(vc):
    w = vc.world()
    unsigned = vc.pick('unsigned', (True, False))
    mem = Memory(vc, w, focus=(HOLDING_REGISTERS,), values={HOLDING_REGISTERS: ('bv', 16, not unsigned)})
    p = Pair(vc, w, mem, unsigned)
    rs, rq = mem.range(HOLDING_REGISTERS, 'read_quantity', 'read_start', 1, 125, reps=(1, 2))
    ws, wq = mem.range(HOLDING_REGISTERS, 'write_quantity', 'write_start', 1, 123, reps=(1, 2))
    rblk, roff, rct = mem.containing(HOLDING_REGISTERS, rs, rq)
    wblk, woff, wct = mem.containing(HOLDING_REGISTERS, ws, wq)
    vals = vc.ints('values', wq, -32768, 65535)
    word = lambda i: reg_word(vc, vc.at(vals, i))
    item = lambda i: word(i) if unsigned else vc.ite(word(i) >= 32768, word(i) - 65536, word(i))
    read_hints(vc, rct, roff, rq)
    if not vc.conc:
        vc.hints.streams.append((word_bytes(vc, lambda i: vc.at(vals, i), wq), [('2k', lambda k: 2 * k)]))
        vc.hints.contents.append(lambda entry, k: content_after(vc, entry, woff, k, item))
    r = p.execute(23, rs, rq, output_value=vals, write_starting_address_fc23=ws)
    vc.cover('done')
    vc.ensure('the call succeeds', r.ok, r)
    p.check_length()
    vc.aside(lambda: vc.ensure_eq('the call returns what the memory held', r.value, vc.fn(rq, lambda i: reg_word(vc, vc.at(rct, roff + i)))))
    vc.forall('the words written are stored', wq, lambda i: wblk[woff + i] == item(i))


@harness('C19', [EX, HR, 'modbus.Slave._read_exception_status'])
def exception_status(vc):
    w = vc.world()
    mem = Memory(vc, w, focus=())
    p = Pair(vc, w, mem, vc.pick('unsigned', (True, False)))
    r = p.execute(7, 0)
    vc.cover('read')
    vc.ensure('the call succeeds', r.ok, r)
    vc.ensure_eq('the call returns the status the slave sent', r.value, vc.mktuple([vc.at(p.replies[0], 1)]))
    p.check_length()


def expects(vc, fc, start, want, **k):
    """what the master waits for: that many bytes; as many as the caller says when the caller says so"""
    w = vc.world()
    m, link = make_master(vc, w)
    own = vc.flag('the caller gives a length')
    if own:
        want = k['expected_length'] = vc.int('expected_length', 0, 70000)
    vc.call(m.execute, 1, fc, start, **k)
    vc.cover('asked')
    vc.ensure('one request, one reply', len(link.sent) == 1 and len(link.expected) == 1, lambda: '%d requests, %d replies' % (len(link.sent), len(link.expected)))
    if own:
        vc.ensure('the length the caller gives is expected', link.expected[0] == want)
    else:
        vc.ensure('the expected length is the length of the RTU frame of the normal reply', link.expected[0] == want)


@harness('C19', [EX], within='1 to 8 groups (thorough: 36), of any lengths')
def file_record_length(vc):
    """a file record call: the slave of the library does not support it, its normal reply is that of the protocol"""
    n = vc.pick('groups', range(1, 37) if vc.tier != 'quick' else (1, 2, 3, 5, 8))
    q = [vc.int('length%d' % k, 1, 65535, near=(1, 2, 60)) for k in range(n)]
    total = 0
    for x in q:
        total = total + 2 + 2 * x               # length, reference type, words
    expects(vc, 20, vc.mktuple([1] * n), 1 + 2 + total + 2, quantity_of_x=vc.mktuple(q), number_file=vc.mktuple([4] * n))


@harness('C19', [EX])
def diagnostic_length(vc):
    """a diagnostics call with data: the normal reply repeats the sub-function and as many data"""
    n = vc.size('n', 1, None if vc.sym else 260, reps=(1, 2))
    data = vc.ints('data', n, 0, 255)
    if not vc.conc:
        vc.hints.streams.append((data.s, [('k', lambda k: k)]))
    expects(vc, 8, vc.int('subfunction', 0, 65535), 1 + 1 + 2 + n + 2, output_value=data)


@harness('C19', [EX])
def given_length(vc):
    """the caller gives the length it expects: for every function"""
    fc = vc.pick('function', (1, 2, 3, 4, 5, 6, 7, 15, 16, 22, 23, 43, 'raw'))
    k = {15: dict(output_value=[1, 0]), 16: dict(output_value=[5]), 23: dict(output_value=[5], quantity_of_x=1), 22: dict(and_mask=1, or_mask=2),
         43: dict(output_value=[1, 0]), 'raw': dict(pdu=b'\x41')}.get(fc, dict(quantity_of_x=1))
    w = vc.world()
    m, link = make_master(vc, w)
    want = vc.int('expected_length', 0, 70000)
    vc.call(m.execute, 1, w.defines.RAW if fc == 'raw' else fc, 0, expected_length=want, **k)
    vc.cover('asked')
    vc.ensure('one request, one reply', len(link.sent) == 1 and len(link.expected) == 1, lambda: '%d requests, %d replies' % (len(link.sent), len(link.expected)))
    vc.ensure('the length the caller gives is expected', link.expected[0] == want)


@harness('C19', [EX, HR], sym=False)
def over_the_wire(vc):
    """sequences of calls over real RTU and TCP frames to a databank, against a plain model of the memory"""
    w = vc.world()
    proto = vc.pick('framing', ('rtu', 'tcp'))
    mod = w.modbus_rtu if proto == 'rtu' else w.modbus_tcp
    query = (lambda: w.modbus_rtu.RtuQuery()) if proto == 'rtu' else (lambda: w.modbus_tcp.TcpQuery())
    db = w.modbus.Databank()
    unsigned = vc.flag('unsigned')
    unit = vc.pick('unit', (1, 2, 255))
    s = db.add_slave(unit, unsigned)
    if unit != 1:
        db.add_slave(1, unsigned).add_block('x', HOLDING_REGISTERS, 0, 100)
    size = vc.pick('size', (200, 2500))
    base = vc.pick('base', (0, 7, 63000))
    model = {}
    for kind in (1, 2, 3, 4):
        s.add_block('b%d' % kind, kind, base, size)
        init = vc.given('init%d' % kind, lambda r: [r.randrange(2) if kind < 3 else r.randrange(32768) for _ in range(size)])
        s.set_values('b%d' % kind, base, list(init))
        model[kind] = [v for v in init]
    state = {}

    class M(w.modbus.Master):
        def _do_open(self): return None
        def _do_close(self): return True
        def _make_query(self): return query()
        def _send(self, frame): state['reply'] = db.handle_request(query(), bytes(frame))

        def _recv(self, n):
            state['n'] = n
            return bytes(state['reply'])
    m = M(1.0)

    def gen(r):
        ops = []
        for _ in range(r.choice((1, 3, 8))):
            f = r.choice((1, 2, 3, 4, 5, 6, 15, 16, 22, 23))
            top = min({1: 2000, 2: 2000, 3: 125, 4: 125, 15: 1968, 16: 123, 23: 125}.get(f, 1), size)
            q = min(top, r.choice((1, 2, 7, 8, 9, 16, top, r.randint(1, top))))
            a = r.choice((0, size - q, r.randrange(size - q + 1)))
            wq = r.choice((1, 2, r.randint(1, 121), 121))
            wa = min(size - wq, r.choice((a, 0, size - wq, r.randrange(size - wq + 1))))
            n = {15: q, 16: q, 23: wq}.get(f, 0)
            vals = [r.randrange(2) if f == 15 else r.choice((0, 1, 255, 256, 32767, 32768, 65535, -1, -32768, r.randint(-32768, 65535))) for _ in range(n)]
            ops.append([f, a, q, wa, vals, r.choice((0, 1, 5, 65535, -32768, -1, r.randint(-32768, 65535))), r.randrange(65536), r.randrange(65536)])
        return ops
    ops = vc.given('ops', gen)
    for f, a, q, wa, vals, v, x, y in ops:
        A = base + a
        # now and then the caller has the registers decoded as signed words
        how = dict(data_format='>' + q * 'h') if f in (3, 4, 23) and x % 4 == 0 else {}
        decoded = lambda t: tuple(e - 65536 if e > 32767 else e for e in t) if how else tuple(t)
        if f in (1, 2, 3, 4):
            kind = {1: 1, 2: 2, 3: 3, 4: 4}[f]
            want = decoded(model[kind][a:a + q])
            r = vc.call(m.execute, unit, f, A, q, **how)
        elif f == 5:
            model[1][a] = 1 if v else 0
            want = (A, 0xff00 if v else 0)
            r = vc.call(m.execute, unit, 5, A, output_value=v)
        elif f == 6:
            model[3][a] = v % 65536
            want = (A, v % 65536)
            r = vc.call(m.execute, unit, 6, A, output_value=v)
        elif f == 22:
            model[3][a] = (model[3][a] & x) | (y & ~x & 0xffff)
            want = (A, x, y)
            r = vc.call(m.execute, unit, 22, A, and_mask=x, or_mask=y)
        elif f == 15:
            model[1][a:a + q] = vals
            want = (A, q)
            r = vc.call(m.execute, unit, 15, A, output_value=vals)
        elif f == 16:
            model[3][a:a + q] = [t % 65536 for t in vals]
            want = (A, q)
            r = vc.call(m.execute, unit, 16, A, output_value=vals)
        else:
            want = decoded(model[3][a:a + q])
            model[3][wa:wa + len(vals)] = [t % 65536 for t in vals]
            r = vc.call(m.execute, unit, 23, A, q, output_value=vals, write_starting_address_fc23=base + wa, **how)
        vc.ensure('the call succeeds', r.ok, lambda: 'function %d at %d quantity %d: %r' % (f, A, q, r))
        vc.ensure('the call returns what the memory holds or the echo of what was stored', r.value == want,
                  lambda: 'function %d at %d quantity %d: %r, expected %r' % (f, A, q, r.value, want))
        if proto == 'rtu':
            vc.ensure('the expected length is the length of the frame', state['n'] == len(state['reply']),
                      lambda: 'function %d: %d, frame has %d' % (f, state['n'], len(state['reply'])))
