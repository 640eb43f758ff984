"""C24: one step of the RTU server."""
import struct
from vc.harness import harness
from .net import Stream, Port, Bank, read_hints, excs, LinkError
from .c20 import reply_for

RUN = 'modbus_rtu.RtuServer._do_run'


class Rtu(object):
    def __init__(self, vc, stream, answer):
        self.vc = vc
        self.port = Port(vc, stream=stream)
        self.w = vc.world()
        vc.trust('pyserial: write() transmits everything or raises; read() returns what arrived, nothing when the line is silent for the timeout')
        self.bank = Bank(vc, answer)
        self.srv = self.w.modbus_rtu.RtuServer(self.port, databank=self.bank)
        vc.need(self.srv, '_do_run')
        self.srv._do_init()
        self.timeout = self.port.timeout
        vc.ensure('a RTU server has a read timeout', self.timeout is not None and self.timeout == self.srv.get_timeout())
        self.port._vc_onread = self.on_read
        self.began = False

    def on_read(self, p, k):
        """waiting without a time limit is for the first byte of a burst only"""
        if p.timeout is None:
            self.vc.ensure('only the first byte of a burst is awaited without a time limit', k == 1 and not self.began)
        self.began = True

    def step(self):
        self.began = False
        return self.vc.call(self.srv._do_run)

    def restored(self, r, label):
        vc = self.vc
        vc.ensure('%s: the server goes on' % label, r.ok, r)
        vc.ensure('%s: the read timeout of the port is the one of the server' % label, self.port.timeout is self.timeout or self.port.timeout == self.timeout,
                  lambda: 'timeout %r' % (self.port.timeout,))

    def serves_again(self, label):
        """a new burst is handled and answered"""
        vc, p = self.vc, self.port
        p._vc_fail = {}
        p._vc_waiting = 0
        s = p.stream
        s._vc_data, s._vc_n, s._vc_end = vc.mkbytes([1, 2, 3]), 3, 'eof'
        s.pos = s.empties = 0
        self.bank.requests = []
        self.bank.answer = lambda k, q: vc.mkbytes([7, 8])
        p.sent = vc.mkbytes([])
        for n in range(3):
            self.restored(self.step(), label)
            if self.bank.requests:
                break
        vc.ensure('%s: the next burst is handled' % label, len(self.bank.requests) == 1)
        vc.ensure_eq('%s: the next burst is the request' % label, self.bank.requests[0], [1, 2, 3])
        vc.ensure_eq('%s: the next burst is answered' % label, p.sent, [7, 8])


@harness('C24', [RUN], weight=3)
def burst(vc):
    """one burst of bytes in any pieces"""
    started = vc.pick('started', (True, False))
    data = vc.bytes('burst', lo=0, hi=None if vc.sym else 400, reps=(0, 1, 2, 5))
    kind = vc.pick('outcome', ('reply', 'nothing', 'error'))
    reply = reply_for(vc, kind)
    waiting = vc.size('in_waiting', 0, 300, reps=(0, 1)) if kind == 'reply' else 0

    def answer(k, q):
        if kind == 'error':
            raise LinkError('handling failed')
        return reply
    s = Stream(vc, 'port', data)
    x = Rtu(vc, s, answer)
    if started:
        x.srv.start()
    x.port._vc_waiting = waiting
    read_hints(vc, s)
    r = x.step()
    x.restored(r, 'after a burst')
    if bool(s.n == 0):
        vc.cover('silence')
        vc.ensure('no request, nothing handled', len(x.bank.requests) == 0)
        vc.ensure_eq('no request, no answer', x.port.sent, [])
        return
    vc.ensure('the whole burst is taken', s.pos == s.n)
    vc.ensure('a burst is handled exactly once', len(x.bank.requests) == 1, lambda: '%d handled' % len(x.bank.requests))
    vc.ensure_eq('the whole burst is one request', x.bank.requests[0], data)
    if kind == 'reply' and bool(waiting == 0):
        vc.cover('answered')
        vc.ensure('the reply is sent once', len(x.port.out) == 1, lambda: '%d sent' % len(x.port.out))
        vc.ensure_eq('the reply is sent as it is', x.port.sent, reply)
    else:
        vc.ensure('nothing is sent', len(x.port.out) == 0)
    if kind == 'error':
        x.serves_again('after a failed request')


@harness('C24', [RUN], weight=2)
def burst_again(vc):
    """the same burst a second time, or another one, with the same answer or another one, or none"""
    started = vc.pick('started', (True, False))
    first = vc.bytes('first', n=4)
    second = first if vc.pick('second', ('the same', 'another')) == 'the same' else vc.bytes('another', n=5)
    busy = vc.pick('busy', ('neither', 'first', 'second'))
    kind = vc.pick('outcome', ('the same', 'reply', 'nothing', 'error'))
    replies = [reply_for(vc, 'reply')]
    replies.append(replies[0] if kind == 'the same' else vc.bytes('second.reply', lo=1, hi=None if vc.sym else 300, reps=(1, 2)) if kind == 'reply' else None)

    def answer(k, q):
        if k == 1 and kind == 'error':
            raise LinkError('handling failed')
        return replies[k] if k < 2 else None
    s = Stream(vc, 'port', first)
    x = Rtu(vc, s, answer)
    if started:
        x.srv.start()
    read_hints(vc, s)
    for k, data in enumerate((first, second)):
        s._vc_data, s._vc_n = data, vc.len(data)
        s.pos = s.empties = 0
        x.port.sent = vc.mkbytes([])
        x.port._vc_waiting = 1 if busy == ('first', 'second')[k] else 0
        r = x.step()
        x.restored(r, 'after burst %d' % (k + 1))
        vc.ensure('a burst is handled exactly once', len(x.bank.requests) == k + 1, lambda: '%d handled' % len(x.bank.requests))
        vc.ensure_eq('the whole burst is one request', x.bank.requests[k], data)
        if replies[k] is not None and not x.port._vc_waiting:
            vc.cover('answered')
            vc.ensure_eq('the reply is sent as it is', x.port.sent, replies[k])
        else:
            vc.ensure_eq('nothing is sent', x.port.sent, [])


@harness('C24', [RUN], weight=3)
def read_error(vc):
    """reading fails after any number of bytes; reopening the port works or fails"""
    started = vc.pick('started', (True, False))
    reopen = vc.pick('reopening', ('works', 'close fails', 'open fails'))
    data = vc.bytes('burst', lo=0, hi=None if vc.sym else 400, reps=(0, 1, 2, 5))
    s = Stream(vc, 'port', data, 'oserror')
    reply = vc.bytes('reply', lo=1, hi=None if vc.sym else 300, reps=(1, 2))
    x = Rtu(vc, s, lambda k, q: reply)
    if started:
        x.srv.start()
    if reopen != 'works':
        x.port._vc_fail[reopen.split()[0]] = excs('oserror')
    read_hints(vc, s)
    r = x.step()
    vc.cover('read error')
    x.restored(r, 'after a read error')
    vc.ensure('a damaged burst is handled at most once', len(x.bank.requests) <= 1)
    if x.bank.requests:
        vc.ensure_eq('what is handled is what was received', x.bank.requests[0], data)
    vc.ensure('at most one reply', len(x.port.out) <= len(x.bank.requests))
    x.serves_again('after a read error')


@harness('C24', [RUN])
def write_error(vc):
    """answering fails at any operation"""
    op = vc.pick('operation', ('in_waiting', 'write', 'flush'))
    started = vc.pick('started', (True, False))
    data = vc.bytes('burst', lo=1, hi=None if vc.sym else 400, reps=(1, 2, 5))
    s = Stream(vc, 'port', data)
    x = Rtu(vc, s, lambda k, q: vc.mkbytes([7, 8]))
    if started:
        x.srv.start()
    x.port._vc_fail[op] = excs('oserror')
    read_hints(vc, s)
    r = x.step()
    x.restored(r, 'after a failed answer')
    x.serves_again('after a failed answer')


@harness('C24', [RUN, 'modbus.Databank.handle_request', 'modbus_rtu.RtuQuery.parse_request', 'modbus_rtu.RtuQuery.build_response'], sym=False)
def line(vc):
    """many bursts on one line, real databank and slaves"""
    s = Stream(vc, 'port', b'')
    port = Port(vc, stream=s)
    w = vc.world()
    srv = w.modbus_rtu.RtuServer(port)
    crc = lambda b: b + struct.pack('>H', w.utils.calculate_crc(b))
    for u in (1, 2):
        sl = srv.add_slave(u)
        sl.add_block('b', 3, 0, 60)
        sl.set_values('b', 0, [u * 1000 + k for k in range(60)])
    mem = {1: [1000 + k for k in range(60)], 2: [2000 + k for k in range(60)]}
    srv._do_init()
    if vc.pick('started', (True, False)):
        srv.start()
    for b in range(vc.int('bursts', 1, 6)):
        unit = vc.pick('unit', (1, 2, 7, 0))
        port.sent = b''
        port._vc_waiting = 0
        if vc.pick('function', (3, 6)) == 3:
            start, q = vc.int('start', 0, 50), vc.int('quantity', 1, 10)
            req = struct.pack('>BBHH', unit, 3, start, q)
            if start + q <= 60:
                rep = struct.pack('>BBB%dH' % q, unit, 3, 2 * q, *(mem.get(unit) or [0] * 60)[start:start + q])
            else:
                rep = bytes([unit, 0x83, 2])
            upd = lambda: None
        else:
            start, v = vc.int('start', 0, 59), vc.int('value', 0, 65535)
            req = struct.pack('>BBHH', unit, 6, start, v)
            rep = req

            def upd():
                for u in mem:
                    if unit in (0, u):
                        mem[u][start] = v
        f = crc(req)
        how = vc.pick('frame', ('good', 'good', 'damaged', 'cut', 'glued', 'busy', 'read error'))
        want = crc(rep)
        if how == 'damaged':
            k, bit = vc.int('at', 0, len(f) - 1), vc.int('bit', 0, 7)
            f = f[:k] + bytes([f[k] ^ (1 << bit)]) + f[k + 1:]
        elif how == 'cut':
            f = f[:vc.int('cut', 1, len(f) - 1)]
        elif how == 'glued':
            f = f + f[:vc.int('more', 1, len(f))]
        elif how == 'busy':
            port._vc_waiting = vc.int('waiting', 1, 9)
        if how in ('cut', 'glued') and len(f) > 2 and crc(f[:-2]) == f:     # a good frame by chance: the checksum cannot tell
            f = f + b'\xff\xff'
        s._vc_data, s._vc_n, s.pos, s.empties = f, len(f), 0, 0
        s._vc_end = 'eof'
        if how == 'read error':
            s._vc_n = vc.int('cut', 0, len(f) - 1)
            if s._vc_n > 2 and crc(f[:s._vc_n - 2]) == f[:s._vc_n]:
                s._vc_n = 0
            s._vc_data = f[:s._vc_n]
            s._vc_end = 'oserror'
        r = vc.call(srv._do_run)
        vc.ensure('the server goes on', r.ok, r)
        vc.ensure('the read timeout is restored', port.timeout == srv.get_timeout())
        if how in ('good', 'busy'):
            upd()
        expect = want if how == 'good' and unit in (1, 2) else b''
        vc.ensure_eq('the reply of the addressed slave, once, or silence', port.sent, expect)
    for u in mem:
        vc.ensure_eq('the memory is what the good requests made it', list(srv.get_slave(u).get_values('b', 0, 60)), mem[u])
