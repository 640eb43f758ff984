"""C22: what a master collects from the link."""
from vc.harness import harness
from .net import Sock, Stream, Port, Net, read_hints, read_limit, tcp_stream, vmin, real_socket, on_frames, tcp_size

TR = 'modbus_tcp.TcpMaster._recv'
RR = 'modbus_rtu.RtuMaster._recv'
OR = 'modbus_rtu_over_tcp.RtuOverTcpMaster._recv'
ENDS = ('eof', 'timeout', 'reset')


def master_over(vc, cls, w, sock):
    """an open master on this connection"""
    m = cls(host='10.0.0.1', port=1502, timeout_in_sec=1.5)
    m.open()
    vc.ensure('opening a master connects it', m._sock is sock)
    return m


def tcp_world(vc, stream):
    net = Net(vc)
    sock = Sock(vc, 'link', stream)
    net.make = lambda k: sock
    return vc.world(stubs=net.stubs), sock


def partial(vc, r, s, label):
    """the link ended before a response was complete: the bytes so far, or an error"""
    vc.ensure('receiving from a link that ended is over', not vc.sym or s.pos == s.n, lambda: r)
    if r.ok:
        vc.ensure_eq(label, r.value, s.data)


@harness('C22', [TR], weight=2)
def tcp(vc):
    """a stream of any length, in any pieces"""
    end = vc.pick('end', ENDS)
    hint = vc.pick('expected', (-1, 9))
    s, l = tcp_stream(vc, 'link', end)
    w, sock = tcp_world(vc, s)
    m = master_over(vc, w.modbus_tcp.TcpMaster, w, sock)
    read_hints(vc, s)
    if l is not None and not vc.conc:
        read_limit(vc, s, 6 + l)
        vc.hints.ints.append(lambda k: vc.ite(s.pos >= 6, 6 + l, 255))
    r = vc.call(m._recv, hint)
    if l is not None and bool(s.n >= 6 + l):
        vc.cover('a whole frame')
        vc.ensure('a complete response is received', r.ok, r)
        vc.ensure_eq('the response is the first frame of the stream', r.value, vc.sub(s.data, 0, 6 + l))
        return
    vc.cover('the stream ends early')
    partial(vc, r, s, 'the bytes received so far are returned')


@harness('C22', [OR], weight=2)
def over_tcp(vc):
    end = vc.pick('end', ENDS)
    exp = vc.size('expected', 5, 256, reps=(5, 6, 8))
    data = vc.bytes('stream', lo=0, hi=None if vc.sym else 600, reps=(0, 4, 5, 6, 8), )
    if vc.conc and len(data) > 1 and vc.rng.random() < 0.6:
        data = data[:1] + bytes([vc.int('function', 0, 255, near=(0x80,))]) + data[2:]
    s = Stream(vc, 'link', data, end)
    w, sock = tcp_world(vc, s)
    m = master_over(vc, w.modbus_rtu_over_tcp.RtuOverTcpMaster, w, sock)
    read_hints(vc, s)
    n = s.n
    read_limit(vc, s, exp)
    r = vc.call(m._recv, exp)
    if bool(n >= 5) and bool(vc.at(data, 1) > 0x80):
        vc.cover('exception reply')
        total = 5
    else:
        total = exp
    if bool(n >= total):
        vc.cover('a whole response')
        vc.ensure('a complete response is received', r.ok, r)
        vc.ensure_eq('the response is the first bytes of the stream', r.value, vc.sub(data, 0, total))
        return
    vc.cover('the stream ends early')
    partial(vc, r, s, 'the bytes received so far are returned')


@harness('C22', [OR])
def over_tcp_unknown_length(vc):
    """no expected length: everything until the peer closes, at most one maximal frame, never for ever"""
    end = vc.pick('end', ENDS)
    data = vc.bytes('stream', lo=0, hi=None if vc.sym else 600, reps=(0, 4, 5, 6, 8))
    s = Stream(vc, 'link', data, end)
    w, sock = tcp_world(vc, s)
    m = master_over(vc, w.modbus_rtu_over_tcp.RtuOverTcpMaster, w, sock)
    read_hints(vc, s)
    r = vc.call(m._recv)
    if r.ok:
        vc.ensure_eq('the response is what was taken from the link', r.value, s.taken())
        if not (bool(s.n >= 5) and bool(vc.at(data, 1) > 0x80)) and bool(s.n <= 256):
            vc.ensure('everything up to the end of the stream is taken', s.pos == s.n)


@harness('C22', [RR], weight=2)
def serial(vc):
    """a serial port hands over any number of the bytes asked for"""
    end = vc.pick('end', ('eof', 'oserror'))
    tmo = vc.pick('timeout', (0.1, None, 0))
    sw = vc.pick('software timeout', (False, True))
    exp = vc.size('expected', 1, 256, reps=(1, 2, 8))
    data = vc.bytes('stream', lo=0, hi=None if vc.sym else 600, reps=(0, 1, 2, 8, 9))
    s = Stream(vc, 'port', data, end)
    w = vc.world()
    m = w.modbus_rtu.RtuMaster(Port(vc, stream=s))
    m.set_timeout(tmo, sw)
    m.open()
    read_hints(vc, s)
    read_limit(vc, s, exp)
    r = vc.call(m._recv, exp)
    if bool(s.n >= exp):
        vc.cover('a whole response')
        vc.ensure('a complete response is received', r.ok, r)
        vc.ensure_eq('the response is the first bytes of the stream', r.value, vc.sub(data, 0, exp))
        return
    vc.cover('the line falls silent')
    partial(vc, r, s, 'the bytes received so far are returned')


@harness('C22', [RR])
def serial_unknown_length(vc):
    """no expected length: everything until the line falls silent"""
    end = vc.pick('end', ('eof', 'oserror'))
    data = vc.bytes('stream', lo=0, hi=None if vc.sym else 600, reps=(0, 1, 2, 8, 9))
    s = Stream(vc, 'port', data, end)
    w = vc.world()
    m = w.modbus_rtu.RtuMaster(Port(vc, stream=s))
    m.open()
    read_hints(vc, s)
    r = vc.call(m._recv, -1)
    vc.ensure('receiving goes on until the line falls silent', s.pos == s.n)
    if end == 'eof':
        vc.ensure('silence ends a response', r.ok, r)
    if r.ok:
        vc.ensure_eq('the response is everything received', r.value, data)


class Clock(object):
    """a clock that advances by any amount between two looks at it"""
    def __init__(self, vc):
        self.vc, self.now, self.slept = vc, 1000.0, []

    def time(self):
        self.now += self.vc.pick('elapsed', (0.0, 0.01, 0.05, 5.0)) if self.vc.conc else 0.0
        return self.now
    monotonic = perf_counter = time

    def sleep(self, t):
        self.slept.append(t)


@harness('C22', [RR], sym=False)
def software_timeout(vc):
    """with the software timeout a response that comes in time is complete, and waiting ends after the timeout"""
    s = Stream(vc, 'port', b'', 'eof')
    clock = Clock(vc)
    w = vc.world(stubs={'time': clock})
    m = w.modbus_rtu.RtuMaster(Port(vc, stream=s))
    m.set_timeout(1.0, True)
    m.open()
    for _ in range(vc.pick('receives', (1, 1, 2, 5))):
        data = vc.bytes('stream', lo=0, hi=40)
        s._vc_data, s._vc_n, s.pos, s.empties = data, len(data), 0, 0
        exp = vc.int('expected', 1, 40, near=(len(data),))
        clock.now += vc.pick('pause', (0.0, 0.3, 2.0))
        t0 = clock.now
        r = vc.call(m._recv, exp)
        vc.ensure('receiving ends', r.ok, r)
        late = clock.now - t0 > 1.0
        if not late and s.n >= exp:
            vc.ensure_eq('a response in time is complete', r.value, data[:exp])
        vc.ensure_eq('what is returned is the beginning of the stream', r.value, data[:len(r.value)])


@harness('C22', [TR, OR, RR], sym=False)
def whole_calls(vc):
    """calls of one master over a link that answers in pieces"""
    import struct
    kind = vc.pick('master', ('tcp', 'rtu', 'rtu over tcp'))
    s = Stream(vc, 'link', b'', vc.pick('end', ('eof', 'timeout')) if kind != 'rtu' else 'eof')
    c = {}

    def arrive(req):
        pdu, ok = c['pdu'], c['reply']
        if kind == 'tcp':
            f = req[:4] + struct.pack('>HB', len(pdu) + 1, c['unit']) + pdu
        else:
            f = bytes([c['unit']]) + pdu
            f += struct.pack('>H', w.utils.calculate_crc(f))
        if ok == 'cut':
            f = f[:vc.int('cut', 0, len(f) - 1)]
        elif ok == 'none':
            f = b''
        else:
            f += c['junk'] if ok == 'normal' or kind == 'tcp' else b''
        s._vc_data, s._vc_n, s.pos, s.empties = f, len(f), 0, 0
    if kind == 'rtu':
        w = vc.world()
        port = Port(vc, stream=s)
        port.reset_input_buffer = lambda: None
        orig = port.write
        port.write = lambda b: (orig(b), arrive(b))
        m = w.modbus_rtu.RtuMaster(port)
    else:
        w, sock = tcp_world(vc, s)
        on_frames(sock, tcp_size if kind == 'tcp' else lambda got: 8, arrive)
        m = (w.modbus_tcp.TcpMaster if kind == 'tcp' else w.modbus_rtu_over_tcp.RtuOverTcpMaster)(host='10.0.0.1')
    for _ in range(vc.pick('calls', (1, 1, 2, 4))):
        q = vc.int('quantity', 1, 125)
        values = vc.ints('values', q, 0, 65535)
        c['unit'] = vc.int('unit', 1, 255)
        c['reply'] = ok = vc.pick('reply', ('normal', 'normal', 'exception', 'cut', 'none'))
        c['pdu'] = bytes([0x83, vc.int('code', 1, 8)]) if ok == 'exception' else bytes([3, 2 * q]) + struct.pack('>%dH' % q, *values)
        c['junk'] = vc.bytes('junk', lo=0, hi=6)
        r = vc.call(m.execute, c['unit'], 3, 0, q)
        if ok == 'normal':
            vc.ensure('the call succeeds', r.ok, r)
            vc.ensure_eq('the call returns the values', list(r.value), list(values))
        else:
            vc.ensure('the call ends with an error', not r.ok, r)
            if ok == 'exception':
                vc.ensure('the exception reply is reported', r.raised(w.modbus.ModbusError), r)
        if kind != 'rtu' and (s._vc_end == 'eof' or ok in ('cut', 'none')):
            return          # the connection is gone
