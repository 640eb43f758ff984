"""C23: sending a request on a clean link."""
from vc.harness import harness
from .net import Sock, Stream, Net, Port, read_hints, send_hints, excs, LinkError, on_frames, tcp_size

TS = 'modbus_tcp.TcpMaster._send'
FL = 'utils.flush_socket'
OP = 'modbus_tcp.TcpMaster._do_open'
RS = 'modbus_rtu.RtuMaster._send'
HOST = ('10.0.0.1', 1502)


class Link(object):
    """the connections of one TCP master"""
    def __init__(self, vc, first):
        self.vc = vc
        self.net = net = Net(vc, max_socks=4)
        self.socks = [first] + [Sock(vc, 'again%d' % k, Stream(vc, 'again%d' % k, end='timeout'), no=8 + k) for k in range(3)]
        net.make = lambda k: self.socks[k]
        net.ready = lambda r, w, x: [s for s in r if self.readable(s)]
        self.w = vc.world(stubs=net.stubs)

    def readable(self, s):
        """the operating system reports what can be read: data, or the end of the connection"""
        if s.stream._vc_end in ('eof', 'reset'):
            return True
        return bool(s.stream.left() > 0)

    def master(self, which='tcp'):
        cls = self.w.modbus_tcp.TcpMaster if which == 'tcp' else self.w.modbus_rtu_over_tcp.RtuOverTcpMaster
        m = cls(host=HOST[0], port=HOST[1], timeout_in_sec=2.0)
        m.open()
        return m

    def on_send(self, s):
        vc = self.vc
        vc.ensure('a request goes out on the open connection to the slave only', s.peer == HOST and not s.closed, lambda: '%r %r' % (s.peer, s.closed))
        vc.ensure('a request goes out on the newest connection', s is self.net.made[-1], lambda: repr(s))
        vc.ensure('no stale byte is left when a request is sent', s.stream.pos == s.stream.n, lambda: '%r of %r read' % (s.stream.pos, s.stream.n))
        vc.ensure('a request is not sent on a lost connection', s.stream._vc_end not in ('eof', 'reset'), lambda: s.stream._vc_end)


@harness('C23', [TS, FL, OP], weight=2)
def tcp(vc):
    """any stale data, in any pieces, on a connection that lives or was lost; reconnecting succeeds or fails"""
    which = vc.pick('master', ('tcp', 'rtu over tcp'))
    state = vc.pick('connection', ('timeout', 'eof', 'reset'))      # timeout: alive, nothing more to read
    again = vc.pick('reconnecting', ('works', 'fails'))
    stale = vc.bytes('stale', lo=0, hi=None if vc.sym else 5000, reps=(0, 1, 2))
    first = Sock(vc, 'first', Stream(vc, 'first', stale, state), no=7)
    link = Link(vc, first)
    m = link.master(which)
    request = vc.bytes('request', lo=1, hi=None if vc.sym else 300, reps=(1, 3))
    for s in link.socks:
        s._vc_onsend = link.on_send
        s.expect(request)
    if again == 'fails':
        link.socks[1]._vc_fail['connect'] = excs('timeout')
    read_hints(vc, first.stream)
    send_hints(vc, request, *link.socks[:2])
    r = vc.call(m._send, request)
    if r.ok:
        vc.cover('sent')
        vc.ensure('one connection in use carries the request', sum(1 for s in link.net.made if not s.closed) <= 1, lambda: repr(link.net.made))
        link.net.made[-1].complete('the complete request is transmitted')
        if len(link.net.made) > 1:
            vc.cover('reconnected')
            vc.ensure('the lost connection is closed', first.closed)
    else:
        vc.cover('refused')
        vc.ensure('a request that is not sent for want of a connection is not sent in part', again == 'fails', r)
        for s in link.socks:
            vc.ensure('nothing is sent', s.nsent == 0)


@harness('C23', [TS, FL, OP, 'modbus_tcp.TcpMaster._recv'], weight=2)
def tcp_again(vc):
    """a request after a complete answer, or after part of one, and whatever came behind it"""
    first = Sock(vc, 'first', Stream(vc, 'first', end='timeout'), no=7)
    link = Link(vc, first)
    m = link.master()
    first._vc_onsend = link.on_send
    first.expect(vc.mkbytes([1, 2, 3]))
    send_hints(vc, vc.mkbytes([1, 2, 3]), first)
    r = vc.call(m._send, vc.mkbytes([1, 2, 3]))
    vc.ensure('the request is sent', r.ok, r)
    s = first.stream
    whole = vc.pick('first answer', ('complete', 'cut off', 'none'))
    head = vc.bytes('head', n=4)
    part = {'complete': vc.cat(head, [0, 3], vc.bytes('answer', n=3)), 'cut off': vc.cat(head, [0, 3]), 'none': vc.mkbytes([])}[whole]
    s._vc_data, s._vc_n, s.pos, s.empties = vc.tobytes(part), vc.len(part), 0, 0
    read_hints(vc, s)
    r = vc.call(m._recv)
    vc.ensure('a complete answer is received', r.ok or whole != 'complete', r)
    behind = vc.bytes('behind', lo=0, hi=None if vc.sym else 2000, reps=(0, 1, 2))
    left = vc.cat(vc.sub(s.data, s.pos, s.n - s.pos), behind)
    s._vc_data, s._vc_n, s.pos, s.empties = vc.tobytes(left), vc.len(left), 0, 0
    request = vc.bytes('request', lo=1, hi=None if vc.sym else 300, reps=(1, 3))
    for x in link.socks:
        x._vc_onsend = link.on_send
        x.expect(request)
    send_hints(vc, request, *link.socks[:2])
    r = vc.call(m._send, request)
    vc.ensure('the next request is sent', r.ok, r)
    link.net.made[-1].complete('the complete request is transmitted')
    vc.cover('sent again')


@harness('C23', [TS], weight=1)
def tcp_send_fails(vc):
    """the connection breaks while sending: the error reaches the caller"""
    err = vc.pick('error', ('broken', 'timeout', 'reset'))
    first = Sock(vc, 'first', Stream(vc, 'first', end='timeout'), no=7)
    link = Link(vc, first)
    m = link.master()
    first._vc_fail = {'sendall': excs(err), 'send': excs(err)}
    request = vc.bytes('request', lo=1, hi=None if vc.sym else 300, reps=(1, 3))
    r = vc.call(m._send, request)
    vc.ensure('an error while sending reaches the caller', not r.ok or len(link.net.made) > 1, r)


class Line(object):
    """a serial port and the master that uses it"""
    def __init__(self, vc, echo):
        self.vc = vc
        self.s = Stream(vc, 'port', vc.mkbytes([]), whole=True)
        self.port = Port(vc, stream=self.s)
        self.m = vc.world().modbus_rtu.RtuMaster(self.port)
        self.m.handle_local_echo = self.echo = echo
        self.m.open()
        self.port._vc_onwrite = self.on_write
        vc.trust('pyserial: write() transmits everything or raises; the echo has arrived when flush() returns')

    def arrive(self, data):
        self.s._vc_data, self.s._vc_n = data, self.vc.len(data)
        self.s.pos = 0

    def on_write(self, p):
        vc, s = self.vc, self.s
        vc.ensure('no stale byte is left when a request is written', s.pos == s.n, lambda: '%r of %r read' % (s.pos, s.n))
        self.arrive(vc.tobytes(vc.cat(self.request, self.answer)) if self.echo else self.answer)

    def send(self, request, answer, stale):
        vc, port = self.vc, self.port
        self.request, self.answer = request, answer
        self.arrive(stale)
        port.sent = vc.mkbytes([])
        port._vc_out[:], port._vc_log[:] = [], []
        r = vc.call(self.m._send, request)
        vc.ensure('the request is sent', r.ok, r)
        vc.ensure('one request is written', len(port.out) == 1, lambda: repr(port.out))
        vc.ensure_eq('the complete request is transmitted', port.sent, request)
        vc.ensure('exactly the echo is discarded', self.s.pos == (vc.len(request) if self.echo else 0), lambda: '%r read' % (self.s.pos,))
        names = [l[0] for l in port.log]
        vc.ensure('the output is flushed before the answer is awaited', 'flush' in names[names.index('write'):])


@harness('C23', [RS], weight=1)
def serial(vc):
    """stale bytes on the port are discarded before the request is written"""
    echo = vc.pick('local echo', (False, True))
    stale = vc.bytes('stale', lo=0, hi=None if vc.sym else 300, reps=(0, 1, 2))
    request = vc.bytes('request', lo=1, hi=None if vc.sym else 300, reps=(1, 3))
    answer = vc.bytes('answer', lo=0, hi=None if vc.sym else 300, reps=(0, 2))
    Line(vc, echo).send(request, answer, stale)
    vc.cover('sent')


@harness('C23', [RS])
def serial_again(vc):
    """the same request once more, or another one, over whatever the earlier answer left"""
    echo = vc.pick('local echo', (False, True))
    request = vc.bytes('request', lo=1, hi=None if vc.sym else 300, reps=(1, 3))
    second = request if vc.pick('second', ('the same', 'another')) == 'the same' else vc.bytes('other', lo=1, hi=None if vc.sym else 300, reps=(1, 3))
    x = Line(vc, echo)
    x.send(request, vc.bytes('answer', lo=0, hi=None if vc.sym else 300, reps=(0, 2)), vc.mkbytes([]))
    x.send(second, vc.bytes('second.answer', lo=0, hi=None if vc.sym else 300, reps=(0, 2)), vc.bytes('stale', lo=0, hi=None if vc.sym else 300, reps=(0, 1, 2)))
    vc.cover('sent twice')


@harness('C23', [RS])
def serial_fails(vc):
    err = vc.pick('error', ('oserror', 'timeout'))
    op = vc.pick('operation', ('reset_input_buffer', 'write', 'flush'))
    request = vc.bytes('request', lo=1, hi=None if vc.sym else 300, reps=(1, 3))
    port = Port(vc)
    w = vc.world()
    m = w.modbus_rtu.RtuMaster(port)
    m.open()
    port._vc_fail = {op: excs(err)}
    r = vc.call(m._send, request)
    vc.ensure('an error while sending reaches the caller', not r.ok, r)


@harness('C23', [TS, FL, OP], sym=False)
def late_answers(vc):
    """successive calls, earlier answers arriving late: no call takes an answer to another call"""
    import struct
    clock = dict(late=[])
    first = Sock(vc, 'first', Stream(vc, 'first', end='timeout'), no=7)
    link = Link(vc, first)
    w = link.w
    cur = {}

    def on_send(s):
        link.on_send(s)
    queue = []

    def deliver(s, b):
        st = s.stream
        st._vc_data = bytes(st._vc_data[st.pos:]) + b
        st._vc_n = len(st._vc_data)
        st.pos = 0
    m = link.master()
    for k in range(vc.int('calls', 1, 6)):
        for s, b in queue:
            if not s.closed:
                deliver(s, b)
        queue[:] = []
        late = vc.pick('late', (False, False, True))
        more = vc.pick('more', (None, None, 'again', 'bytes'))          # the slave says more than it is asked for, afterwards
        v = vc.int('value', 0, 65535)

        def answer(s, req, late=late, v=v, more=more):
            f = req[:4] + struct.pack('>HBBBH', 5, req[6], 3, 2, v)
            if late:
                queue.append((s, f))
            else:
                deliver(s, f)
            if more == 'again':
                queue.append((s, f[:-1] + bytes([f[-1] ^ 1])))
            elif more == 'bytes':
                queue.append((s, bytes([0, 0, 7])))
        for s in link.socks:
            s._vc_onsend = link.on_send
            on_frames(s, tcp_size, lambda f, s=s, answer=answer: answer(s, f))
        r = vc.call(m.execute, 1, 3, 0, 1)
        if late:
            vc.ensure('a call whose answer does not come in time fails', not r.ok, r)
        else:
            vc.ensure('a call gets the answer to its own request', r.ok and tuple(r.value) == (v,), r)
