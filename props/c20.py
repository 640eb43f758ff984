"""C20: the TCP server takes, handles and answers one frame of a stream per step."""
from vc.harness import harness
from .net import Sock, Stream, Net, Bank, read_hints, read_limit, tcp_stream, LinkError

RUN = 'modbus_tcp.TcpServer._do_run'
LEN = 'modbus_tcp.TcpServer._get_request_length'
ANSWERS = ('reply', 'nothing', 'error')


class Served(object):
    """a running TCP server with connected clients"""
    def __init__(self, vc, clients, answer, net=None):
        self.vc = vc
        self.net = net = net or Net(vc)
        self.listen = Sock(vc, 'listen', no=3)
        net.make = lambda k: self.listen
        self.w = vc.world(stubs=net.stubs)
        self.bank = Bank(vc, answer)
        self.srv = self.w.modbus_tcp.TcpServer(port=1502, address='10.0.0.9', databank=self.bank)
        vc.need(self.srv, '_do_init')
        vc.need(self.srv, '_do_run')
        self.srv._do_init()
        vc.ensure('the server listens', ('listen' in [l[0] for l in self.listen.log]) and ('bind', ('10.0.0.9', 1502)) in self.listen.log)
        for c in clients:
            self.connect(c)

    def connect(self, c):
        c._vc_net = self.net
        c._vc_served = True
        self.net.pending.append(c)
        r = self.step([self.listen])
        self.vc.ensure('accepting a connection', r.ok and not self.net.pending, r)

    def step(self, ready):
        """one step of the server in which these of its sockets are readable"""
        self.net.ready = lambda r, w, x: [s for s in ready if s in r]
        return self.vc.call(self.srv._do_run)

    def watched(self):
        """the sockets the server waits for"""
        self.net.selects = []
        r = self.step([])
        return r, (self.net.selects[-1] if self.net.selects else [])


def reply_for(vc, kind):
    if kind == 'reply':
        return vc.bytes('reply', lo=1, hi=None if vc.sym else 300, reps=(1, 2))
    return vc.pick('no reply', ('', None, b'')) if kind == 'nothing' else None


def answering(vc, kinds, replies):
    def answer(k, request):
        if k >= len(kinds):
            return None
        if kinds[k] == 'error':
            raise LinkError('handling failed')
        return replies[k]
    return answer


def handled(vc, sv, k, data, at, ln, sock, kind, reply):
    """the k-th handled request is data[at:at+ln], answered on this connection"""
    vc.ensure('a complete request is handled exactly once', len(sv.bank.requests) == k + 1, lambda: '%d handled' % len(sv.bank.requests))
    vc.ensure_eq('the request handled is exactly one frame of the stream', sv.bank.requests[k], vc.sub(data, at, ln))
    if kind == 'reply':
        vc.ensure_eq('the complete reply goes to the connection of the request', sock.sent, reply)
    else:
        vc.ensure_eq('nothing is sent when there is no reply', sock.sent, [])


@harness('C20', [RUN, LEN], weight=4)
def one_frame(vc):
    """one readable connection, any stream"""
    end = vc.pick('end', ('eof', 'timeout', 'reset'))
    s, l = tcp_stream(vc, 'a', end)
    if l is not None:
        vc.assume(l >= 1)
    a = Sock(vc, 'a', s, no=4)
    b = Sock(vc, 'b', no=5)
    kind = vc.pick('outcome', ANSWERS)
    reply = reply_for(vc, kind)
    sv = Served(vc, [a, b], answering(vc, [kind], [reply]))
    if l is not None:
        read_limit(vc, s, 6 + l)
    read_hints(vc, s)
    r = sv.step([a])
    vc.ensure('the server goes on', r.ok, r)
    vc.ensure_eq('nothing goes to another connection', b.sent, [])
    vc.ensure_eq('nothing goes to the listening socket', sv.listen.sent, [])
    if l is not None and bool(s.n >= 6 + l):
        vc.cover('a whole request')
        vc.ensure('exactly one frame is taken from the stream', s.pos == 6 + l, lambda: '%r taken' % (s.pos,))
        handled(vc, sv, 0, s.data, 0, 6 + l, a, kind, reply)
        return
    vc.cover('a request cut off')
    vc.ensure('an incomplete request is not handled', len(sv.bank.requests) == 0)
    vc.ensure_eq('an incomplete request is not answered', a.sent, [])


@harness('C20', [RUN, LEN], weight=4)
def next_frame(vc):
    """the step after a step: the stream goes on where the first frame ended"""
    l1 = vc.pick('first', (1, 2))
    first = vc.bytes('first.ids', n=4)
    rest1 = vc.bytes('first.rest', n=l1)
    s2, l = tcp_stream(vc, 'second')
    if l is None:
        l = None
    else:
        vc.assume(l >= 1)
    s = Stream(vc, 'a', vc.tobytes(vc.cat(first, vc.word(l1), rest1, s2.data)))
    a = Sock(vc, 'a', s, no=4)
    kinds = [vc.pick('outcome', ANSWERS), 'reply']
    replies = [reply_for(vc, kinds[0]), reply_for(vc, 'reply')]
    sv = Served(vc, [a], answering(vc, kinds, replies))
    at = 6 + l1
    r = sv.step([a])
    vc.ensure('the server goes on', r.ok, r)
    vc.ensure('exactly one frame is taken from the stream', s.pos == at)
    handled(vc, sv, 0, s.data, 0, at, a, kinds[0], replies[0])
    read_hints(vc, s)
    if not vc.conc:
        vc.hints.contents.append(lambda entry, k: vc.sub(s.data, at, s.pos - at))
        if l is not None:
            read_limit(vc, s, at + 6 + l)
    before = a.sent
    a.sent = vc.mkbytes([])
    r = sv.step([a])
    vc.ensure('the server goes on', r.ok, r)
    if l is not None and bool(s.n >= at + 6 + l):
        vc.cover('a second request')
        vc.ensure('exactly one frame is taken from the stream', s.pos == at + 6 + l, lambda: '%r taken' % (s.pos,))
        handled(vc, sv, 1, s.data, at, 6 + l, a, kinds[1], replies[1])
        return
    vc.ensure('an incomplete request is not handled', len(sv.bank.requests) == 1)
    vc.ensure_eq('an incomplete request is not answered', a.sent, [])


@harness('C20', [RUN, LEN], weight=2)
def after_a_cut_request(vc):
    """a connection that ended within a request leaves nothing behind for a later one, which may get the same descriptor"""
    end = vc.pick('end', ('eof', 'reset'))
    s1, l1 = tcp_stream(vc, 'a', end)
    if l1 is not None:
        vc.assume(s1.n < 6 + l1)
        read_limit(vc, s1, 6 + l1)
    a = Sock(vc, 'a', s1, no=4)
    s2 = Stream(vc, 'b', vc.tobytes(vc.cat(vc.bytes('b.ids', n=4), vc.word(2), vc.bytes('b.pdu', n=2))))
    b = Sock(vc, 'b', s2, no=4)
    reply = reply_for(vc, 'reply')
    sv = Served(vc, [a], answering(vc, ['reply'], [reply]))
    read_hints(vc, s1, s2)
    read_limit(vc, s2, 8)
    for _ in range(2):
        if not a.closed:
            r = sv.step([a])
            vc.ensure('the server goes on', r.ok, r)
    vc.ensure('a connection that ended is closed', a.closed)
    sv.connect(b)
    r = sv.step([b])
    vc.ensure('the server goes on', r.ok, r)
    vc.cover('a later connection')
    handled(vc, sv, 0, s2.data, 0, 8, b, 'reply', reply)
    vc.ensure_eq('an incomplete request is not answered', a.sent, [])


@harness('C20', [RUN, LEN], weight=2)
def after_an_answer(vc):
    """a request answered earlier, on this or another connection, has no bearing on one without an answer"""
    where = vc.pick('where', ('same connection', 'other connection'))
    kind = vc.pick('outcome', ANSWERS)
    same = vc.pick('request', ('the same', 'another'))
    one = vc.tobytes(vc.cat(vc.bytes('first.ids', n=4), vc.word(2), vc.bytes('first.pdu', n=2)))
    two = one if same == 'the same' else vc.tobytes(vc.cat(vc.bytes('second.ids', n=4), vc.word(3), vc.bytes('second.pdu', n=3)))
    if where == 'same connection':
        a = b = Sock(vc, 'a', Stream(vc, 'a', vc.tobytes(vc.cat(one, two))), no=4)
        socks, at = [a], 8
    else:
        a, b = Sock(vc, 'a', Stream(vc, 'a', one), no=4), Sock(vc, 'b', Stream(vc, 'b', two), no=5)
        socks, at = [a, b], 0
    replies = [reply_for(vc, 'reply'), reply_for(vc, kind)]
    sv = Served(vc, socks, answering(vc, ['reply', kind], replies))
    r = sv.step([a])
    vc.ensure('the server goes on', r.ok, r)
    handled(vc, sv, 0, a.stream.data, 0, 8, a, 'reply', replies[0])
    a.sent = vc.mkbytes([])
    r = sv.step([b])
    vc.ensure('the server goes on', r.ok, r)
    vc.cover('a second request')
    handled(vc, sv, 1, b.stream.data, at, vc.len(two), b, kind, replies[1])


@harness('C20', [RUN, LEN], weight=4)
def two_connections(vc):
    """two readable connections in one step"""
    order = vc.pick('order', (0, 1))
    socks, ls = [], []
    for nm in ('a', 'b'):
        l = vc.int('%s.announced' % nm, 1, 65535, make=lambda r: r.randint(1, 12) if r.random() < .6 else r.randint(1, 300))
        data = vc.tobytes(vc.cat(vc.bytes('%s.ids' % nm, n=4), vc.word(l), vc.bytes('%s.rest' % nm, n=l)))
        socks.append(Sock(vc, nm, Stream(vc, nm, data), no=4 + len(socks)))
        ls.append(l)
    if order:
        socks.reverse()
        ls.reverse()
    replies = [reply_for(vc, 'reply'), reply_for(vc, 'reply')]
    sv = Served(vc, sorted(socks, key=lambda s: s._vc_no), answering(vc, ['reply', 'reply'], replies))
    both = sorted(zip([s.stream for s in socks], ls), key=lambda x: x[0]._vc_name)
    read_hints(vc, *[s for s, l in both])
    for s, l in both:
        read_limit(vc, s, 6 + l)
    r = sv.step(socks)
    vc.ensure('the server goes on', r.ok, r)
    vc.cover('two requests')
    vc.ensure('each request is handled once', len(sv.bank.requests) == 2, lambda: '%d handled' % len(sv.bank.requests))
    for k in (0, 1):
        vc.ensure_eq('the requests are handled in the order the connections are reported', sv.bank.requests[k], socks[k].stream.data)
        vc.ensure_eq('each reply goes to the connection of its request', socks[k].sent, replies[k])


@harness('C20', [RUN, LEN], sym=False)
def histories(vc):
    """many connections, many frames, the real databank and slaves"""
    import struct
    nc = vc.pick('clients', (1, 2, 3, 4, 12, 40))
    frames = {}
    socks = []
    for c in range(nc):
        fs = []
        for f in range(vc.int('frames', 0, 5 if nc < 5 else 2)):
            q = vc.int('quantity', 1, 20)
            unit = vc.pick('unit', (1, 2, 9))
            fs.append((struct.pack('>HHHB', vc.int('tid', 0, 65535), 0, 6, unit) + struct.pack('>BHH', 3, vc.int('start', 0, 30), q), unit))
        data = b''.join(x for x, u in fs)
        cut = vc.int('cut', 0, len(data)) if vc.pick('whole', (True, True, False)) is False else len(data)
        socks.append(Sock(vc, 'client%d' % c, Stream(vc, 'client%d' % c, data[:cut], vc.pick('end', ('eof', 'timeout'))), no=4 + c))
        n, whole = 0, []
        for x, u in fs:
            n += len(x)
            if n <= cut:
                whole.append((x, u))
        frames[c] = whole
    net = Net(vc)
    listen = Sock(vc, 'listen', no=3)
    net.make = lambda k: listen
    w = vc.world(stubs=net.stubs)
    srv = w.modbus_tcp.TcpServer(port=1502)
    for u in (1, 2):
        sl = srv.add_slave(u)
        sl.add_block('b', 3, 0, 60)
        sl.set_values('b', 0, [u * 1000 + k for k in range(60)])
    srv._do_init()
    for s in socks:
        s._vc_net, s._vc_served = net, True
        net.pending.append(s)
        net.ready = lambda r, w, x: [listen]
        srv._do_run()
    for step in range(60):
        readable = [s for s in socks if not s.closed]
        if not readable:
            break
        subset = [s for s in readable if vc.pick('ready', (True, False))] or readable[:1]
        net.ready = lambda r, w, x: [s for s in subset if s in r]
        r = vc.call(srv._do_run)
        vc.ensure('the server goes on', r.ok, r)
    else:
        raise __import__('vc.harness', fromlist=['Reject']).Reject('too long')
    for c, s in enumerate(socks):
        want = b''
        for x, u in frames[c]:
            if u == 9:
                continue
            start, q = struct.unpack('>HH', x[8:12])
            pdu = bytes([3, 2 * q]) + struct.pack('>%dH' % q, *[u * 1000 + k for k in range(start, start + q)])
            want += x[:4] + struct.pack('>HB', len(pdu) + 1, u) + pdu
        vc.ensure_eq('every complete request is answered once, in order', s.sent, want)
