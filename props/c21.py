"""C21: faults of one connection and the life cycle of connections."""
from vc.harness import harness
from vc import core
from .net import Sock, Stream, Net, Bank, read_hints, read_limit, current, tcp_stream, excs, LinkError
from .c20 import Served, answering

RUN = 'modbus_tcp.TcpServer._do_run'
EXIT = 'modbus_tcp.TcpServer._do_exit'
INIT = 'modbus_tcp.TcpServer._do_init'
ERRORS = ('reset', 'timeout', 'broken', 'oserror', 'value', 'other')


def request(vc, name):
    """one small complete request"""
    return vc.tobytes(vc.cat(vc.bytes(name + '.ids', n=4), vc.word(2), vc.bytes(name + '.pdu', n=2)))


def still_serving(vc, sv, others, faulty, label):
    """the server listens, the other connections are served, and a connection it gave up is forgotten"""
    r, watched = sv.watched()
    vc.ensure('%s: the server goes on' % label, r.ok, r)
    vc.ensure('%s: the server still listens' % label, sv.listen in watched and not sv.listen.closed)
    for o in others:
        vc.ensure('%s: the other connections are kept' % label, o in watched and not o.closed, lambda: repr(o))
        vc.ensure('%s: no connection is watched twice' % label, len([x for x in watched if x is o]) == 1)
    for f in faulty:
        vc.ensure('%s: a closed connection is forgotten, a forgotten one is closed' % label, f.closed == (f not in watched), lambda: repr(f))
    for o in others:
        before = len(sv.bank.requests)
        if not bool(o.stream.pos == 0):
            continue
        r = sv.step([o])
        vc.ensure('%s: the server goes on' % label, r.ok, r)
        vc.ensure('%s: the others are served' % label, len(sv.bank.requests) == before + 1)
        vc.ensure_eq('%s: the others are answered' % label, o.sent, [11, 22])
    c = Sock(vc, 'newcomer', Stream(vc, 'newcomer', request(vc, 'newcomer')), no=30)
    sv.connect(c)
    r, watched = sv.watched()
    vc.ensure('%s: new connections are accepted' % label, c in watched and not c.closed)


ANSWER = [11, 22]


def scene(vc, stream_a, kinds=None):
    """a server with the connections a (the faulty one) and b, c"""
    a = Sock(vc, 'a', stream_a, no=4)
    b = Sock(vc, 'b', Stream(vc, 'b', request(vc, 'b')), no=5)
    c = Sock(vc, 'c', Stream(vc, 'c', request(vc, 'c')), no=6)
    place = vc.pick('place', (0, 1, 2))
    socks = [b, c]
    socks.insert(place, a)
    a._vc_fail['shutdown'] = OSError(107, 'Transport endpoint is not connected')

    def answer(k, req):
        if kinds is not None:
            f = kinds(k)
            if f is not None:
                raise f
        return vc.mkbytes(ANSWER)
    sv = Served(vc, socks, answer)
    return sv, a, b, c


@harness('C21', [RUN], weight=4)
def receive_fails(vc):
    """reading fails, or the connection ends, after any number of bytes; the others are ready in the same step, before or after it"""
    end = vc.pick('end', ('eof', 'reset', 'timeout', 'oserror'))
    s, l = tcp_stream(vc, 'a', end)
    if l is not None:
        vc.assume(s.n < 6 + l)
    sv, a, b, c = scene(vc, s)
    ready = vc.pick('ready', ('alone', 'first', 'middle', 'last'))
    order = {'alone': [a], 'first': [a, b], 'middle': [b, a, c], 'last': [b, a]}[ready]
    if l is not None:
        read_limit(vc, s, 6 + l)
    read_hints(vc, s)
    current(vc, s, b.stream, c.stream)
    r = sv.step(order)
    vc.ensure('an error on one connection does not reach the server loop', r.ok, r)
    vc.cover('a connection fails')
    if end != 'eof':
        vc.ensure('a connection that failed is closed', a.closed)
    elif not a.closed:
        r = sv.step([a])
        vc.ensure('the server goes on', r.ok, r)
        vc.ensure('a connection the client closed is closed', a.closed)
    still_serving(vc, sv, [b, c], [a], 'after a failed receive')


@harness('C21', [RUN])
def disconnected(vc):
    """the client closes its connection"""
    sv, a, b, c = scene(vc, Stream(vc, 'a'))
    order = vc.pick('ready', (0, 1, 2))
    order = [[a], [a, b], [b, a]][order]
    r = sv.step(order)
    vc.ensure('the server goes on', r.ok, r)
    if not a.closed:
        r = sv.step([a])
        vc.ensure('the server goes on', r.ok, r)
    vc.cover('disconnected')
    r, watched = sv.watched()
    vc.ensure('a connection the client closed is closed', a.closed)
    vc.ensure('a connection the client closed is forgotten', a not in watched)
    still_serving(vc, sv, [b, c], [a], 'after a disconnection')


@harness('C21', [RUN])
def sending_fails(vc):
    """the reply cannot be sent"""
    err = vc.pick('error', ERRORS)
    sv, a, b, c = scene(vc, Stream(vc, 'a', request(vc, 'a')))
    a._vc_fail.update({'sendall': excs(err), 'send': excs(err)})
    order = vc.pick('ready', (0, 1, 2))
    r = sv.step([[a], [a, b], [b, a]][order])
    vc.ensure('an error on one connection does not reach the server loop', r.ok, r)
    vc.cover('send fails')
    still_serving(vc, sv, [b, c], [a], 'after a failed send')


@harness('C21', [RUN])
def operation_fails(vc):
    """any other operation on a connection fails"""
    err = vc.pick('error', ERRORS)
    op = vc.pick('operation', ('settimeout', 'recv', 'setblocking'))
    sv, a, b, c = scene(vc, Stream(vc, 'a', request(vc, 'a')))
    a._vc_fail[op] = excs(err)
    r = sv.step([a, b])
    vc.ensure('an error on one connection does not reach the server loop', r.ok, r)
    still_serving(vc, sv, [b, c], [a], 'after a failed %s' % op)


@harness('C21', [RUN])
def handling_fails(vc):
    """handling a request raises: the connection is answered or not, the others are served"""
    sv, a, b, c = scene(vc, Stream(vc, 'a', request(vc, 'a')), kinds=lambda k: LinkError('handling failed') if k == 0 else None)
    r = sv.step(vc.pick('ready', (0, 1)) and [a] or [a])
    vc.ensure('an error while handling does not reach the server loop', r.ok, r)
    vc.ensure_eq('nothing is sent', a.sent, [])
    still_serving(vc, sv, [b, c], [a], 'after a failed request')


@harness('C21', [RUN])
def accepting_fails(vc):
    """accepting a connection fails, at any of its operations"""
    err = vc.pick('error', ERRORS)
    op = vc.pick('operation', ('accept', 'setblocking'))
    sv, a, b, c = scene(vc, Stream(vc, 'a', request(vc, 'a')))
    n = Sock(vc, 'new', no=9)
    n._vc_net = sv.net
    sv.net.pending.append(n)
    if op == 'accept':
        sv.listen._vc_fail = {'accept': excs(err)}
    else:
        n._vc_fail = {'setblocking': excs(err)}
    order = vc.pick('ready', (0, 1, 2))
    r = sv.step([[sv.listen], [sv.listen, a], [a, sv.listen]][order])
    vc.ensure('an error while accepting does not reach the server loop', r.ok, r)
    vc.cover('accepting fails')
    sv.listen._vc_fail = {}
    sv.net.pending[:] = []
    still_serving(vc, sv, [a, b, c], [], 'after a failed accept')


@harness('C21', [RUN, INIT])
def accepted(vc):
    """an accepted connection is served from then on"""
    sv, a, b, c = scene(vc, Stream(vc, 'a', request(vc, 'a')))
    r, watched = sv.watched()
    vc.ensure('the server goes on', r.ok, r)
    vc.ensure('every accepted connection is watched', all(x in watched for x in (a, b, c, sv.listen)) and len(watched) == 4, lambda: repr(watched))
    still_serving(vc, sv, [a, b, c], [], 'after accepting')


@harness('C21', [RUN, INIT])
def lonely(vc):
    """a single connection that falls silent within a request does not hold up the server"""
    s, l = tcp_stream(vc, 'a', 'timeout')
    if l is not None:
        vc.assume(s.n < 6 + l)
        read_limit(vc, s, 6 + l)
    vc.assume(s.n >= 1)
    a = Sock(vc, 'a', s, no=4)
    sv = Served(vc, [a], lambda k, q: vc.mkbytes(ANSWER))
    read_hints(vc, s)
    r = sv.step([a])
    vc.ensure('the server goes on', r.ok, r)
    vc.ensure('a connection that failed is closed', a.closed)
    still_serving(vc, sv, [], [a], 'after a silent client')


@harness('C21', [RUN, INIT], sym=False)
def crowd(vc):
    """as many connections as come"""
    n = vc.pick('connections', (2, 3, 9, 33, 40, 65))
    socks = [Sock(vc, 's%d' % k, Stream(vc, 's%d' % k, b'\0\1\0\0\0\2\1\3'), no=40 + k) for k in range(n)]
    sv = Served(vc, socks, lambda k, q: vc.mkbytes(ANSWER))
    r, watched = sv.watched()
    vc.ensure('the server goes on', r.ok, r)
    vc.ensure('every accepted connection is watched', all(s in watched and not s.closed for s in socks), lambda: '%d of %d' % (len(watched) - 1, n))
    for _ in range(len(socks) + 2):
        todo = [s for s in socks if not bytes(s.sent)]
        if not todo:
            break
        r = sv.step(todo if vc.pick('all', (True, False)) else [todo[vc.int('which', 0, len(todo) - 1)]])
        vc.ensure('the server goes on', r.ok, r)
    for s in socks:
        vc.ensure_eq('every connection is answered', s.sent, ANSWER)


@harness('C21', [EXIT])
def stopping(vc):
    """stopping closes everything, whatever closing one of them does"""
    sv, a, b, c = scene(vc, Stream(vc, 'a'))
    bad = vc.pick('failing close', (None, 0, 1, 2))
    if bad is not None:
        s = [a, b, c][bad]
        s._vc_fail = {'close': excs('reset')}
    r = vc.call(sv.srv._do_exit)
    vc.ensure('stopping succeeds', r.ok, r)
    for s in (a, b, c, sv.listen):
        vc.ensure('stopping closes every connection', s.closed or (bad is not None and ('close',) in s.log), lambda: repr(s))
    vc.ensure('stopping closes the listening socket', sv.listen.closed)


@harness('C21', [RUN, EXIT, INIT, 'modbus.Server._run_server', 'modbus.Server.start', 'modbus.Server.stop'], sym=False)
def lifetimes(vc):
    """a started server over random events, until it is stopped"""
    net = Net(vc, max_socks=20)
    listen = Sock(vc, 'listen', no=3)
    net.make = lambda k: listen
    w = vc.world(stubs=net.stubs)
    calls = []
    srv = w.modbus_tcp.TcpServer(port=1502, databank=Bank(vc, lambda k, q: calls.append(q) or b'\x0b\x16'))
    socks = []
    total = vc.int('events', 1, 25)
    state = dict(n=0, bad=None)
    thread = srv._thread
    expect = {}

    def ready(r, w_, x):
        state['n'] += 1
        if state['bad'] is None:
            if listen not in r:
                state['bad'] = 'the listening socket is no longer watched'
            for s in socks:
                if s._vc_accepted and (s in r) == s.closed:
                    state['bad'] = '%r: closed %s, watched %s' % (s, s.closed, s in r)
                if s._vc_accepted and s.closed and s.stream.pos < s.stream.n and not ('sendall' in s._vc_fail and ('sendall',) in s.log or 'send' in s._vc_fail and ('send',) in s.log):
                    state['bad'] = '%r: closed although nothing is wrong with it' % s
        if state['n'] > total or state['bad']:
            thread.alive = True
            srv.stop()
            return []
        out = []
        listen._vc_fail = {}
        if vc.pick('event', ('connect', 'data')) == 'connect' and len(socks) < 8:
            data = b'' if vc.pick('data', (0, 1, 1)) == 0 else b'\0\1\0\0\0\2\1\3' * vc.int('frames', 1, 3)
            data = data[:len(data) - vc.pick('cut', (0, 0, 1, 3))]
            s = Sock(vc, 'client%d' % len(socks), Stream(vc, 'client%d' % len(socks), data, vc.pick('end', ('eof', 'reset', 'timeout'))), no=4 + len(socks))
            s._vc_net, s._vc_accepted, s._vc_served = net, False, True
            s._vc_addr = ('10.0.0.2', 2000 + vc.int('peer port', 0, 3))          # a client that comes back may come from the same port
            s._vc_fail['shutdown'] = OSError(107, 'Transport endpoint is not connected')
            if vc.pick('send', (True, True, False)) is False:
                s._vc_fail.update(sendall=excs('broken'), send=excs('broken'))
            net.pending.append(s)
            socks.append(s)
        if net.pending and vc.pick('accept', (True, False)):
            if vc.pick('accept fails', (False, False, True)):
                listen._vc_fail = {'accept': excs('reset')}
            else:
                net.pending[0]._vc_accepted = True
            out.append(listen)
        out += [s for s in socks if s in r and s._vc_accepted and vc.pick('readable', (True, False))]
        return out
    net.ready = ready
    srv.start()
    r = vc.call(thread.run)
    vc.ensure('the server thread ends normally', r.ok, r)
    vc.ensure('the server watches exactly the listening socket and the open connections', state['bad'] is None, state['bad'])
    vc.ensure('the server runs until it is stopped', state['n'] > total, lambda: '%d steps of %d' % (state['n'], total))
    for s in [listen] + socks:
        if s is listen or s._vc_accepted:
            vc.ensure('stopping closes every connection', s.closed, lambda: repr(s))
