"""C26: what a hook returns replaces exactly the data it was given."""
import struct
from vc.harness import harness
from .net import Sock, Stream, Port, Net, read_hints, read_limit
from .c20 import Served
from .c23 import Link
from .c22 import master_over, tcp_world
from .c24 import Rtu

SEND = ['modbus_tcp.TcpMaster._send', 'modbus_rtu.RtuMaster._send']
RECV = ['modbus_tcp.TcpMaster._recv', 'modbus_rtu.RtuMaster._recv', 'modbus_rtu_over_tcp.RtuOverTcpMaster._recv']
CH = ['hooks.install_hook', 'hooks.call_hooks']


class Hook(object):
    """one installed hook function"""
    def __init__(self, vc, w, name, value=None):
        self.vc, self.name, self.value = vc, name, value
        self.seen = []
        w.hooks.install_hook(name, self)

    def __call__(self, args):
        self.seen.append(args)
        return self.value

    def got(self, owner, data, label=None):
        """was the hook called once, with the owner and this data last?"""
        vc = self.vc
        vc.ensure('%s is called once' % self.name, len(self.seen) == 1, lambda: '%d calls' % len(self.seen))
        a = self.seen[0]
        vc.ensure('%s gets its documented arguments' % self.name, isinstance(a, tuple) and len(a) >= 2 and a[0] is owner, lambda: repr(a))
        vc.ensure_eq('%s gets the data' % self.name, a[-1], data)


def maybe(vc, name, lo=0):
    """what a hook returns: nothing, or bytes"""
    if vc.pick('%s returns' % name, ('nothing', 'data')) == 'nothing':
        return None
    return vc.bytes(name, lo=lo, hi=None if vc.sym else 300, reps=(0, 1, 3))


def after(value, data):
    """the data after the hook"""
    return data if value is None else value


@harness('C26', ['modbus.Master.execute'] + CH)
def master(vc):
    """the hooks of a call: request before sending, response after receiving"""
    w = vc.world()
    frame, response = vc.bytes('frame', n=8), vc.bytes('response', lo=0, hi=None if vc.sym else 20, reps=(0, 1, 5))
    sent, parsed = [], []

    class Q(object):
        def build_request(self, pdu, slave):
            return frame

        def parse_response(self, r):
            parsed.append(r)
            return vc.mkbytes([3, 2, 1, 2])

    class M(w.modbus.Master):
        def _do_open(self):
            return None

        def _do_close(self):
            return True

        def _send(self, request):
            sent.append(request)

        def _recv(self, expected_length=-1):
            return response

        def _make_query(self):
            return Q()
    m = M(5.0)
    if vc.flag('verbose'):
        m.set_verbose(True)
    b = Hook(vc, w, 'modbus.Master.before_send', maybe(vc, 'new request'))
    a = Hook(vc, w, 'modbus.Master.after_recv', maybe(vc, 'new response'))
    s = Hook(vc, w, 'modbus.Master.after_send', vc.pick('after_send', (None, 5)))
    r = vc.call(m.execute, 1, 3, 0, 1)
    vc.ensure('the call succeeds', r.ok and tuple(r.value) == (258,), r)
    vc.cover('called')
    b.got(m, frame)
    a.got(m, response)
    vc.ensure('after_send is called once', len(s.seen) == 1)
    vc.ensure('one request is sent', len(sent) == 1 and len(parsed) == 1)
    vc.ensure_eq('what is sent is the request after the hook', sent[0], after(b.value, frame))
    vc.ensure_eq('what is processed is the response after the hook', parsed[0], after(a.value, response))


@harness('C26', SEND + CH)
def sending(vc):
    """the request hooks of the links"""
    which = vc.pick('master', ('tcp', 'rtu over tcp', 'rtu'))
    request = vc.bytes('request', lo=1, hi=None if vc.sym else 300, reps=(1, 3))
    new = maybe(vc, 'new request', 1)
    if which == 'rtu':
        w = vc.world()
        echo = vc.flag('echo')
        port = Port(vc, stream=Stream(vc, 'port', whole=True))
        m = w.modbus_rtu.RtuMaster(port)
        m.handle_local_echo = echo
        m.open()
        h = Hook(vc, w, 'modbus_rtu.RtuMaster.before_send', new)
        want = after(new, request)
        if echo:
            tail = vc.bytes('answer', lo=0, hi=None if vc.sym else 300, reps=(0, 2))

            def on_write(p):
                p.stream._vc_data = vc.tobytes(vc.cat(want, tail))
                p.stream._vc_n = vc.len(p.stream._vc_data)
                p.stream.pos = 0
            port._vc_onwrite = on_write
        r = vc.call(m._send, request)
        out, sent = port.out, port.sent
        if echo:
            vc.ensure('exactly the echo of what was sent is discarded', port.stream.pos == vc.len(want), lambda: '%r read' % (port.stream.pos,))
    else:
        # the connection was lost in the meantime, or not
        lost = vc.flag('connection lost')
        s = Stream(vc, 'link', end='eof' if lost else 'timeout')
        link = Link(vc, Sock(vc, 'first', s, no=7))
        w = link.w
        m = link.master(which)
        h = Hook(vc, w, 'modbus_tcp.TcpMaster.before_send', new)
        read_hints(vc, s)
        r = vc.call(m._send, request)
        sock = link.net.made[-1]
        out, sent = sock.out, sock.sent
        if vc.sym and not out:
            from vc.core import Unsupported
            raise Unsupported('the request is not sent in one piece')
    vc.ensure('the request is sent', r.ok, r)
    vc.cover('sent')
    h.got(m, request)
    vc.ensure_eq('what is sent is the request after the hook', sent, after(new, request))


@harness('C26', RECV + CH)
def receiving(vc):
    """the response hooks of the links"""
    which = vc.pick('master', ('tcp', 'rtu over tcp', 'rtu'))
    new = maybe(vc, 'new response')
    if which == 'tcp':
        l = vc.int('announced', 1, 65535, make=lambda r: r.randint(1, 300))
        data = vc.tobytes(vc.cat(vc.bytes('ids', n=4), vc.word(l), vc.bytes('rest', n=l)))
        total, exp = 6 + l, -1
    else:
        exp = total = vc.size('expected', 6, 256, reps=(6, 8))
        data = vc.bytes('data', n=total)
        if which != 'rtu':
            vc.assume(vc.at(data, 1) <= 0x80)
    s = Stream(vc, 'link', data)
    if which == 'rtu':
        w = vc.world()
        m = w.modbus_rtu.RtuMaster(Port(vc, stream=s))
        m.open()
        name = 'modbus_rtu.RtuMaster.after_recv'
    else:
        w, sock = tcp_world(vc, s)
        cls = w.modbus_tcp.TcpMaster if which == 'tcp' else w.modbus_rtu_over_tcp.RtuOverTcpMaster
        m = master_over(vc, cls, w, sock)
        name = 'modbus_tcp.TcpMaster.after_recv' if which == 'tcp' else 'modbus_rtu_over_tcp.RtuOverTcpMaster.after_recv'
    h = Hook(vc, w, name, new)
    read_hints(vc, s)
    read_limit(vc, s, total)
    if which == 'tcp' and not vc.conc:
        vc.hints.ints.append(lambda k: vc.ite(s.pos >= 6, 6 + l, 255))
    r = vc.call(m._recv, exp)
    vc.ensure('the response is received', r.ok, r)
    vc.cover('received')
    h.got(m, data)
    vc.ensure_eq('what is returned is the response after the hook', r.value, after(new, data))


@harness('C26', ['modbus.Server._handle'] + CH)
def serving(vc):
    """request and response of a server"""
    w = vc.world()
    asked = []
    reply = vc.bytes('reply', lo=0, hi=None if vc.sym else 300, reps=(0, 1))

    class Bank(object):
        def handle_request(self, query, request):
            asked.append(request)
            return reply
    srv = w.modbus_tcp.TcpServer(databank=Bank()) if vc.flag('tcp') else w.modbus_rtu.RtuServer(Port(vc), databank=Bank())
    if vc.flag('verbose'):
        srv.set_verbose(True)
    request = vc.bytes('request', lo=1, hi=None if vc.sym else 300, reps=(1, 3))
    b = Hook(vc, w, 'modbus.Server.before_handle_request', maybe(vc, 'new request'))
    a = Hook(vc, w, 'modbus.Server.after_handle_request', maybe(vc, 'new response'))
    r = vc.call(srv._handle, request)
    vc.ensure('the request is handled', r.ok and len(asked) == 1, r)
    vc.cover('handled')
    b.got(srv, request)
    a.got(srv, reply)
    vc.ensure_eq('what is handled is the request after the hook', asked[0], after(b.value, request))
    vc.ensure_eq('what is answered is the response after the hook', r.value, after(a.value, reply))


@harness('C26', ['modbus_tcp.TcpServer._do_run'] + CH, weight=2)
def tcp_server(vc):
    """request and response of a connection: a new request is complete by itself"""
    l = vc.int('announced', 1, 65535, make=lambda r: r.randint(1, 300))
    data = vc.tobytes(vc.cat(vc.bytes('ids', n=4), vc.word(l), vc.bytes('rest', n=l)))
    new = None
    if vc.pick('new request returns', ('nothing', 'data')) == 'data':
        l2 = vc.int('new length', 1, 65535, make=lambda r: r.randint(1, 300))
        new = vc.tobytes(vc.cat(vc.bytes('new ids', n=4), vc.word(l2), vc.bytes('new rest', n=l2)))
    reply = vc.bytes('reply', lo=1, hi=None if vc.sym else 300, reps=(1, 3))
    s = Stream(vc, 'a', data)
    a = Sock(vc, 'a', s, no=4)
    sv = Served(vc, [a], lambda k, q: reply)
    rh = Hook(vc, sv.w, 'modbus_tcp.TcpServer.after_recv', new)
    sh = Hook(vc, sv.w, 'modbus_tcp.TcpServer.before_send', maybe(vc, 'new reply'))
    read_hints(vc, s)
    read_limit(vc, s, 6 + l)
    r = sv.step([a])
    vc.ensure('the server goes on', r.ok, r)
    vc.cover('handled')
    vc.ensure('after_recv is called once', len(rh.seen) == 1 and rh.seen[0][:2] == (sv.srv, a), lambda: repr(rh.seen))
    part = rh.seen[0][-1]
    n = vc.len(part)
    vc.ensure('after_recv gets at least the header of the request', vc.and_(n >= 7, n <= 6 + l))
    vc.ensure_eq('after_recv gets what was received', part, vc.sub(data, 0, n))
    vc.ensure('the request is handled once', len(sv.bank.requests) == 1)
    vc.ensure_eq('what is handled is the request after the hook', sv.bank.requests[0], after(new, data))
    sh.got(sv.srv, reply)
    vc.ensure('before_send gets the connection', sh.seen[0][1] is a)
    vc.ensure_eq('what is sent is the reply after the hook', a.sent, after(sh.value, reply))


@harness('C26', ['modbus_tcp.TcpServer._do_run'] + CH, weight=2)
def tcp_server_header(vc):
    """a new beginning of a request is completed from the connection; one too short to tell its length is not handled"""
    l = vc.int('announced', 1, 65535, make=lambda r: r.randint(1, 300))
    data = vc.tobytes(vc.cat(vc.bytes('ids', n=4), vc.word(l), vc.bytes('rest', n=l)))
    l2 = vc.int('new length', 1, 65535, make=lambda r: r.choice((l, l, r.randint(1, 300))))
    short = vc.pick('new request', ('header', 'too short'))
    if short == 'header':
        new = vc.tobytes(vc.cat(vc.bytes('new ids', n=4), vc.word(l2), vc.bytes('new rest', n=1)))
    else:
        new = vc.bytes('short', lo=0, hi=5, reps=(0, 1, 5))
    s = Stream(vc, 'a', data, whole=True)
    a = Sock(vc, 'a', s, no=4)
    sv = Served(vc, [a], lambda k, q: vc.mkbytes([1, 2]))
    rh = Hook(vc, sv.w, 'modbus_tcp.TcpServer.after_recv', new)
    read_hints(vc, s)
    read_limit(vc, s, 6 + l)
    if not vc.conc and short == 'header':
        read_limit(vc, s, 6 + l2)
        vc.hints.contents.append(lambda entry, k: vc.cat(new, vc.sub(s.data, 7, s.pos - 7)))
    r = sv.step([a])
    vc.ensure('the server goes on', r.ok, r)
    vc.ensure('after_recv is called once', len(rh.seen) == 1 and rh.seen[0][:2] == (sv.srv, a), lambda: repr(rh.seen))
    n = vc.len(rh.seen[0][-1])
    if short == 'too short':
        vc.cover('too short')
        vc.ensure('a request replaced by nothing usable is not handled', len(sv.bank.requests) == 0)
        vc.ensure_eq('a request that is not handled is not answered', a.sent, [])
    elif bool(6 + l2 <= 7 + 6 + l - n):
        vc.cover('completed')
        vc.ensure('the request is handled once', len(sv.bank.requests) == 1)
        vc.ensure_eq('what is handled is the request after the hook, completed', sv.bank.requests[0], vc.cat(new, vc.sub(data, n, l2 - 1)))
    else:
        vc.cover('incomplete')
        vc.ensure('an incomplete request is not handled', len(sv.bank.requests) == 0)


@harness('C26', ['modbus_rtu.RtuServer._do_run'] + CH, weight=2)
def rtu_server(vc):
    data = vc.bytes('burst', lo=1, hi=None if vc.sym else 400, reps=(1, 2, 5))
    reply = vc.bytes('reply', lo=1, hi=None if vc.sym else 300, reps=(1, 3)) if vc.flag('answered') else ''
    s = Stream(vc, 'port', data)
    x = Rtu(vc, s, lambda k, q: reply)
    rh = Hook(vc, x.w, 'modbus_rtu.RtuServer.after_read', maybe(vc, 'new request'))
    wh = Hook(vc, x.w, 'modbus_rtu.RtuServer.before_write', maybe(vc, 'new reply'))
    read_hints(vc, s)
    r = x.step()
    x.restored(r, 'after a burst')
    vc.cover('handled')
    rh.got(x.srv, data)
    vc.ensure('the request is handled once', len(x.bank.requests) == 1)
    vc.ensure_eq('what is handled is the request after the hook', x.bank.requests[0], after(rh.value, data))
    if reply != '' or wh.value is not None:
        if reply != '':
            wh.got(x.srv, reply)
        if wh.seen:
            vc.ensure_eq('what is sent is the reply after the hook', x.port.sent, after(wh.value, reply))
    else:
        vc.ensure_eq('nothing is sent', x.port.sent, [])


@harness('C26', ['modbus.Slave.handle_request'] + CH)
def slave(vc):
    """a slave answers what its request hook returns, and processes the request when it returns nothing"""
    w = vc.world()
    sl = w.modbus.Slave(3, vc.flag('unsigned'))
    sl.add_block('b', 3, 10, 4)
    sl.set_values('b', 10, [vc.int('value', 0, 32767), 2, 3, 4])
    v = sl.get_values('b', 10)[0]
    kind = vc.pick('request', ('read', 'write', 'unknown', 'any'))
    pdu = {'read': vc.mkbytes([3, 0, 10, 0, 1]), 'write': vc.mkbytes([6, 0, 10, 0, 9]), 'unknown': vc.mkbytes([99])}.get(kind)
    new = maybe(vc, 'new response')
    if pdu is None:
        pdu = vc.bytes('pdu', lo=0, hi=None if vc.sym else 20, reps=(0, 1, 5))
        vc.assume(new is not None)
    h = Hook(vc, w, 'modbus.Slave.handle_request', new)
    cast = vc.flag('broadcast')
    r = vc.call(sl.handle_request, pdu, cast)
    h.got(sl, pdu)
    now = sl.get_values('b', 10)[0]
    if new is not None:
        vc.cover('replaced')
        vc.ensure('the request is answered', r.ok, r)
        vc.ensure_eq('the answer is what the hook returned', r.value, new)
        vc.ensure('the request itself is not processed', now == v)
        return
    vc.cover('processed')
    vc.ensure('a hook that returns nothing changes nothing (memory)', now == (9 if kind == 'write' else v))
    if cast and kind != 'unknown':
        return
    vc.ensure('the request is answered', r.ok, r)
    want = {'read': [3, 2, v // 256, v % 256], 'write': [6, 0, 10, 0, 9], 'unknown': [99 + 128, 1]}[kind]
    vc.ensure_eq('a hook that returns nothing changes nothing', r.value, want)


POINTS = ('''modbus_rtu.RtuMaster.before_open modbus_rtu.RtuMaster.after_close modbus_rtu.RtuMaster.before_send modbus_rtu.RtuMaster.after_recv
modbus_rtu.RtuServer.before_close modbus_rtu.RtuServer.after_close modbus_rtu.RtuServer.before_open modbus_rtu.RtuServer.after_open
modbus_rtu.RtuServer.after_read modbus_rtu.RtuServer.before_write modbus_rtu.RtuServer.after_write modbus_rtu.RtuServer.on_error
modbus_tcp.TcpMaster.before_connect modbus_tcp.TcpMaster.after_connect modbus_tcp.TcpMaster.before_close modbus_tcp.TcpMaster.after_close
modbus_tcp.TcpMaster.before_send modbus_tcp.TcpServer.after_send modbus_tcp.TcpMaster.after_recv modbus_tcp.TcpServer.on_connect
modbus_tcp.TcpServer.on_disconnect modbus_tcp.TcpServer.after_recv modbus_tcp.TcpServer.before_send modbus_tcp.TcpServer.on_error
modbus_rtu_over_tcp.RtuOverTcpMaster.after_recv modbus.Master.before_send modbus.Master.after_send modbus.Master.after_recv
modbus.Slave.handle_request modbus.Slave.handle_write_multiple_coils_request modbus.Slave.handle_write_multiple_registers_request
modbus.Slave.handle_write_single_register_request modbus.Slave.handle_write_single_coil_request modbus.Slave.handle_read_input_registers_request
modbus.Slave.handle_read_holding_registers_request modbus.Slave.handle_read_discrete_inputs_request modbus.Slave.handle_read_coils_request
modbus.Slave.handle_mask_write_register_request modbus.Slave.handle_read_write_multiple_registers_request
modbus.Slave.handle_read_exception_status_request modbus.Slave.on_handle_broadcast modbus.Slave.on_exception modbus.Databank.on_error
modbus.ModbusBlock.setitem modbus.Server.before_handle_request modbus.Server.after_handle_request modbus.Server.on_exception''').split()


@harness('C26', CH, sym=False)
def watching(vc):
    """a master talking to a server: with hooks at every point that return nothing, nothing changes"""
    from .bank import random_pdu
    frames = vc.given('frames', lambda r: [[r.choice((1, 2, 7, 0)), random_pdu(r)] for _ in range(r.randrange(1, 6))])
    cut = vc.pick('cut', (0, 0, 3))
    proto = vc.pick('protocol', ('tcp', 'rtu'))

    def run(hooked):
        calls = [0]

        def watch(args):
            calls[0] += 1
        raws = []
        if proto == 'tcp':
            for n, (u, p) in enumerate(frames):
                raws.append(struct.pack('>HHHB', n, 0, len(p) + 1, u) + bytes(p))
            data = b''.join(raws)
            net = Net(vc)
            net.stubs
            listen = Sock(vc, 'listen', no=3)
            net.make = lambda k: listen
            w = vc.world(stubs=net.stubs)
            srv = w.modbus_tcp.TcpServer(port=1502)
        else:
            w = vc.world()
            port = Port(vc, stream=Stream(vc, 'port', b'', whole=True))
            srv = w.modbus_rtu.RtuServer(port)
        if hooked:
            for p in POINTS:
                w.hooks.install_hook(p, watch)
        for u in (1, 2):
            sl = srv.add_slave(u)
            for k in (1, 2, 3, 4):
                sl.add_block('b%d' % k, k, 0, 40)
                sl.set_values('b%d' % k, 0, [(u * 7 + j) % 2 for j in range(40)])
        srv._do_init()
        out = []
        if proto == 'tcp':
            s = Stream(vc, 'a', data[:len(data) - cut], whole=True)
            a = Sock(vc, 'a', s, no=4)
            a._vc_net = net
            net.pending.append(a)
            net.ready = lambda r, w, x: [listen]
            srv._do_run()
            for _ in range(len(frames) + 2):
                net.ready = lambda r, w, x: [k for k in r if k is a]
                out.append(vc.call(srv._do_run).ok)
            out.append(bytes(a.sent))
            out.append(a.closed)
        else:
            for u, p in frames:
                f = bytes([u]) + bytes(p)
                f += struct.pack('>H', w.utils.calculate_crc(f))
                port.stream._vc_data, port.stream._vc_n = f[:len(f) - cut], len(f) - cut
                port.stream.pos = port.stream.empties = 0
                out.append(vc.call(srv._do_run).ok)
                out.append(bytes(port.sent))
        for u in (1, 2):
            for k in (1, 2, 3, 4):
                out.append(list(srv.get_slave(u).get_values('b%d' % k, 0, 40)))
        return out, calls[0]
    plain, _ = run(False)
    watched, calls = run(True)
    vc.ensure('the hooks are called', calls > 0)
    vc.ensure_eq('a hook that returns nothing changes nothing', watched, plain)
