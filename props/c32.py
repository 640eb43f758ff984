"""C32: the pymodbus-style client, over the real Master.execute and a link that records."""
from vc.harness import harness
from .common import bit_of, vmin, w16
from .master import Link, FRAME
from .c18 import response, read_judge, judge
from .net import Net, Sock, Stream

CL = 'pymodbusclient.PyModbusClientTCP.'
EX = 'modbus.Master.execute'


def make_client(vc, answer):
    """(client, link, world): the master of the client talks to a link that records and answers"""
    w = vc.world()
    link = Link()

    class Q(object):
        def build_request(self, pdu, slave):
            link._vc_pdus.append(pdu)
            link._vc_units.append(slave)
            return FRAME

        def parse_response(self, response):
            return response

    T = w.modbus_tcp.TcpMaster
    T._do_open = lambda self: None
    T._do_close = lambda self: True
    link._vc_lost = vc.flag('the link is lost while sending')

    def send(self, request):
        link._vc_sent.append(request)
        if link._vc_lost:
            raise OSError(104, 'reset')
    T._send = send
    T._recv = lambda self, expected_length=-1: answer
    T._make_query = lambda self: Q()
    return w.pymodbusclient.PyModbusClientTCP('plc', 1502, 2.0), link, w


def one_request(vc, r, link, pdu):
    """exactly one request, this one, for unit 1; is there an answer to it?"""
    vc.ensure('exactly one request is issued', len(link.sent) == 1 and len(link.pdus) == 1, lambda: '%d requests, %r' % (len(link.sent), r))
    vc.ensure('the request is for unit 1', link.units[0] == 1)
    vc.ensure_eq('the request is the given one', link.pdus[0], pdu)
    if link._vc_lost:
        vc.cover('lost')
        vc.ensure('a request that is not answered fails', not r.ok, r)
    return not link._vc_lost


def one_of(vc, c, *names):
    return getattr(c, vc.pick('method', names))


def bits(vc, name, fc):
    a = vc.int('address', 0, 65535)
    if vc.flag('quantity given'):
        q = vc.size('quantity', 0, 65535, reps=(0, 1, 7, 8, 9, 16, 17), make=lambda r: r.choice((1, 2, 7, 8, 9, 16, r.randrange(2001))))
        args = (a, q)
    else:
        q, args = 1, (a,)
    nb = (q + 7) // 8
    resp = response(vc, fc, lambda r: [nb & 255] + [r.randrange(256) for _ in range(nb)])
    bit = lambda i: bit_of(vc, resp, i + 16)
    if not vc.conc:
        h = vc.hints
        h.contents.append(lambda entry, k: vc.cat(entry, vc.fn(vmin(vc, 8 * k, q), bit)))
        h.contents.append(lambda entry, k: vc.cat(entry, vc.fn(k, bit)))
    c, link, w = make_client(vc, resp)
    r = vc.call(getattr(c, name), *args)
    if not one_request(vc, r, link, vc.cat([fc], vc.word(a), vc.word(q))):
        return
    read_judge(vc, r, w.modbus, resp, fc, nb, False, lambda: vc.ensure_eq('the bits of the response are returned, in order', r.value, vc.fn(q, bit)))


@harness('C32', [CL + 'read_coils', EX], weight=2)
def read_coils(vc):
    bits(vc, 'read_coils', 1)


@harness('C32', [CL + 'read_discrete_inputs', EX], weight=2)
def read_discrete_inputs(vc):
    bits(vc, 'read_discrete_inputs', 2)


@harness('C32', [CL + 'read_input_registers', EX])
def read_input_registers(vc):
    a = vc.int('address', 0, 65535)
    if vc.flag('quantity given'):
        q = vc.size('quantity', 0, 65535, reps=(0, 1, 2, 3), make=lambda r: r.choice((1, 2, 3, r.randrange(130))))
        args = (a, q)
    else:
        q, args = 1, (a,)
    resp = response(vc, 4, lambda r: [2 * q & 255] + [r.randrange(256) for _ in range(2 * q)])
    c, link, w = make_client(vc, resp)
    r = vc.call(c.read_input_registers, *args)
    if not one_request(vc, r, link, vc.cat([4], vc.word(a), vc.word(q))):
        return
    read_judge(vc, r, w.modbus, resp, 4, 2 * q, False,
               lambda: vc.ensure_eq('the words of the response are returned, in order', r.value, vc.fn(q, lambda i: w16(vc, resp, 2 + 2 * i))))


@harness('C32', [CL + 'write_single_register', CL + 'write_single_coil', EX])
def writes(vc):
    fc = vc.pick('function', (5, 6))
    a = vc.int('address', 0, 65535)
    if fc == 6:
        v = vc.int('value', -100000, 200000, near=(0, 1, -1, -32768, -32769, 65535, 65536))
        if bool(vc.or_(v < -32768, v > 65535)):
            c, link, w = make_client(vc, vc.mkbytes([6, 0, 0, 0, 0]))
            r = vc.call(c.write_single_register, a, v)
            vc.cover('no word')
            vc.ensure('a value that no request can carry is refused', not r.ok, r)
            vc.ensure('nothing is sent for it', len(link.sent) == 0)
            return
        word = vc.word(vc.ite(v < 0, v + 65536, v))
    elif vc.flag('boolean'):
        v = vc.flag('value')
        word = [0xff if v else 0, 0]
    else:
        v = vc.int('value', 0, 65535, near=(0, 1, 2, 0xff00))
        word = [vc.ite(v != 0, 0xff, 0), 0]
    resp = response(vc, fc, lambda r: [r.randrange(256) for _ in range(4)])
    c, link, w = make_client(vc, resp)
    if fc == 6:
        r = vc.call(c.write_single_register, a, v)
    else:
        r = vc.call(c.write_single_coil, a, v, *vc.pick('quantity', ((), (1,), (0,), (2,), (300,))))
    if not one_request(vc, r, link, vc.cat([fc], vc.word(a), word)):
        return

    def matching(n):
        if bool(n == 5):
            vc.cover('acknowledged')
            vc.ensure('an acknowledged write succeeds', r.ok, r)
    judge(vc, r, w.modbus, resp, fc, matching)


@harness('C32', [CL + '__init__', CL + 'open', CL + 'is_open', CL + 'close', 'modbus_tcp.TcpMaster.__init__', 'modbus_tcp.TcpMaster._do_open'])
def connection(vc):
    """any of the settings given or left out"""
    net = Net(vc)
    w = vc.world(stubs=net.stubs)
    kw, want = {}, {'host': '127.0.0.1', 'port': 502, 'timeout': 5.0}
    if vc.flag('host given'):
        kw['host'] = want['host'] = 'plc'
    if vc.flag('port given'):
        kw['port'] = want['port'] = vc.int('port', 1, 65535)
    if vc.flag('timeout given'):
        kw['timeout'] = want['timeout'] = vc.real('timeout', above=0, hi=None if vc.sym else 30.0)
    if vc.flag('another setting'):
        kw['unit_id'] = 3
    r = vc.call(w.pymodbusclient.PyModbusClientTCP, **kw)
    vc.ensure('a client can be made', r.ok, r)
    c = r.value
    vc.ensure('making a client does not connect', len(net.made) == 0)
    refused = vc.flag('refused')
    if refused:
        e = OSError(111, 'Connection refused')

        def make(k):
            s = Sock(vc, 'link')
            s._vc_fail['connect'] = e
            return s
        net.make = make
    r = vc.call(c.open)
    vc.ensure('one connection is made', len(net.made) == 1, r)
    s = net.made[0]
    if refused:
        vc.cover('refused')
        vc.ensure('a refused connection is reported', not r.ok, r)
        vc.ensure('a refused connection is not open', not bool(c.is_open()))
        return
    vc.cover('connected')
    vc.ensure('the client opens its connection', r.ok, r)
    vc.ensure('the connection goes to the given host', s.peer is not None and s.peer[0] == want['host'], lambda: repr(s.peer))
    vc.ensure('the connection goes to the given port', s.peer[1] == want['port'], lambda: repr(s.peer))
    vc.ensure('the connection has the given timeout', s.timeout == want['timeout'], lambda: repr(s.timeout))
    vc.ensure('the client is open', bool(c.is_open()))
    r = vc.call(c.close)
    vc.ensure('the client closes its connection', r.ok and bool(s.closed), r)
    vc.ensure('the client is not open any more', not bool(c.is_open()))
    vc.ensure('no other connection was made', len(net.made) == 1)


@harness('C32', [CL + 'read_coils', CL + 'read_input_registers', CL + 'write_single_register', CL + 'write_single_coil'], sym=False)
def history(vc):
    """the client against the real server code over stand-in frames: reads return what writes stored"""
    w = vc.world()
    slave = w.modbus.Databank(True).add_slave(1)
    lay = {'c': (1, 'read_coils'), 'd': (2, 'read_discrete_inputs'), 'i': (4, 'read_input_registers'), 'h': (3, None)}
    mem = {}
    for n, (kind, _) in lay.items():
        slave.add_block(n, kind, 0, 300)
        mem[n] = vc.given('memory ' + n, lambda r, kind=kind: [r.randrange(2 if kind < 3 else 65536) for _ in range(300)])
        slave.set_values(n, 0, mem[n])
    seen = []

    class Q(object):
        def build_request(self, pdu, unit):
            seen.append(unit)
            return pdu

        def parse_response(self, resp):
            return resp

    reply = []
    T = w.modbus_tcp.TcpMaster
    T._do_open = lambda self: None
    T._do_close = lambda self: True
    T._send = lambda self, request: reply.append(slave.handle_request(request))
    T._recv = lambda self, expected_length=-1: reply.pop()
    T._make_query = lambda self: Q()
    c = w.pymodbusclient.PyModbusClientTCP('plc', 502)
    for step in range(8):
        what, a, q, v = vc.given('step%d' % step, lambda r: [r.choice(('c', 'd', 'i', 'wc', 'wr')), r.randrange(320), r.choice((1, 2, 8, 9, 30, 125)), r.randrange(65536)])
        del seen[:]
        if what in lay:
            r = vc.call(getattr(c, lay[what][1]), a, q)
            if a + q <= 300:
                vc.ensure('a read returns the values of the slave', r.ok and list(r.value) == mem[what][a:a + q], lambda: '%s %d %d: %r' % (what, a, q, r))
        else:
            b, f, val = ('c', c.write_single_coil, v & 1) if what == 'wc' else ('h', c.write_single_register, v)
            r = vc.call(f, a, val)
            if a < 300:
                vc.ensure('a write is accepted', r.ok, r)
                mem[b][a] = val
        vc.ensure('every operation issues one request, for unit 1', seen == [1], lambda: repr(seen))
    for n in lay:
        vc.ensure('the slave holds what was written', list(slave.get_values(n, 0, 300)) == mem[n])
