"""C34: the hook points that report events are called when their event happens, with their documented arguments."""
from vc.harness import harness
from .common import Memory, make_slave, pdu_of, KINDS, COILS, DISCRETE_INPUTS, HOLDING_REGISTERS, ANALOG_INPUTS
from .net import Sock, Stream, Port, Net, Bank, read_hints, excs, LinkError
from .c09 import SUPPORTED
from .c20 import Served
from .c24 import Rtu

HR = 'modbus.Slave.handle_request'
CH = ['hooks.install_hook', 'hooks.call_hooks']
NAMES = {1: 'read_coils', 2: 'read_discrete_inputs', 3: 'read_holding_registers', 4: 'read_input_registers', 5: 'write_single_coil', 6: 'write_single_register',
         7: 'read_exception_status', 15: 'write_multiple_coils', 16: 'write_multiple_registers', 22: 'mask_write_register', 23: 'read_write_multiple_registers'}
FNS = {1: '_read_coils', 2: '_read_discrete_inputs', 3: '_read_holding_registers', 4: '_read_input_registers', 5: '_write_single_coil', 6: '_write_single_register',
       7: '_read_exception_status', 15: '_write_multiple_coils', 16: '_write_multiple_registers', 22: '_mask_write_register', 23: '_read_write_multiple_registers'}
KIND = {1: COILS, 2: DISCRETE_INPUTS, 3: HOLDING_REGISTERS, 4: ANALOG_INPUTS, 5: COILS, 15: COILS}


class Events(object):
    """every call of the hook points of interest, in order"""
    def __init__(self, vc, w, names, at=None):
        self.vc, self.seen, self.at = vc, [], at
        for n in names:
            w.hooks.install_hook(n, lambda a, n=n: self.call(n, a))

    def call(self, name, args):
        self.seen.append((name, args))
        if self.at is not None:
            self.at(name)

    def of(self, name):
        return [a for n, a in self.seen if n == name]

    def names(self):
        return [n.split('.', 1)[1] for n, a in self.seen]

    def once(self, name, *want):
        """called once, with exactly these arguments (callables check, everything else is compared by identity or value)"""
        vc = self.vc
        got = self.of(name)
        vc.ensure('%s is called exactly once' % name, len(got) == 1, lambda: '%d calls' % len(got))
        a = got[0]
        vc.ensure('%s gets its documented arguments' % name, isinstance(a, tuple) and len(a) == len(want), lambda: repr(a))
        for x, y in zip(a, want):
            if callable(y):
                y(x)
            elif vc.is_bytes(y):
                vc.ensure_eq('%s gets the data' % name, x, y)
            else:
                vc.ensure('%s gets its documented arguments' % name, x is y or (isinstance(y, (int, tuple)) and x == y), lambda: repr(a))

    def never(self, *names):
        for n in names:
            self.vc.ensure('%s is not called without its event' % n, not self.of(n), lambda: repr(self.of(n)))


SLAVE = ['modbus.Slave.handle_%s_request' % n for n in NAMES.values()]


def slave(vc, fc):
    w = vc.world()
    unsigned = vc.pick('unsigned', (True, False))
    broadcast = vc.pick('broadcast', (False, True))
    anyval = (None, None) if vc.sym else (-3, 70000)
    kind = KIND.get(fc, HOLDING_REGISTERS)
    values = {COILS: anyval, DISCRETE_INPUTS: anyval, HOLDING_REGISTERS: ('bv', 16, not unsigned), ANALOG_INPUTS: ('bv', 16, not unsigned)}
    mem = Memory(vc, w, kinds=(kind,) if fc not in ('other', 'empty') else KINDS, values=values, focus=(kind,), small=True)
    sl = make_slave(vc, w, mem, unsigned)
    f = None
    if fc == 'empty':
        pdu = pdu_of(vc)
    elif fc == 'other':
        f = vc.int('fc', 0, 255, bv=8)
        vc.assume(vc.and_(*[f != k for k in SUPPORTED]))
        pdu = pdu_of(vc, [f], vc.bytes('body', lo=0, hi=None if vc.sym else 9, reps=(0, 4)))
    else:
        f = fc
        body = None
        if vc.conc and fc != 7 and vc.pick('aimed', (True, True, False)):
            # concrete runs: mostly requests that are well formed
            start, q = mem.range(kind, 'quantity', 'start', 1, {1: 60, 2: 60, 15: 60}.get(fc, 20))
            v = vc.pick('value', (0, 0xff00, 5))
            n = (q + 7) // 8 if fc == 15 else 2 * q
            body = {1: [vc.word(start), vc.word(q)], 5: [vc.word(start), vc.word(v)], 22: [vc.word(start), vc.word(v), vc.word(3)],
                    15: [vc.word(start), vc.word(q), [n], vc.bytes('data', n=n)], 23: [vc.word(start), vc.word(q), vc.word(start), vc.word(q), [n], vc.bytes('data', n=n)]}
            body[2] = body[3] = body[4] = body[1]
            body[6], body[16] = body[5], body[15]
            pdu = pdu_of(vc, [fc], *body[fc])
        else:
            pdu = pdu_of(vc, [fc], vc.bytes('body', lo=0, hi=None if vc.sym else 12, reps=(0, 4, 5)))

    def at(name):
        if name in SLAVE or name == 'modbus.Slave.handle_request':
            mem.frame('a request is reported before it changes anything')
    ev = Events(vc, w, SLAVE + ['modbus.Slave.' + n for n in ('handle_request', 'on_exception', 'on_handle_broadcast')], at)
    r = vc.call(sl.handle_request, pdu, broadcast)
    vc.cover('handled')
    ev.once('modbus.Slave.handle_request', sl, pdu)
    own = 'modbus.Slave.handle_%s_request' % NAMES[fc] if fc in NAMES else None
    ev.never(*[n for n in SLAVE if n != own])
    if own and not (broadcast and fc in (1, 2, 3, 4)):
        ev.once(own, sl, pdu)
        vc.ensure('the request is reported before its function', ev.names()[:2] == ['Slave.handle_request', own.split('.', 1)[1]], lambda: repr(ev.names()))
    elif own:
        ev.never(own)
    refused = r.ok and vc.is_bytes(r.value) and bool(vc.len(r.value) == 2) and f is not None and bool(vc.at(r.value, 0) == (f | 0x80)) and bool(vc.at(r.value, 1) <= 3)
    if fc == 7 and not broadcast and not refused:
        return
    if refused:
        vc.cover('refused')

        def code(e):
            vc.ensure('on_exception gets the error', isinstance(e, w.load('exceptions').ModbusError) and bool(e.get_exception_code() == vc.at(r.value, 1)), lambda: repr(e))

        def func(x):
            vc.ensure('on_exception gets the function code', x == f, lambda: repr(x))
        ev.once('modbus.Slave.on_exception', sl, func, code)
        ev.never('modbus.Slave.on_handle_broadcast')
    else:
        ev.never('modbus.Slave.on_exception')
        if broadcast and r.ok:
            vc.cover('broadcast')

            def reply(p):
                vc.ensure('on_handle_broadcast gets the reply', vc.is_bytes(p) and bool(vc.len(p) >= 1), lambda: repr(p))
            ev.once('modbus.Slave.on_handle_broadcast', sl, reply)
        else:
            ev.never('modbus.Slave.on_handle_broadcast')


def make(fc):
    @harness('C34', [HR] + (['modbus.Slave.' + FNS[fc]] if fc in FNS else []) + CH, name='slave_fc_%s' % fc)
    def h(vc):
        slave(vc, fc)


for _fc in SUPPORTED + ('other', 'empty'):
    make(_fc)


@harness('C34', ['modbus.ModbusBlock.__setitem__'] + CH)
def block(vc):
    """every assignment to a block is reported"""
    w = vc.world()
    n = vc.int('size', 1, None if vc.sym else 50)
    b = w.modbus.ModbusBlock(vc.int('start', 0, 65535), n, 'b')
    i = vc.int('item', 0, None if vc.sym else 49)
    vc.assume(i < n)
    v = vc.int('value', -5, 70000)
    ev = Events(vc, w, ['modbus.ModbusBlock.setitem'])
    b[i] = v
    vc.cover('assigned')
    vc.ensure('setitem is called exactly once', len(ev.seen) == 1)
    a = ev.seen[0][1]
    vc.ensure('setitem gets its documented arguments', isinstance(a, tuple) and len(a) == 3 and a[0] is b and bool(a[1] == i) and bool(a[2] == v), lambda: repr(a))
    vc.ensure('the item is assigned', b[i] == v)


@harness('C34', ['modbus.ModbusBlock.__setitem__', 'modbus.Slave.set_values', HR], sym=False)
def reported(vc):
    """the assignments reported turn the old content of the blocks into the new one"""
    from .bank import random_pdu
    w = vc.world()
    sl = w.modbus.Slave(1, vc.flag('unsigned'))
    blocks = {}
    for k in KINDS:
        sl.add_block('b%d' % k, k, 0, 40)
    ops = vc.given('operations', lambda r: [['local', r.choice(KINDS), r.randrange(0, 41), [r.randrange(0, 2000) for _ in range(r.randrange(1, 9))]] if r.random() < 0.4 else
                                            ['remote', random_pdu(r)] for _ in range(r.randrange(1, 8))])
    shadow, order = {}, []

    def on(a):
        b, item, value = a
        s = shadow.setdefault(id(b), [0] * 40)
        order.append(b)
        s[item] = list(value) if isinstance(item, slice) else value
    w.hooks.install_hook('modbus.ModbusBlock.setitem', on)
    for op in ops:
        if op[0] == 'local':
            vc.call(sl.set_values, 'b%d' % op[1], op[2], op[3])
        else:
            vc.call(sl.handle_request, bytes(op[1]), vc.flag('broadcast'))
    have = sorted(list(sl.get_values('b%d' % k, 0, 40)) for k in KINDS)
    want = sorted([shadow.get(i, [0] * 40) for i in {id(b) for b in order}] + [[0] * 40] * (4 - len({id(b) for b in order})))
    vc.ensure_eq('the assignments reported account for every change', want, have)


@harness('C34', ['modbus_tcp.TcpMaster._send', 'modbus_tcp.TcpMaster._do_open', 'modbus_tcp.TcpMaster._do_close'] + CH)
def tcp_link_lost(vc):
    """a TCP master that lost its connection: the new connection is reported as well"""
    net = Net(vc, max_socks=6)
    log = []

    def mk(k):
        s = Sock(vc, 'sock%d' % k, Stream(vc, 'sock%d' % k, end='timeout'), no=3 + k)
        s._vc_fail['connect'] = lambda sock: log.append('connect') and None
        return s
    net.make = mk
    net.ready = lambda r, w, x: [s for s in r if s.stream._vc_end != 'timeout']
    w = vc.world(stubs=net.stubs)
    m = (w.modbus_tcp.TcpMaster if vc.flag('tcp') else w.modbus_rtu_over_tcp.RtuOverTcpMaster)('10.0.0.1', 502, 1.0)
    ev = Events(vc, w, ['modbus_tcp.TcpMaster.' + n for n in ('before_connect', 'after_connect')], lambda n: log.append(n.split('.')[2]))
    vc.call(m.open)
    for n in range(vc.pick('times', (1, 2))):
        log[:] = []
        ev.seen[:] = []
        net.made[-1].stream._vc_end = vc.pick('lost', ('eof', 'reset'))
        r = vc.call(m._send, vc.mkbytes([1, 2, 3]))
        vc.ensure('the request goes out on a new connection', r.ok and len(net.made) == n + 2, r)
        vc.ensure('connecting is reported before and after', log == ['before_connect', 'connect', 'after_connect'], lambda: repr(log))
        for h in ('before_connect', 'after_connect'):
            ev.once('modbus_tcp.TcpMaster.' + h, m)
        vc.cover('reconnected')


@harness('C34', [HR] + CH)
def refused_with(vc):
    """a request refused with any exception code"""
    w = vc.world()
    code = vc.int('code', 1, 127)
    unsigned = vc.flag('unsigned')
    fc = vc.pick('function', (1, 3, 6, 16))
    sl = w.modbus.Slave(1, unsigned)
    error = w.load('exceptions').ModbusError(code)

    def fails(a):
        raise error
    w.hooks.install_hook('modbus.Slave.handle_%s_request' % NAMES[fc], fails)
    ev = Events(vc, w, ['modbus.Slave.on_exception', 'modbus.Slave.on_handle_broadcast'])
    r = vc.call(sl.handle_request, vc.mkbytes([fc, 0, 0, 0, 1, 2, 0, 0]))
    vc.ensure('the request is refused', r.ok, r)
    vc.ensure_eq('the request is refused with the code', r.value, [fc + 128, code])
    vc.cover('refused')
    ev.once('modbus.Slave.on_exception', sl, fc, error)
    ev.never('modbus.Slave.on_handle_broadcast')


@harness('C34', ['modbus.Databank.handle_request'] + CH)
def broadcast_errors(vc):
    """a broadcast that several slaves fail to carry out: every error is reported"""
    w = vc.world()
    db = w.modbus.Databank()
    n = vc.pick('slaves', (1, 2, 3))
    errors, ran = {}, []

    class S(w.modbus.Slave):
        def handle_request(self, request, broadcast=False):
            ran.append(self)
            if id(self) in errors:
                raise errors[id(self)]
            return vc.mkbytes([1])
    slaves = []
    for k in range(n):
        sl = db.add_slave(k + 1)
        sl.__class__ = S
        slaves.append(sl)
        if vc.flag('fails'):
            errors[id(sl)] = LinkError('x%d' % k)

    class Q(object):
        def parse_request(self, request):
            return 0, vc.mkbytes([6, 0, 0, 0, 1])

        def build_response(self, p):
            return p
    ev = Events(vc, w, ['modbus.Databank.on_error'])
    r = vc.call(db.handle_request, Q(), vc.mkbytes([9]))
    vc.ensure('handling a request raises nothing', r.ok, r)
    vc.ensure('every slave gets the broadcast', len(ran) == n and all(s in ran for s in slaves))
    vc.cover('handled')
    got = ev.of('modbus.Databank.on_error')
    vc.ensure('every error is reported once', len(got) == len(errors) and all(any(a[1] is e for a in got) for e in errors.values()), lambda: repr(got))
    for a in got:
        vc.ensure('on_error gets its documented arguments', len(a) == 3 and a[0] is db)
        vc.ensure_eq('on_error gets the request', a[2], [6, 0, 0, 0, 1])


def refuse(vc):
    return vc.pick('outcome', (None, 'refused', 'timeout'))


@harness('C34', ['modbus_tcp.TcpMaster._do_open', 'modbus_tcp.TcpMaster._do_close', 'modbus.Master.open', 'modbus.Master.close'] + CH)
def tcp_link(vc):
    """connecting and closing of a TCP master"""
    net = Net(vc, max_socks=6)
    log = []
    out = {'v': None}

    def mk(k):
        s = Sock(vc, 'sock%d' % k, Stream(vc, 'sock%d' % k, end='timeout'), no=3 + k)
        s._vc_fail['connect'] = lambda sock: log.append('connect') or (excs('reset') if out['v'] else None)
        s._vc_fail['close'] = lambda sock: log.append('close') and None
        return s
    net.make = mk
    w = vc.world(stubs=net.stubs)
    m = (w.modbus_tcp.TcpMaster if vc.flag('tcp') else w.modbus_rtu_over_tcp.RtuOverTcpMaster)('10.0.0.1', 502, 1.0)
    ev = Events(vc, w, ['modbus_tcp.TcpMaster.' + n for n in ('before_connect', 'after_connect', 'before_close', 'after_close')], lambda n: log.append(n.split('.')[2]))
    out['v'] = refuse(vc)
    r = vc.call(m.open)
    if out['v']:
        vc.ensure('a failed connection is reported as begun only', [x for x in log if x != 'close'] == ['before_connect', 'connect'], lambda: repr(log))
        out['v'] = None
        log[:] = []
        ev.seen[:] = []
        r = vc.call(m.open)
    vc.ensure('opening succeeds', r.ok, r)
    vc.ensure('connecting is reported before and after', [x for x in log if x != 'close'] == ['before_connect', 'connect', 'after_connect'], lambda: repr(log))
    for n in ('before_connect', 'after_connect'):
        ev.once('modbus_tcp.TcpMaster.' + n, m)
    log[:] = []
    r = vc.call(m.open)
    vc.ensure('opening an open master reports nothing', r.ok and not log)
    r = vc.call(m.close)
    vc.ensure('closing is reported before and after', r.ok and log == ['before_close', 'close', 'after_close'], lambda: repr(log))
    for n in ('before_close', 'after_close'):
        ev.once('modbus_tcp.TcpMaster.' + n, m)
    vc.cover('closed')
    log[:] = []
    r = vc.call(m.close)
    vc.ensure('closing a closed master reports nothing', r.ok and not log, lambda: repr(log))


@harness('C34', ['modbus_rtu.RtuMaster._do_open', 'modbus_rtu.RtuMaster._do_close', 'modbus.Master.open', 'modbus.Master.close'] + CH)
def rtu_link(vc):
    """opening and closing of a serial master"""
    w = vc.world()
    port = Port(vc, is_open=vc.flag('port is open'))
    log = []
    port._vc_fail['open'] = lambda p: log.append('open') and None
    port._vc_fail['close'] = lambda p: log.append('close') and None
    m = w.modbus_rtu.RtuMaster(port)
    ev = Events(vc, w, ['modbus_rtu.RtuMaster.before_open', 'modbus_rtu.RtuMaster.after_close'], lambda n: log.append(n.split('.')[2]))
    was = port.is_open
    r = vc.call(m.open)
    vc.ensure('opening is reported before it happens', r.ok and log == ([] if was else ['before_open', 'open']), lambda: repr(log))
    if not was:
        ev.once('modbus_rtu.RtuMaster.before_open', m)
    log[:] = []
    r = vc.call(m.close)
    vc.ensure('closing is reported after it happened', r.ok and log == ['close', 'after_close'], lambda: repr(log))
    ev.once('modbus_rtu.RtuMaster.after_close', m)
    log[:] = []
    r = vc.call(m.close)
    vc.ensure('closing a closed master reports nothing', r.ok and not log, lambda: repr(log))
    vc.cover('closed')


@harness('C34', ['modbus_rtu.RtuServer._do_init', 'modbus_rtu.RtuServer._do_exit', 'modbus_rtu.RtuServer.close'] + CH)
def rtu_server_link(vc):
    """opening and closing of the port of a serial server"""
    w = vc.world()
    port = Port(vc, is_open=vc.flag('port is open'))
    log = []
    port._vc_fail['open'] = lambda p: log.append('open') and None
    port._vc_fail['close'] = lambda p: log.append('close') and None
    srv = w.modbus_rtu.RtuServer(port, databank=Bank(vc, lambda k, q: ''))
    N = ['modbus_rtu.RtuServer.' + n for n in ('before_open', 'after_open', 'before_close', 'after_close')]
    ev = Events(vc, w, N, lambda n: log.append(n.split('.')[2]))
    was = port.is_open
    r = vc.call(srv._do_init)
    vc.ensure('opening is reported before and after', r.ok and log == ([] if was else ['before_open', 'open', 'after_open']), lambda: repr(log))
    for n in N[:0 if was else 2]:
        ev.once(n, srv)
    log[:] = []
    r = vc.call(vc.pick('closed by', (srv.close, srv._do_exit)))
    vc.ensure('closing is reported before and after', r.ok and log == ['before_close', 'close', 'after_close'], lambda: repr(log))
    for n in N[2:]:
        ev.once(n, srv)
    log[:] = []
    r = vc.call(srv.close)
    vc.ensure('closing a closed port reports nothing', r.ok and not log, lambda: repr(log))
    vc.cover('closed')


TCPS = ['modbus_tcp.TcpServer.' + n for n in ('on_connect', 'on_disconnect', 'after_send', 'on_error')]


def frame_of(vc, name):
    return vc.tobytes(vc.cat(vc.bytes(name + '.ids', n=4), vc.word(2), vc.bytes(name + '.rest', n=2)))


@harness('C34', ['modbus_tcp.TcpServer._do_run'] + CH)
def tcp_server(vc):
    """connections, replies, disconnections and errors of a TCP server"""
    what = vc.pick('event', ('reply', 'no reply', 'connect', 'disconnect', 'receive fails', 'send fails', 'accept fails', 'handling fails'))
    reply = vc.bytes('reply', lo=1, hi=None if vc.sym else 30, reps=(1, 3))
    end = {'receive fails': 'reset'}.get(what, 'eof')
    data = frame_of(vc, 'a') if what not in ('disconnect', 'receive fails') else None
    s = Stream(vc, 'a', data, end) if data is not None else Stream(vc, 'a', end=end)
    a, b = Sock(vc, 'a', s, no=4), Sock(vc, 'b', no=5)

    def answer(k, q):
        if what == 'handling fails':
            raise LinkError('handling failed')
        return reply if what != 'no reply' else ''
    sv = Served(vc, [a, b], answer)
    if what == 'send fails':
        a._vc_fail = {'sendall': excs('broken'), 'send': excs('broken')}

    def at(name):
        if name.endswith('on_disconnect'):
            vc.ensure('a disconnection is reported before the connection is closed', not a.closed)
        if name.endswith('after_send'):
            vc.ensure_eq('a reply is reported after it was sent', a.sent, reply)
    ev = Events(vc, sv.w, TCPS, at)
    P = 'modbus_tcp.TcpServer.'
    if what in ('connect', 'accept fails'):
        c = Sock(vc, 'c', no=6)
        c._vc_net = sv.net
        sv.net.pending.append(c)
        if what == 'accept fails':
            sv.listen._vc_fail = {'accept': excs('reset')}
        r = sv.step([sv.listen])
    else:
        read_hints(vc, s)
        r = sv.step([a])
    vc.ensure('the server goes on', r.ok, r)
    vc.cover('an event')
    anyone = lambda x: None
    an_error = lambda e: vc.ensure('on_error gets the error', isinstance(e, Exception), lambda: repr(e))
    if what == 'connect':
        ev.once(P + 'on_connect', sv.srv, c, anyone)
    elif what == 'accept fails':
        ev.once(P + 'on_error', sv.srv, sv.listen, an_error)
    elif what == 'disconnect':
        ev.once(P + 'on_disconnect', sv.srv, a)
    elif what == 'receive fails':
        ev.once(P + 'on_error', sv.srv, a, an_error)
    elif what == 'reply':
        ev.once(P + 'after_send', sv.srv, a, reply)
    want = {'connect': 'on_connect', 'accept fails': 'on_error', 'disconnect': 'on_disconnect', 'receive fails': 'on_error', 'reply': 'after_send'}.get(what)
    ev.never(*[n for n in TCPS if n.split('.')[2] != want])


RTUS = ['modbus_rtu.RtuServer.after_write', 'modbus_rtu.RtuServer.on_error']


@harness('C34', ['modbus_rtu.RtuServer._do_run'] + CH)
def rtu_server(vc):
    """replies and errors of a serial server"""
    what = vc.pick('event', ('reply', 'no reply', 'silence', 'handling fails', 'write fails'))
    data = vc.bytes('burst', n=0) if what == 'silence' else vc.bytes('burst', lo=1, hi=None if vc.sym else 100, reps=(1, 3))
    reply = vc.bytes('reply', lo=1, hi=None if vc.sym else 100, reps=(1, 3)) if what == 'reply' else ''
    error = LinkError('handling failed')

    def answer(k, q):
        if what == 'handling fails':
            raise error
        return reply if what != 'write fails' else vc.mkbytes([1, 2])
    s = Stream(vc, 'port', data)
    x = Rtu(vc, s, answer)
    if what == 'write fails':
        error = x.port._vc_fail['write'] = excs('oserror')

    def at(name):
        if name.endswith('after_write') and what == 'reply':
            vc.ensure_eq('a reply is reported after it was sent', x.port.sent, reply)
    ev = Events(vc, x.w, RTUS, at)
    read_hints(vc, s)
    r = x.step()
    vc.ensure('the server goes on', r.ok, r)
    vc.cover('an event')
    if what in ('handling fails', 'write fails'):
        ev.once(RTUS[1], x.srv, error)
        ev.never(RTUS[0])
        return
    ev.never(RTUS[1])
    if what == 'silence':
        ev.never(RTUS[0])
    elif what == 'reply':
        ev.once(RTUS[0], x.srv, reply)


@harness('C34', ['modbus.Databank.handle_request'] + CH)
def databank(vc):
    """an error of a slave that handles a request is reported by its databank"""
    w = vc.world()
    db = w.modbus.Databank()
    unit = vc.pick('unit', (0, 1, 2))
    e = w.load('exceptions')
    outcome = vc.pick('outcome', ('error', 'reply', 'invalid'))
    error = LinkError('x')
    pdu = vc.bytes('pdu', lo=0, hi=None if vc.sym else 20, reps=(0, 1, 5))

    class S(w.modbus.Slave):
        def handle_request(self, request, broadcast=False):
            if outcome == 'error':
                raise error
            if outcome == 'invalid':
                raise w.modbus.ModbusInvalidRequestError('x')
            return vc.mkbytes([1])
    sl = db.add_slave(1)
    sl.__class__ = S

    class Q(object):
        def parse_request(self, request):
            return unit, pdu

        def build_response(self, p):
            return p
    ev = Events(vc, w, ['modbus.Databank.on_error'])
    r = vc.call(db.handle_request, Q(), vc.mkbytes([9]))
    vc.ensure('handling a request raises nothing', r.ok, r)
    vc.cover('handled')
    if outcome == 'error' and unit != 2:
        ev.once('modbus.Databank.on_error', db, error, pdu)
    elif unit == 1 or outcome == 'reply':
        ev.never('modbus.Databank.on_error')
