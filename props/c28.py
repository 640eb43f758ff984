"""C28: calls on a master are serialised and always let go of the lock."""
import struct
from vc.harness import harness
from vc.shims import GhostLock
from .master import FRAME

EX = ['modbus.Master.execute', 'utils.threadsafe_function']


class Abort(BaseException):
    """what is not an Exception: an interrupt"""


class Problem(Exception):
    pass


PROBLEMS = (Problem, ValueError, KeyError, IndexError, TypeError, AttributeError, OSError, TimeoutError, StopIteration, RuntimeError, AssertionError, struct.error)


class Busy(object):
    """which locks are held from sending to receiving"""

    def __init__(self, vc, w):
        self.vc, self.w = vc, w
        self.since = None           # locks held without interruption since the request was sent
        self.sections = []
        self.sends = self.receives = 0
        GhostLock.monitor = self.event

    def event(self, what, lock):
        if what == 'release' and self.since is not None:
            self.since = [l for l in self.since if l is not lock]

    def held(self):
        return [l for l in self.w.locks if l.depth > 0]

    def sent(self):
        self.sends += 1
        self.since = self.held()

    def received(self):
        self.receives += 1
        self.sections.append(self.since or [])
        self.since = None

    def free(self, label):
        for l in self.w.locks:
            self.vc.ensure(label, not l.locked())


def elsewhere(vc, w, f):
    """another thread runs f now: its outcome; it would wait when it needs a lock that is held"""
    mine = [l for l in w.locks if l.depth > 0]
    on, GhostLock.monitor = GhostLock.monitor, None
    for l in mine:
        l.owner = 'another thread'
    r = vc.call(f)
    for l in mine:
        l.owner = 0
    GhostLock.monitor = on
    waits = isinstance(r.exc, RuntimeError) and 'held by another thread' in str(r.exc)
    return r, waits


def run(f, *a, **k):
    """(kind, value or exception)"""
    try:
        return 'value', f(*a, **k)
    except (Abort,) + PROBLEMS as e:
        return 'raised', e


# the named arguments of Master.execute
NAMED = dict(slave=1, function_code=3, starting_address=0, quantity_of_x=1, output_value=1, data_format='>H', expected_length=7, write_starting_address_fc23=1,
             number_file=(1,), pdu=b'\3', returns_raw=True, and_mask=1, or_mask=2, timeout=5, block=False, wait=False, safe=False, lock=False, nolock=True)


@harness('C28', EX[1:])
def wrapper(vc):
    """the wrapper itself"""
    w = vc.world()
    deco = w.utils.threadsafe_function
    before = list(w.locks)
    what = vc.pick('function', ('returns', 'raises', 'aborts', 'calls itself'))
    opt = vc.pick('threadsafe', ('not given', True, False))
    kw = {} if opt == 'not given' else {'threadsafe': opt}
    args = vc.pick('args', ((), (1,), (object(), [2], None)))
    named = vc.pick('named', ({}, {'a': object()}, {'a': None, 'expected_length': 5}, NAMED))
    result = vc.pick('result', (None, object(), 5, False))
    # what is not the business of the wrapper: which kind of exception it is
    problem, abort = (vc.pick('kind', PROBLEMS) if what == 'raises' else Problem)('x'), Abort('y')
    calls, held, other = [], [], []

    def f(*a, **k):
        calls.append((a, k))
        held.append([l for l in w.locks if l.depth > 0])
        if len(calls) == 1:
            n = len(calls)
            other.append(elsewhere(vc, w, lambda: new('other')))
            other.append(elsewhere(vc, w, lambda: new('other', threadsafe=False)))
            del calls[n:]
            del held[n:]
            if what == 'calls itself':
                return new(*a, **k)
            if what == 'raises':
                raise problem
            if what == 'aborts':
                raise abort
        return result
    new = deco(f)
    kind, v = run(new, *args, **dict(named, **kw))
    vc.cover('called')
    for a, k in calls:
        vc.ensure('arguments are passed through unchanged', len(a) == len(args) and all(x is y for x, y in zip(a, args)))
        vc.ensure('named arguments are passed through unchanged', sorted(k) == sorted(named) and all(k[n] is named[n] for n in named), lambda: repr(k))
    vc.ensure('the function is called once', len(calls) == (2 if what == 'calls itself' else 1))
    if what == 'raises' or what == 'aborts':
        vc.ensure('an exception is passed through unchanged', kind == 'raised' and v is (problem if what == 'raises' else abort), lambda: repr(v))
    else:
        vc.ensure('the result is passed through unchanged', kind == 'value' and v is result, lambda: repr(v))
    for l in w.locks:
        vc.ensure('the lock is released on every exit', not l.locked())
    if opt is False:
        vc.ensure('a call that opts out takes no lock', not held[0])
    else:
        vc.ensure('a call holds a lock', len(held[0]) >= 1)
        vc.ensure('another call waits meanwhile', other[0][1])
    vc.ensure('another call that opts out does not wait', not other[1][1] and other[1][0].ok, lambda: repr(other[1][0]))
    # the lock is usable again
    del calls[:], held[:]
    calls.append(None)
    vc.ensure('the next call is served', run(new, 7) == ('value', result))


POINTS = ('open', 'build', 'before_send', 'send', 'after_send', 'recv', 'after_recv', 'parse')


@harness('C28', EX, weight=2)
def call(vc):
    """Master.execute: one lock from sending to receiving, released on every exit"""
    w = vc.world()
    fc = vc.pick('function', (1, 3, 5, 6, 7, 8, 15, 16, 20, 22, 23, 43, 'raw', 99))
    if fc == 'raw':
        fc = w.defines.RAW
    fail = vc.pick('fails at', ('nowhere',) + POINTS)
    unit = 1
    if fail == 'nowhere':
        opt = vc.pick('opt out', (False, True))
        unit = vc.pick('slave', (1, 0, None))
        response = vc.bytes('response', lo=0, hi=None if vc.sym else 20, reps=(0, 1, 4))
        failure = None
    else:
        opt = False
        response = vc.mkbytes([fc % 128, 0])
        failure = vc.pick('failure', (Problem('x'), Abort('y')))
    busy = Busy(vc, w)
    meanwhile = []

    def at(point):
        if fail == point:
            raise failure

    class Q(object):
        def build_request(self, pdu, slave):
            at('build')
            return FRAME

        def parse_response(self, r):
            at('parse')
            return response

    class M(w.modbus.Master):
        def _do_open(self):
            at('open')

        def _do_close(self):
            return True

        def _send(self, request):
            at('send')
            busy.sent()

        def _recv(self, expected_length=-1):
            if busy.receives == 0:
                busy.receives = -100
                since, sends = busy.since, busy.sends
                meanwhile.append(elsewhere(vc, w, lambda: self.execute(1, 43, 0, output_value=[1, 0])))
                busy.since, busy.sends, busy.receives = since, sends, 0
            at('recv')
            busy.received()
            return FRAME

        def _make_query(self):
            return Q()
    m = M(5.0)
    if vc.flag('verbose'):
        m.set_verbose(True)
    for p in ('before_send', 'after_send', 'after_recv'):
        w.hooks.install_hook('modbus.Master.' + p, lambda args, p=p: at(p))
    args = {15: dict(output_value=[1, 0]), 16: dict(output_value=[5]), 23: dict(output_value=[5], quantity_of_x=1), 8: dict(output_value=[]),
            22: dict(and_mask=1, or_mask=2), 43: dict(output_value=[1, 0]), 20: dict(quantity_of_x=(1,), number_file=(1,))}.get(fc, dict(quantity_of_x=1))
    if fc == w.defines.RAW:
        args['pdu'] = vc.mkbytes([3, 1])
    if fail == 'nowhere' and vc.flag('raw result'):
        args['returns_raw'] = True
    if opt:
        args['threadsafe'] = False
    start = (0,) if fc == 20 else 0

    def one():
        try:
            r = vc.call(m.execute, unit, fc, start, **args)
            return 'value' if r.ok else 'raised', r.value if r.ok else r.exc
        except Abort as e:
            return 'raised', e
    kind, v = one()
    if failure is not None and fail in ('open', 'build', 'send', 'recv', 'parse'):
        vc.ensure('a call that fails raises', kind == 'raised', lambda: repr(v))
    vc.cover('called')
    busy.free('the lock is released on every exit')
    if meanwhile and not opt:
        vc.ensure('a call of another thread waits until the response is received', meanwhile[0][1])
    if busy.sends and unit is not None and fail in ('nowhere', 'after_recv', 'parse'):
        vc.ensure('the response is received once', busy.receives == 1)
        if not opt:
            vc.ensure('one lock is held from sending to receiving', len(busy.sections[0]) >= 1)
    # a second call: the same lock
    if opt or fail != 'nowhere' or unit is None:
        return
    one()
    busy.free('the lock is released on every exit')
    if len(busy.sections) == 2:
        vc.ensure('calls on one master share the lock', any(x is y for x in busy.sections[0] for y in busy.sections[1]))


class Device(object):
    """a slave on a link: answers the last request with registers that tell which request it was"""

    def __init__(self, vc, proto, cut):
        self.vc, self.proto, self.cut = vc, proto, cut
        self.buf = b''
        self.bad = None
        self.log = []

    def request(self, b):
        b = bytes(b)
        self.log.append(b)
        if self.buf and self.bad is None:
            self.bad = 'request %r is sent while the response to %r is being received' % (b, self.log[-2])
        pdu = b[7:] if self.proto == 'tcp' else b[1:-2]
        fc = pdu[0]
        if fc in (3, 4):
            a, q = struct.unpack('>HH', pdu[1:5])
            out = bytes([fc, 2 * q]) + b''.join(struct.pack('>H', a + k + fc * 1000) for k in range(q))
        elif fc == 6:
            out = pdu
        else:
            out = bytes([fc + 128, 1])
        self.buf = b[:4] + struct.pack('>HB', len(out) + 1, b[6]) + out if self.proto == 'tcp' else self.crc(b[:1] + out)

    def crc(self, b):
        return b + struct.pack('>H', self.w.utils.calculate_crc(b))

    def take(self, k):
        n = min(k, self.cut, len(self.buf))
        out, self.buf = self.buf[:n], self.buf[n:]
        return out


def expected(op):
    fc, a, x = op
    if fc in (3, 4):
        return 'ok', tuple(a + k + fc * 1000 for k in range(x))
    if fc == 6:
        return 'ok', (a, x)
    return 'exc', 1


@harness('C28', EX + ['modbus_tcp.TcpMaster._send', 'modbus_tcp.TcpMaster._recv', 'modbus_rtu.RtuMaster._send', 'modbus_rtu.RtuMaster._recv'], sym=False, m3=3.0)
def interleaved(vc):
    """calls of several threads on one master: each gets the response to its own request (bounded: random schedules)"""
    from .net import Net, Sock, Port
    from vc.sched import interleave
    proto = vc.pick('protocol', ('tcp', 'rtu', 'rtu over tcp'))
    cut = vc.pick('piece', (1, 3, 1000))
    n = vc.pick('threads', (2, 2, 3))
    ops = vc.given('calls', lambda r: [[[r.choice((3, 4, 6, 22)), r.randrange(1000), r.choice((1, 2, 5))] for _ in range(r.choice((1, 2)))] for _ in range(n)])
    dev = Device(vc, 'tcp' if proto == 'tcp' else 'rtu', cut)

    class S(Sock):
        def sendall(self, b, flags=0):
            dev.request(b)

        def send(self, b, flags=0):
            dev.request(b)
            return len(b)

        def recv(self, k, flags=0):
            return dev.take(k)

    class P(Port):
        def write(self, b):
            dev.request(b)
            return len(b)

        def read(self, k=1):
            return dev.take(k)
    if proto == 'rtu':
        w = vc.world()
        m = w.modbus_rtu.RtuMaster(P(vc, is_open=vc.flag('open')))
    else:
        net = Net(vc, max_socks=3)
        net.make = lambda k: S(vc, 'sock%d' % k, no=3 + k)
        w = vc.world(stubs=net.stubs)
        m = (w.modbus_tcp.TcpMaster if proto == 'tcp' else w.modbus_rtu_over_tcp.RtuOverTcpMaster)(host='10.0.0.1', timeout_in_sec=1.0)
    dev.w = w
    GhostLock.monitor = None
    if vc.pick('verbose', (False, False, True)):
        m.set_verbose(True)

    def one(op):
        fc, a, x = op
        try:
            if fc == 6:
                return 'ok', tuple(m.execute(1, 6, a, output_value=x))
            if fc == 22:
                return 'ok', tuple(m.execute(1, 22, a, and_mask=x, or_mask=x))
            return 'ok', tuple(m.execute(1, fc, a, x))
        except w.modbus.ModbusError as e:
            return 'exc', e.get_exception_code()
    runs = vc.given('schedules', lambda r: [[r.choice((r.randrange(60), r.randrange(400), r.randrange(2000), -r.randrange(1, 4))) for _ in range(r.choice((1, 1, 2, 3)))]
                                            for _ in range(6)])
    for sw in runs:
        dev.buf, dev.bad, dev.log = b'', None, []
        out = interleave([(lambda l=l: [one(op) for op in l]) for l in ops], sw)
        vc.ensure('no deadlock', not any(o is None or o[0] == 'deadlock' for o in out), lambda: repr((ops, sw, out)))
        vc.ensure('requests and responses never interleave', dev.bad is None, lambda: '%s with switches %r' % (dev.bad, sw))
        for l, o in zip(ops, out):
            vc.ensure('every call gets the response to its own request', o[0] == 'ok' and o[1] == [expected(op) for op in l], lambda: '%r: %r with switches %r' % (l, o, sw))
        vc.ensure('one request per call', len(dev.log) == sum(len(l) for l in ops))
        for l in w.locks:
            vc.ensure('the lock is released on every exit', not l.locked())
