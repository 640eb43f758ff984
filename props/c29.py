"""C29: links are opened once, on demand, and closed once."""
from vc.harness import harness
from vc.core import Unsupported
from vc.real import VcReal
from .net import Sock, Stream, Port, Net, excs

BASE = ['modbus.Master.' + f for f in ('open', 'close', 'set_timeout', 'get_timeout', 'execute')]
TCP = ['modbus_tcp.TcpMaster.' + f for f in ('__init__', '_do_open', '_do_close', 'set_timeout', '_send')]
RTU = ['modbus_rtu.RtuMaster.' + f for f in ('_do_open', '_do_close', 'set_timeout', '_send')]
KINDS = ('base', 'tcp', 'rtu over tcp', 'rtu')


class Base(object):
    """a master over a link that counts: the contract of the link functions alone"""
    ops = ('open', 'open fails', 'close', 'call', 'call fails to open', 'timeout')

    def __init__(self, vc, kind):
        self.vc = vc
        self.kind = kind
        self.opened = False         # the model
        self.opens = self.closes = self.sends = 0
        self.t = None
        self.fail = None            # what opening raises
        self.setup(kind)

    def setup(self, kind):
        self.w = w = self.vc.world()
        me = self

        class M(w.modbus.Master):
            def _do_open(self):
                if me.fail is not None:
                    raise me.fail
                me.opens += 1

            def _do_close(self):
                me.closes += 1
                return True

            def _send(self, request):
                me.vc.ensure('a request goes out on an open link', me.opens == me.closes + 1)
                me.sends += 1

            def _recv(self, expected_length=-1):
                return b''

            def _make_query(self):
                return w.modbus_rtu.RtuQuery()
        self.t = self.new_timeout()
        self.m = M(self.t)
        self.states = ['new', 'open', 'failed']

    def new_timeout(self):
        return 2.0

    def hooks(self, prefix, names):
        """hooks at the points around opening and closing: what they return is of no account"""
        if self.vc.flag('hooks'):
            self.hooked = []
            for n in names:
                self.w.hooks.install_hook(prefix + n, lambda args, n=n: self.hooked.append(n) or n)

    def link_up(self):
        return self.opens == self.closes + 1

    def counts(self):
        return self.opens, self.closes, self.sends

    def link_timeout(self, label):
        pass

    def abstract(self):
        """the state of the master, without the identity of its links"""
        return dict(vars(self.m))

    # ------------------------------------------------------------ one operation against the model
    def apply(self, op):
        vc, m = self.vc, self.m
        o, c, s = self.counts()
        self.fail = None
        if op.endswith('fails') or op.endswith('fails to open'):
            self.fail = excs(vc.pick('error', ('timeout', 'reset', 'value', 'other')))
        if op.startswith('open'):
            r = vc.call(m.open)
        elif op == 'close':
            r = vc.call(m.close)
        elif op.startswith('call') or op == 'lost':
            if op == 'lost':
                self.lose()
            r = vc.call(m.execute, 1, 3, 0, 1)
        elif op == 'timeout':
            self.t = self.new_timeout()
            r = vc.call(m.set_timeout, self.t)
        error, self.fail = self.fail, None
        o2, c2, s2 = self.counts()
        was = self.opened
        needs = (op.startswith('open') or op.startswith('call') or op == 'lost') and not was
        if needs and error is not None:
            vc.ensure('the error of opening reaches the caller', r.exc is error, r)
            vc.ensure('a failed opening opens nothing', (o2, c2, s2) == (o, c, s) and not self.link_up())
        elif op == 'lost' and was:
            vc.ensure('a lost link is replaced by one new link', (o2, c2) == (o + 1, c + 1) and self.link_up(), lambda: repr((o, c, o2, c2)))
            vc.ensure('the request goes out', s2 == s + 1)
        else:
            if op.startswith('open') or op == 'close' or op == 'timeout':
                vc.ensure('%s succeeds' % op, r.ok, r)
            self.opened = True if op != 'close' and op != 'timeout' else was and op != 'close'
            vc.ensure('the link is opened once, on demand', o2 == o + (1 if needs else 0), lambda: '%s: %d links opened' % (op, o2 - o))
            vc.ensure('the link is closed exactly once', c2 == c + (1 if op == 'close' and was else 0), lambda: '%s: %d links closed' % (op, c2 - c))
            vc.ensure('a call sends one request', s2 == s + (1 if op.startswith('call') or op == 'lost' else 0))
            vc.ensure('the link is open exactly while the master is', bool(self.link_up()) == self.opened, lambda: op)
        if self.opened:
            self.link_timeout('the timeout holds on the open link')
        vc.ensure('the timeout is the one set last', self.same(m.get_timeout(), self.t), lambda: '%r %r' % (m.get_timeout(), self.t))

    def same(self, a, b):
        return a == b if b is not None else a is None

    def reach(self, state):
        if state == 'open':
            self.apply('open')
        elif state == 'failed':
            self.apply('open fails')
        elif state == 'closed':
            self.apply('open')
            self.apply('close')


class Tcp(Base):
    ops = Base.ops + ('lost',)

    def setup(self, kind):
        vc = self.vc
        self.net = net = Net(vc, max_socks=200)
        net.make = self.make
        net.ready = lambda r, w, x: [s for s in r if s.stream._vc_end == 'eof']
        self.w = w = vc.world(stubs=net.stubs)
        self.t = self.new_timeout()
        self.host, self.port = vc.pick('slave', (('10.0.0.1', 502), ('slave', 1502)))
        cls = w.modbus_tcp.TcpMaster if kind == 'tcp' else w.modbus_rtu_over_tcp.RtuOverTcpMaster
        self.m = cls(self.host, self.port, self.t) if self.port == 502 else cls(host=self.host, port=self.port, timeout_in_sec=self.t)
        self.states = ['new', 'open', 'failed', 'closed']
        self.hooks('modbus_tcp.TcpMaster.', ('before_connect', 'after_connect', 'before_close', 'after_close'))

    def make(self, k):
        s = Sock(self.vc, 'sock%d' % k, Stream(self.vc, 'sock%d' % k, end='timeout'), no=3 + k)
        if self.fail is not None:
            s._vc_fail['connect'] = self.fail
        return s

    def new_timeout(self):
        return timeout(self.vc)

    def links(self):
        return [s for s in self.net.made if s.peer is not None]

    def link_up(self):
        up = [s for s in self.links() if not s.closed]
        self.vc.ensure('no more than one link is open', len(up) <= 1)
        for s in self.links():
            self.vc.ensure('the link leads to the slave', s.peer == (self.host, self.port), lambda: repr(s.peer))
        return len(up) == 1

    def counts(self):
        l = self.links()
        return len(l), len([s for s in l if s.closed]), sum(len(s.out) for s in l)

    def lose(self):
        for s in self.links():
            if not s.closed:
                s.stream._vc_end = 'eof'

    def link_timeout(self, label):
        s = [s for s in self.links() if not s.closed][0]
        self.vc.ensure(label, s.timeout is not None and s.timeout == self.t, lambda: '%r, set to %r' % (s.timeout, self.t))

    def abstract(self):
        d = dict(vars(self.m))
        for k, v in d.items():
            if isinstance(v, Sock):
                d[k] = ('sock', v.closed, v.peer, v.timeout)
        return d


class Rtu(Base):
    def setup(self, kind):
        vc = self.vc
        self.w = w = vc.world()
        self.p = p = Port(vc, stream=Stream(vc, 'port', end='eof'), is_open=vc.flag('port is open'))
        self.pre = p.is_open        # the port is handed over open: there is nothing to open the first time
        self.first, self.refused = self.pre, 0
        p._vc_fail['open'] = self.opening
        p._vc_onwrite = lambda s: self.sent()
        self.m = w.modbus_rtu.RtuMaster(p)
        self.sw = False
        self.t = self.m.get_timeout()
        self.states = ['new', 'open', 'closed'] + ([] if self.pre else ['failed'])
        self.hooks('modbus_rtu.RtuMaster.', ('before_open', 'after_close'))

    def opening(self, port):
        self.refused += self.fail is not None
        return self.fail

    def sent(self):
        self.sends += 1

    def new_timeout(self):
        return timeout(self.vc) if not self.vc.flag('no timeout') else None

    def link_up(self):
        return self.p.is_open

    def counts(self):
        return self.p.log.count(('open',)) - self.refused, self.p.log.count(('close',)), self.sends

    def apply(self, op):
        if self.pre and not self.opened:
            # the port is open although the master is not
            if op.endswith('fails') or op.endswith('fails to open'):
                return
            o, c, s = self.counts()
            if op == 'timeout':
                self.t = self.new_timeout()
                self.vc.call(self.m.set_timeout, self.t)
            else:
                self.vc.call({'open': self.m.open, 'close': self.m.close}.get(op) or (lambda: self.m.execute(1, 3, 0, 1)))
            o2, c2, s2 = self.counts()
            self.vc.ensure('an open port is not opened again', o2 == o)
            if op in ('open', 'call'):
                self.opened = True
                self.pre = False
                self.vc.ensure('an open port stays open', self.p.is_open and c2 == c)
                self.vc.ensure('a call sends one request', s2 == s + (1 if op == 'call' else 0))
            elif op == 'close':
                self.pre = self.p.is_open
            self.link_timeout('the timeout holds on the open link')
            return
        Base.apply(self, op)

    def link_timeout(self, label):
        self.vc.ensure(label, self.same(self.p.timeout, self.t), lambda: '%r, set to %r' % (self.p.timeout, self.t))

    def abstract(self):
        d = dict(vars(self.m))
        for k, v in d.items():
            if isinstance(v, Port):
                d[k] = ('port', v.is_open, v.timeout)
        d['port'] = self.p.is_open
        return d


def timeout(vc):
    """any number of seconds"""
    return vc.real('seconds', 0, 1000.0 if not vc.sym else None)


def make(vc, kind):
    return {'base': Base, 'rtu': Rtu}.get(kind, Tcp)(vc, kind)


def equal(vc, a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(equal(vc, x, y) for x, y in zip(a, b))
    if isinstance(a, VcReal) or isinstance(b, VcReal):
        if a is None or b is None:
            return a is b
        return a is b or bool(a == b)
    return type(a) is type(b) and bool(a == b)


def stepping(kind):
    @harness('C29', BASE + (RTU if kind == 'rtu' else TCP if kind != 'base' else []), name='step_' + kind.replace(' ', '_'))
    def h(vc):
        """every operation in every state a master can be in"""
        x = make(vc, kind)
        x.reach(vc.pick('state', x.states))
        op = vc.pick('operation', x.ops)
        x.apply(op)
        vc.cover(op)
        if not vc.sym:
            return
        # the state is one of those it can be in (with another timeout): the operations keep what holds after any history
        mine = x.abstract()
        for state in x.states:
            y = type(x).__new__(type(x))
            y.vc = Silent(vc, x)
            y.kind, y.opened, y.opens, y.closes, y.sends, y.fail = kind, False, 0, 0, 0, None
            y.setup(kind)
            y.reach(state)
            if y.opened == x.opened:
                if kind != 'base':
                    y.t = x.t
                    y.vc.call(y.m.set_timeout, x.t)
                else:
                    y.m.set_timeout(x.t)
                other = y.abstract()
                if sorted(mine) == sorted(other) and all(equal(vc, mine[k], other[k]) for k in mine):
                    vc.cover('closed under operations')
                    return
        raise Unsupported('the state after %s is none of the states considered: %r' % (op, mine))
    return h


class Silent(object):
    """a context for the master the state is compared with: same choices, nothing checked"""

    def __init__(self, vc, x):
        self._vc, self._x = vc, x

    def ensure(self, *a, **k):
        return True

    def pick(self, name, options):
        x = self._x
        fixed = {'slave': lambda: (x.host, x.port), 'error': lambda: 'timeout'}.get(name)
        return fixed() if fixed else options[0]

    def flag(self, name):
        return getattr(self._x, 'first', False) if name == 'port is open' else False

    def __getattr__(self, k):
        return getattr(self._vc, k)


for _k in KINDS:
    stepping(_k)


@harness('C29', BASE + TCP + RTU, sym=False)
def history(vc):
    """any sequence of operations"""
    x = make(vc, vc.pick('master', KINDS))
    for op in vc.given('operations', lambda r: [r.choice(x.ops) for _ in range(r.randrange(1, 14))]):
        x.apply(op)
    if vc.flag('dropped'):
        n = x.counts()[1]
        x.m.__del__()
        vc.ensure('a master that is dropped closes its link', x.counts()[1] == n + (1 if x.opened else 0) and (isinstance(x, Rtu) or not x.link_up()))
