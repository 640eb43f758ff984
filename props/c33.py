"""C33: a server, and a worker thread, run from start to stop, and a server can be started again."""
import threading
from vc.harness import harness
from vc import shims
from vc.core import Unsupported
from .net import Net, Sock, Port, Stream, Bank, read_hints, excs, LinkError

SV = 'modbus.Server.'
LIFE = [SV + f for f in ('__init__', '_make_thread', 'start', 'stop', '_run_server')]
RTU = ['modbus_rtu.RtuServer.' + f for f in ('start', 'stop', 'close', '_do_init', '_do_exit', '_do_run')]
WORK = ['utils.WorkerThread.' + f for f in ('__init__', 'start', 'stop', '_run')]
COMP = ['simulator.CompositeServer.' + f for f in ('__init__', 'start', 'stop', 'set_verbose', '_make_thread')]


class Problem(Exception):
    pass


class Waiting(BaseException):
    """the thread that called join() waits here until the other one has ended"""


class Machine(object):
    """threads and events: a thread runs when the harness says so, join() of a running thread waits"""
    def __init__(self, vc, stubs=None):
        m = self
        self.vc, self.threads, self.events = vc, [], []

        class Event(shims.GhostEvent):
            _vc_ghost = True

            def __init__(self):
                shims.GhostEvent.__init__(self)
                m.events.append(self)

            def wait(self, timeout=None):
                if not self.flag and timeout is None:
                    raise Waiting()
                return self.flag

        class Thread(shims.GhostThread):
            _vc_ended = False

            def __init__(self, *a, **k):
                shims.GhostThread.__init__(self, *a, **k)
                m.threads.append(self)

            def start(self):
                if self.started:
                    raise RuntimeError('threads can only be started once')
                self.started = True
                m.started(self)

            def is_alive(self):
                return self.started and not self._vc_ended
            isAlive = is_alive

            def join(self, timeout=None):
                if not self.started:
                    raise RuntimeError('cannot join thread before it is started')
                if not self._vc_ended:
                    m.joining(self)
                    m.waited += 1
                    if timeout is None or m.waited > 20:
                        raise Waiting()     # also: asking again and again until the thread has ended
        st = dict(stubs or {})
        self.w = vc.world(stubs=st)
        th = self.w.stubs['threading']
        th.__dict__.update(Thread=Thread, Event=Event)
        self.begun = None           # the thread started last
        self.joined = None
        self.waited = 0
        self.inline = False
        self.value = None           # what the functions of a run return

    def started(self, t):
        self.begun = t
        if self.inline:
            self.run(t)

    def joining(self, t):
        self.joined = t

    def run(self, t):
        """the started thread t, until it ends"""
        self.vc.ensure('one thread is started', t is not None and t.started and not t._vc_ended)
        try:
            r = self.vc.call(t.run)
        finally:
            t._vc_ended = True
        self.vc.ensure('the thread ends without an error', r.ok, r)

    def begin(self, start):
        """what start() starts; the thread may have run already"""
        self.begun = None
        r = self.vc.call(start)
        self.vc.ensure('starting succeeds', r.ok, r)
        self.vc.ensure('starting starts a thread', self.begun is not None)
        return self.begun

    def stop(self, stop):
        """another thread calls stop(): does it wait for the running thread?"""
        self.joined = None
        try:
            r = self.vc.call(stop)
        except Waiting:
            return True
        self.vc.ensure('stopping succeeds', r.ok, r)
        return False


class Life(object):
    """the life of one run: initialised once, then stepped, then cleaned up once; stopped (by another thread) during a step"""
    _vc_ghost = True

    def __init__(self, vc, n, stop, fail=None, error=None, has=('init', 'exit')):
        self._vc_c, self._vc_n, self._vc_stop = vc, n, stop
        self._vc_fail, self._vc_error, self._vc_has = fail, error, has
        self._vc_twice = vc.flag('a second thread stops it')
        self.steps = 0
        self.stopped = False
        self.state = 'started' if 'init' in has else 'up'

    def _vc_inv(self):
        vc = self._vc_c
        n = self._vc_n
        if self._vc_fail == 'step':
            return [('steps', vc.and_(self.steps >= 0, self.steps < n)), ('not stopped', not self.stopped)]
        return [('steps', vc.and_(self.steps >= 0, self.steps <= n)),
                ('stopped after step n', vc.ite(self.stopped, 1, 0) == vc.ite(self.steps >= n, 1, 0))]

    def _die(self, where):
        if self._vc_fail == where:
            raise self._vc_error

    def _stop(self):
        self.stopped = True
        for k in range(2 if self._vc_twice else 1):
            self._vc_c.ensure('stop returns only after the step in progress and the clean-up', self._vc_stop())

    def init(self):
        vc = self._vc_c
        vc.ensure('the initialisation comes first, once', self.state == 'started', lambda: self.state)
        self.state = 'up'
        self._die('init')
        if self._vc_fail is None and bool(self._vc_n == 0):
            self._stop()

    def step(self):
        vc = self._vc_c
        vc.ensure('no step before the initialisation or after the clean-up', self.state == 'up', lambda: self.state)
        vc.ensure('no step begins after the stop', not self.stopped)
        self.steps = self.steps + 1
        if bool(self.steps == self._vc_n):
            self._die('step')
            self._stop()

    def exit(self):
        vc = self._vc_c
        vc.ensure('the clean-up comes last, once', self.state == 'up' or self._vc_fail == 'init', lambda: self.state)
        if self._vc_fail is None or self._vc_fail == 'exit':
            vc.ensure('no clean-up before the stop', self.stopped)
        self.state = 'done'
        self._die('exit')


def watch(vc, life, events, n):
    """loops: the run goes on as long as it has not been stopped"""
    if vc.conc:
        return
    h = vc.hints
    h.roots.append(life)
    h.ghosts.append(life)
    h.roots.extend(events)
    h.context = lambda: str(life._vc_fail)
    for ev in events:
        h.preds.append(lambda ev=ev: vc.ite(ev.flag, 1, 0) == vc.ite(life.stopped, 0, 1))
    h.variants.append(lambda: n - life.steps)


def server(vc, m, kind):
    """a server of each class whose link functions are those of the life that is set"""
    w = m.w
    base = {'base': w.modbus.Server, 'tcp': w.modbus_tcp.TcpServer, 'rtu': w.modbus_rtu.RtuServer}[kind]

    class S(base):
        _vc_life = None

        def _do_init(self):
            m.life.init()
            return m.value

        def _do_run(self):
            m.life.step()
            return m.value

        def _do_exit(self):
            m.life.exit()
            return m.value

        def __del__(self):
            pass
    return S(Port(vc)) if kind == 'rtu' else S()


def one_run(vc, m, srv, n, fail=None, error=None):
    m.life = life = Life(vc, n, lambda: m.stop(srv.stop), fail, error)
    watch(vc, life, m.events, n)
    t = m.begin(srv.start)
    if not t._vc_ended:
        m.run(t)
    return life


@harness('C33', LIFE, weight=2)
def runs(vc):
    """from start to stop, and again"""
    m = Machine(vc)
    m.inline = vc.flag('the thread runs at once')
    srv = server(vc, m, vc.pick('kind', ('base', 'tcp', 'rtu')))
    m.value = vc.pick('returned', (None, False, 1))
    if vc.flag('stopped before'):
        vc.ensure('stopping a server that is not running does nothing', not m.stop(srv.stop))
    n = vc.size('steps', 0, None if vc.sym else 30, reps=(0, 1, 2))
    life = one_run(vc, m, srv, n)
    vc.cover('a run ended')
    vc.ensure('the server ran until it was stopped', life.steps == n, lambda: '%r of %r steps' % (life.steps, n))
    vc.ensure('the clean-up is done when the run ends', life.state == 'done')
    if vc.flag('stopped again'):
        vc.ensure('stopping a server that is not running does nothing', not m.stop(srv.stop))
    vc.ensure('nothing runs any more', not any(t.is_alive() for t in m.threads))
    k = vc.pick('steps of the next run', (0, 1, 2))
    life = one_run(vc, m, srv, k)
    vc.ensure('the server can be started again', life.steps == k and life.state == 'done')


@harness('C33', LIFE, weight=2)
def fails(vc):
    """an error escapes from the initialisation, a step or the clean-up"""
    m = Machine(vc)
    m.inline = vc.flag('the thread runs at once')
    srv = server(vc, m, vc.pick('kind', ('base', 'tcp', 'rtu')))
    where = vc.pick('fails in', ('init', 'step', 'exit'))
    n = vc.size('steps', 1 if where == 'step' else 0, None if vc.sym else 30, reps=(1, 2))
    error = Problem('x')
    told, hooked = [], []
    m.w.hooks.install_hook('modbus.Server.on_exception', lambda a: told.append(a))
    life = Life(vc, n, lambda: m.stop(srv.stop), where, error)
    if where == 'exit' and bool(n == 0):
        n = 1
        life._vc_n = 1
    m.life = life
    watch(vc, life, m.events, n)
    t = m.begin(srv.start)
    if not t._vc_ended:
        m.run(t)
    vc.cover('a run failed')
    vc.ensure('the error is handed to the hook, once, with the server', len(told) == 1 and len(told[0]) == 2 and told[0][0] is srv and told[0][1] is error, lambda: repr(told))
    if where == 'init':
        vc.ensure('no step after a failed initialisation', life.steps == 0)
    if where == 'step':
        vc.ensure('no step after a failed one', life.steps == n)
    if vc.flag('stopped again'):
        vc.ensure('stopping a server that is not running does nothing', not m.stop(srv.stop))
    vc.ensure('nothing runs any more', not any(t.is_alive() for t in m.threads))
    k = vc.pick('steps of the next run', (0, 2))
    life = one_run(vc, m, srv, k)
    vc.ensure('the server can be started again', life.steps == k and life.state == 'done')
    vc.ensure('no error is reported that did not happen', len(told) == 1)


@harness('C33', WORK, weight=2)
def worker(vc):
    """a worker thread: init, main until it is stopped, exit whatever happens"""
    m = Machine(vc)
    m.inline = vc.flag('the thread runs at once')
    has = vc.pick('functions', (('init', 'exit'), ('init',), ('exit',), ()))
    where = vc.pick('fails in', ('nowhere', 'init', 'step'))
    if where == 'init':
        vc.assume('init' in has)
    args = vc.pick('args', ((), (object(), 2)))
    n = vc.size('steps', 0 if 'init' in has and where != 'step' else 1, None if vc.sym else 30, reps=(0, 1, 2))
    box = []
    m.value = vc.pick('returned', (None, False, 1))

    def body(name):
        def f(*a):
            vc.ensure('the functions get the arguments', len(a) == len(args) and all(x is y for x, y in zip(a, args)))
            getattr(box[0], name)()
            return m.value
        return f
    kw = {}
    if 'init' in has:
        kw['init_fct'] = body('init')
    if 'exit' in has:
        kw['exit_fct'] = body('exit')
    wt = m.w.utils.WorkerThread(body('step'), args, **kw)
    vc.ensure('stopping a thread that is not running does nothing', not m.stop(wt.stop))
    life = Life(vc, n, lambda: m.stop(wt.stop), None if where == 'nowhere' else where, Problem('x'), has)
    box.append(life)
    watch(vc, life, m.events, n)
    t = m.begin(wt.start)
    if not t._vc_ended:
        m.run(t)
    vc.cover('a run ended')
    if where != 'init':
        vc.ensure('the main function runs until the stop or its error', life.steps == n)
    else:
        vc.ensure('no step after a failed initialisation', life.steps == 0)
    vc.ensure('the exit function runs, once, whatever happened', life.state == ('done' if 'exit' in has else 'up'), lambda: life.state)
    vc.ensure('stopping a thread that has ended does nothing', not m.stop(wt.stop))


class Blocking(Port):
    """a port whose reads without a time limit wait for a byte; cancel_read ends the pending read, or else the next one"""
    def __init__(self, vc, **kw):
        Port.__init__(self, vc, **kw)
        self.cancelled = False
        self._vc_idle = None        # what happens while a read waits
        self._vc_onset = None       # what happens just before the time limit is taken away

    @property
    def timeout(self):
        return self._vc_limit

    @timeout.setter
    def timeout(self, t):
        if t is None and getattr(self, '_vc_onset', None) is not None:
            self._vc_onset()
        self._vc_limit = t

    def cancel_read(self):
        self._op('cancel_read')
        self.cancelled = True

    def read(self, k=1):
        self._op('read')
        if self.cancelled:
            self.cancelled = False
            return self._vc_c.mkbytes([])
        s = self.stream
        if self.timeout is None and bool(s.pos == s.n):
            if self._vc_idle is not None:
                self._vc_idle()
            self._vc_c.ensure('a server waiting for the first byte is woken by stop', self.cancelled or not self.is_open)
            self.cancelled = False
            return self._vc_c.mkbytes([])
        return s.take(k)


@harness('C33', LIFE + RTU)
def serial_idle(vc):
    """a serial server waits for a request when it is stopped; it opens its port when it starts and closes it when it stops"""
    m = Machine(vc)
    m.inline = vc.flag('the thread runs at once')
    port = Blocking(vc, stream=Stream(vc, 'port', vc.mkbytes([])), is_open=vc.flag('open'))
    bank = Bank(vc, lambda k, q: vc.mkbytes([]))
    srv = m.w.modbus_rtu.RtuServer(port, databank=bank)
    timeout = port.timeout
    log = []
    for h in ('before_open', 'after_open', 'before_close', 'after_close'):
        m.w.hooks.install_hook('modbus_rtu.RtuServer.' + h, lambda a, h=h: log.append(h))
    for run in (1, 2):
        was = port.is_open
        log[:] = []
        stops = []

        def idle():
            if not stops:
                vc.ensure('the port is open while the server runs', port.is_open or when == 'while it opens its port')
                vc.ensure('stop returns only after the step in progress and the clean-up', m.stop(srv.stop))
                stops.append(port.timeout)
                if vc.flag('a second thread stops it'):
                    vc.ensure('stop returns only after the step in progress and the clean-up', m.stop(srv.stop))
        when = vc.pick('stopped', ('while it waits', 'just before it waits') + (() if was else ('while it opens its port',)))
        port._vc_idle = idle if when == 'while it waits' else None
        port._vc_onset = idle if when == 'just before it waits' else None
        port._vc_fail['open'] = (lambda p: idle()) if when == 'while it opens its port' else None
        t = m.begin(srv.start)
        if not t._vc_ended:
            m.run(t)
        vc.cover('a run ended')
        vc.ensure('the server was stopped', len(stops) == 1)
        vc.ensure('nothing is handled', len(bank.requests) == 0)
        vc.ensure('the port is closed when the run ends', not port.is_open)
        vc.ensure('the port is opened on demand, and closed, once', log == ([] if was else ['before_open', 'after_open']) + ['before_close', 'after_close'], lambda: repr(log))
        vc.ensure('the read timeout is that of the server', port.timeout == timeout, lambda: repr(port.timeout))
        r = vc.call(srv.close)
        vc.ensure('closing a closed port does nothing', r.ok and len(log) == (2 if was else 4), r)


@harness('C33', ['modbus_tcp.TcpServer._do_init', 'modbus_tcp.TcpServer._do_exit', 'modbus_tcp.TcpServer._do_run'])
def tcp_again(vc):
    """a TCP server that ran, with connections or not, starts afresh: it listens, and knows nothing of the earlier run"""
    net = Net(vc)
    w = vc.world(stubs=net.stubs)
    bank = Bank(vc, lambda k, q: vc.mkbytes([1, 2]))
    srv = w.modbus_tcp.TcpServer(port=1502, address='10.0.0.9', databank=bank)
    clients = []
    for run in (1, 2, 3):
        n = len(net.made)
        r = vc.call(srv._do_init)
        vc.ensure('the initialisation succeeds', r.ok and len(net.made) == n + 1, r)
        listen = net.made[-1]
        vc.ensure('the server listens', ('bind', ('10.0.0.9', 1502)) in listen.log and 'listen' in [l[0] for l in listen.log] and not listen.closed)
        old = list(clients)
        for k in range(vc.pick('connections', (0, 1, 2)) if run < 3 else 1):
            data = vc.tobytes(vc.cat(vc.bytes('ids', n=4), vc.word(2), vc.bytes('pdu', n=2)))
            c = Sock(vc, 'client', Stream(vc, 'client', data), no=40 + len(clients))
            c._vc_net = net
            net.pending.append(c)
            clients.append(c)
            net.ready = lambda r, w, x: [s for s in r if s is listen]
            r = vc.call(srv._do_run)
            vc.ensure('accepting a connection', r.ok and not net.pending, r)
        new = [c for c in clients if c not in old]
        for c in new if run > 1 or vc.flag('served') else []:
            net.ready = lambda r, w, x: [s for s in r if s is c]
            r = vc.call(srv._do_run)
            vc.ensure('the server goes on', r.ok, r)
            vc.ensure_eq('a request is answered', c.sent, [1, 2])
        net.selects = []
        net.ready = lambda r, w, x: []
        r = vc.call(srv._do_run)
        vc.ensure('the server goes on', r.ok, r)
        watched = net.selects[-1]
        vc.ensure('the server watches what belongs to this run', len(watched) == 1 + len(new) and listen in watched and all(c in watched for c in new), lambda: repr(watched))
        r = vc.call(srv._do_exit)
        vc.ensure('the clean-up succeeds', r.ok, r)
        vc.ensure('everything is closed when the run ends', all(s.closed for s in clients + net.made))
    vc.cover('ran again')


@harness('C33', COMP)
def composite(vc):
    """a composite server starts, stops and configures each of its servers, which share its databank"""
    m = Machine(vc)
    w = m.w
    calls = []

    def make(name):
        class S(w.modbus.Server):
            def __init__(self, *a, **k):
                calls.append((name, 'new', a, k))
                self._vc_name = name

            def start(self):
                calls.append((name, 'start'))

            def stop(self):
                calls.append((name, 'stop'))

            def set_verbose(self, v):
                calls.append((name, 'verbose', v))
        return S

    class Other(object):
        def __init__(self, *a, **k):
            calls.append(('other', 'new', a, k))
    n = vc.pick('servers', (0, 1, 2, 3))
    kinds = [make(str(k)) for k in range(n)]
    args = [(k, object()) for k in range(n)]
    classes, given = list(kinds), list(args)
    at = vc.pick('a class that is no server', (None, 0, 1))
    if at is not None and at <= n:
        classes.insert(at, Other)
        given.insert(at, ())
    db = w.modbus.Databank()
    c = w.simulator.CompositeServer(classes, given, db) if vc.flag('databank') else w.simulator.CompositeServer(classes, given)
    vc.ensure('one server per server class, with its arguments', sorted((x[0], x[2]) for x in calls) == sorted((str(k), args[k]) for k in range(n)), lambda: repr(calls))
    vc.ensure('they share the databank', all(list(x[3]) == ['databank'] and x[3]['databank'] is c.get_db() for x in calls))
    for op, want in ((lambda: c.start(), ('start',)), (lambda: c.set_verbose(True), ('verbose', True)), (lambda: c.stop(), ('stop',)), (lambda: c.set_verbose(False), ('verbose', False))):
        calls[:] = []
        r = vc.call(op)
        vc.ensure('%s succeeds' % want[0], r.ok, r)
        vc.ensure('%s reaches every server once' % want[0], sorted(calls) == [(str(k),) + want for k in range(n)], lambda: repr(calls))


class Turn(object):
    """what a waiting thread waits for"""
    def __init__(self, free):
        self.free = free

    owner = property(lambda s: None if s.free() else -1)


@harness('C33', LIFE + RTU, sym=False, weight=2)
def schedules(vc):
    """start and stop from one thread, the run in another, at any bytecode (bounded: random schedules)"""
    from vc.sched import interleave, Sched
    kind = vc.pick('kind', ('base', 'base', 'rtu'))
    fail = vc.pick('fails in', ('nowhere', 'nowhere', 'init', 'step', 'exit')) if kind == 'base' else 'nowhere'
    state = dict(run=[], bad=None)

    def block(free):
        if not free():
            Sched.active.block(Turn(free))

    class M(Machine):
        def joining(self, t):
            block(lambda: t._vc_ended)

        def started(self, t):
            state['run'].append(t)
    m = M(vc)
    w = m.w
    th = w.stubs['threading'].Thread

    def join(self, timeout=None):
        if not self.started:
            raise RuntimeError('cannot join thread before it is started')
        block(lambda: self._vc_ended)
    th.join = join
    log = []
    port = Blocking(vc, stream=Stream(vc, 'port', b''))

    def idle():
        if not port.cancelled and port.is_open:
            block(lambda: port.cancelled or not port.is_open)
    port._vc_idle = idle

    class S(w.modbus.Server):
        def _do_init(self):
            log.append('init')
            if fail == 'init':
                raise Problem('x')

        def _do_run(self):
            log.append('step')
            if fail == 'step' and log.count('step') >= 2:
                raise Problem('x')

        def _do_exit(self):
            log.append('exit')
            if fail == 'exit':
                raise Problem('x')

    class R(w.modbus_rtu.RtuServer):
        def _do_init(self):
            w.modbus_rtu.RtuServer._do_init(self)
            log.append('init')

        def _do_exit(self):
            w.modbus_rtu.RtuServer._do_exit(self)
            log.append('exit')
    srv = S() if kind == 'base' else R(port, databank=Bank(vc, lambda k, q: b''))
    rounds = vc.int('rounds', 1, 3)

    def user():
        for _ in range(rounds):
            del log[:]
            srv.start()
            srv.stop()
            if state['run'] and not state['run'][-1]._vc_ended and fail == 'nowhere':
                return 'stop returned while the server was running: %r' % log
            if fail == 'nowhere' and (log[:1] != ['init'] or log[-1:] != ['exit'] or log.count('exit') != 1 or log.count('init') != 1):
                return 'the run was %r' % log
            before = list(log)
            if fail != 'nowhere':
                # a run that failed is over when its thread is
                t = state['run'][-1]
                block(lambda: t._vc_ended)
            elif log != before:
                return 'the server went on after stop'
        return None

    def runner():
        for k in range(rounds):
            block(lambda: len(state['run']) > k)
            t = state['run'][k]
            try:
                t.run()
            finally:
                t._vc_ended = True
    for sw in vc.given('schedules', lambda r: [[r.choice((r.randrange(60), r.randrange(15), r.randrange(300))) for _ in range(r.randrange(1, 7))] for _ in range(12)]):
        state['run'][:] = []
        del m.threads[:]
        srv._make_thread() if False else None
        out = interleave([user, runner], sw + [97] * 200)       # in the end both go on
        vc.ensure('no deadlock', all(o is not None and o[0] != 'deadlock' for o in out), lambda: 'switches %r: %r' % (sw, out))
        vc.ensure('starting and stopping raise nothing', out[0][0] == 'ok', lambda: 'switches %r: %r' % (sw, out[0][1]))
        vc.ensure('the thread ends without an error', out[1][0] == 'ok', lambda: 'switches %r: %r' % (sw, out[1][1]))
        vc.ensure('stop returns only after the step in progress and the clean-up', out[0][1] is None, lambda: 'switches %r: %r' % (sw, out[0][1]))
        vc.ensure('nothing runs any more', not any(t.is_alive() for t in m.threads))
