"""C04: transaction ids advance by one, under one lock."""
from vc.harness import harness
from vc.shims import GhostLock
from vc.sched import interleave
from vc.core import Unsupported
from .c03 import set_counter, w16

FNS = ['modbus_tcp.TcpQuery.build_request', 'modbus_tcp.TcpQuery._get_transaction_id', 'utils.threadsafe_function']


def draw_request(vc, k):
    return vc.bytes('pdu%d' % k, lo=0, hi=65534, reps=(0, 3)), vc.int('unit%d' % k, 0, 255)


@harness('C04', FNS)
def advance_by_one(vc):
    w = vc.world()
    set_counter(vc, w)
    ids = []

    class Own(w.modbus_tcp.TcpQuery):
        """a user's own kind of query"""
    own = vc.pick('own kind of query', (-1, 1, 2))
    for k in range(4):
        q = Own() if k == own else w.modbus_tcp.TcpQuery()
        pdu, unit = draw_request(vc, k)
        r = vc.call(q.build_request, pdu, unit)
        vc.ensure('build_request returns a frame', r.ok and vc.is_bytes(r.value) and bool(vc.len(r.value) >= 7), r)
        ids.append(w16(vc, r.value, 0))
        # handling the request and its answer draws no id
        s = w.modbus_tcp.TcpQuery()
        vc.call(s.parse_request, r.value)
        b = vc.call(s.build_response, vc.mkbytes([1, 2]))
        if b.ok:
            vc.call(q.parse_response, b.value)
        if k == 2:
            vc.call(w.modbus_tcp.TcpQuery().build_request, pdu, 256)        # a refused request draws no id
    for k in range(2):
        vc.ensure('ids advance by one modulo 65536', ids[k + 1] == (ids[k] + 1) % 65536, lambda: 'ids %r' % (ids,))
    a, b = ids[2], ids[3]
    vc.ensure('an id fits two bytes', vc.and_(a >= 0, a <= 65535))
    vc.ensure('ids of accepted requests advance', vc.or_(b == (a + 1) % 65536, b == (a + 2) % 65536))
    vc.cover('three requests')


@harness('C04', FNS)
def same_query(vc):
    """one query object used for several requests"""
    w = vc.world()
    set_counter(vc, w)
    q = w.modbus_tcp.TcpQuery()
    ids = []
    for k in range(3):
        pdu, unit = draw_request(vc, k)
        r = vc.call(q.build_request, pdu, unit)
        vc.ensure('build_request returns a frame', r.ok and vc.is_bytes(r.value) and bool(vc.len(r.value) >= 7), r)
        ids.append(w16(vc, r.value, 0))
    for k in range(2):
        vc.ensure('ids advance by one modulo 65536', ids[k + 1] == (ids[k] + 1) % 65536, lambda: 'ids %r' % (ids,))


class Monitor(object):
    """lock contract: what the counter is between critical sections is anybody's; inside one it is ours alone"""

    def __init__(self, vc, w):
        self.vc, self.w = vc, w
        self.q = w.modbus_tcp.TcpQuery
        self.known = hasattr(self.q, '_last_transaction_id')
        self.start = []
        self.locks = []
        self.expect = self.q._last_transaction_id if self.known else None

    def havoc(self):
        if self.known:
            v = self.vc.int('other', 0, 65535, near=(0, 65534, 65535))
            self.q._last_transaction_id = v
            self.expect = v

    def same(self, label):
        if self.known:
            self.vc.ensure(label, self.q._last_transaction_id == self.expect)

    def __call__(self, event, lock):
        if event == 'acquire':
            self.same('the counter is not touched outside the lock')
            self.havoc()
            self.start.append(self.expect)
            self.locks.append(lock)
        else:
            if self.known:
                self.vc.ensure('the counter advances by one in the critical section',
                               self.q._last_transaction_id == (self.start[-1] + 1) % 65536)
            self.havoc()


@harness('C04', FNS)
def one_lock(vc):
    """the id is read and advanced inside one critical section of a lock shared by all queries"""
    w = vc.world()
    set_counter(vc, w)
    seen = []
    for k in range(2):
        m = Monitor(vc, w)
        q = w.modbus_tcp.TcpQuery()
        pdu, unit = draw_request(vc, k)
        GhostLock.monitor = m
        r = vc.call(q.build_request, pdu, unit)
        GhostLock.monitor = None
        vc.ensure('build_request returns a frame', r.ok and vc.is_bytes(r.value), r)
        vc.ensure('a lock is taken', len(m.locks) >= 1)
        if len(m.locks) > 1:
            raise Unsupported('more than one critical section')
        m.same('the counter is not touched outside the lock')
        if m.known:
            vc.ensure('the id is the one obtained in the critical section', w16(vc, r.value, 0) == (m.start[0] + 1) % 65536)
        vc.ensure('the lock is released', m.locks[0].depth == 0)
        seen.append(m.locks[0])
    vc.ensure('all queries share the lock', seen[0] is seen[1])
    # the id function itself, as other code calls it
    q = w.modbus_tcp.TcpQuery()
    vc.cover('two queries')


@harness('C04', FNS, sym=False)
def whole_cycle(vc):
    """65540 consecutive requests (bounded: one start value per run)"""
    w = vc.world()
    set_counter(vc, w)
    pdu = b'\x03\x00\x00\x00\x01'
    last = None
    for k in range(65540):
        t = w16(vc, w.modbus_tcp.TcpQuery().build_request(pdu, k % 256), 0)
        vc.ensure('ids advance by one modulo 65536', last is None or t == (last + 1) % 65536, 'request %d: %r after %r' % (k, t, last))
        last = t


@harness('C04', FNS, sym=False)
def interleaved(vc):
    """two threads building requests, up to four preemptions at any bytecode (bounded: random schedules)"""
    w = vc.world()
    set_counter(vc, w)
    sw = vc.given('switches', lambda r: [r.choice((r.randrange(40), r.randrange(200))) for _ in range(r.choice((1, 2, 3, 4)))])
    n = 2

    def work():
        return [w16(vc, w.modbus_tcp.TcpQuery().build_request(b'\x03\x00\x00\x00\x01', 1), 0) for _ in range(n)]
    first = w16(vc, w.modbus_tcp.TcpQuery().build_request(b'\x03', 1), 0)
    res = interleave([work, work], sw)
    ids = []
    for r in res:
        if r[0] != 'ok':
            vc.fail('both threads finish', repr(r))
        ids += r[1]
    vc.ensure('no two requests carry the same id', len(set(ids)) == len(ids), 'ids %r' % (ids,))
    vc.ensure('no id is skipped', sorted((t - first) % 65536 for t in ids) == list(range(1, 2 * n + 1)), 'ids %r after %d' % (ids, first))
