"""Request strings and databanks with arbitrary sets of slaves (C11, C12, C13)."""
import struct as _struct
from vc import core, seq, shims, harness as H
from vc.core import Unsupported, PathEnd, mk, zi
from vc.seq import VcDict, BaseMap, VcBytes
from .common import crc_patches, with_crc, excs
from .c03 import w16

FRAMES = ('rtu', 'tcp')


def query_of(w, proto):
    return w.modbus_rtu.RtuQuery() if proto == 'rtu' else w.modbus_tcp.TcpQuery()


def limit(r):
    return r.choice([x for x in H.pool() if 0 <= x <= 2100] or [1]) + r.choice((0, 0, 1))


def random_pdu(r):
    """a request PDU, mostly well formed (concrete runs)"""
    f = r.choice((1, 2, 3, 4, 5, 6, 7, 15, 16, 22, 23, 1, 3, 5, 6, 15, 16, r.randrange(256)))
    w = lambda v: [v >> 8 & 255, v & 255]
    a = r.choice((0, 1, 2, 9, 10, r.randrange(30), r.randrange(65536)))
    q = r.choice((0, 1, 2, 7, 8, 9, r.randrange(20), 125, 126, 65535, limit(r)))
    if f in (1, 2, 3, 4):
        p = [f] + w(a) + w(q)
    elif f == 5:
        p = [f] + w(a) + w(r.choice((0, 0xff00, 1, 0xff01)))
    elif f == 6:
        p = [f] + w(a) + w(r.randrange(65536))
    elif f == 15:
        n = (q + 7) // 8
        p = [f] + w(a) + w(q) + [n & 255] + [r.randrange(256) for _ in range(n)]
    elif f == 16:
        p = [f] + w(a) + w(q) + [2 * q & 255] + [r.randrange(256) for _ in range(2 * q % 512)]
    elif f == 22:
        p = [f] + w(a) + w(r.randrange(65536)) + w(r.randrange(65536))
    elif f == 23:
        p = [f] + w(a) + w(r.choice((0, 1, 2, 126))) + w(a) + w(q) + [2 * q & 255] + [r.randrange(256) for _ in range(2 * q % 512)]
    else:
        p = [f] + [r.randrange(256) for _ in range(r.randrange(6))]
    k = r.random()
    if k < 0.12:
        p = p[:r.randrange(len(p) + 1)]
    elif k < 0.18:
        p = p + [r.randrange(256) for _ in range(r.randrange(1, 4))]
    elif k < 0.22 and p:
        p[r.randrange(len(p))] = r.randrange(256)
    return p


class Req(object):
    """a byte string presented as a request: raw, whether it is a frame, and then its unit and PDU"""
    def __init__(self, raw, good, unit, pdu):
        self.raw, self.good, self.unit, self.pdu = raw, good, unit, pdu


def arbitrary_request(vc, proto, spec, units=None):
    """any byte string (concrete runs: mostly a frame for one of `units`)"""
    if vc.sym:
        raw = vc.bytes('request', lo=0, reps=(0, 2, 3, 4, 7, 8, 9, 12), kind=vc.pick('type', ('bytes', 'bytearray')) if proto == 'rtu' else 'bytes')
        n = vc.len(raw)
        if proto == 'rtu':
            if not bool(n >= 3):
                return Req(raw, False, None, None)
            body = vc.tobytes(vc.sub(raw, 0, n - 2))
            good = bool(vc.derived('crcok', lambda: w16(vc, raw, n - 2) == spec(body)))
            return Req(raw, good, vc.at(raw, 0), vc.tobytes(vc.sub(raw, 1, n - 3)))
        if not bool(n >= 7):
            return Req(raw, False, None, None)
        good = bool(vc.derived('lenok', lambda: w16(vc, raw, 4) == n - 6))
        return Req(raw, good, vc.at(raw, 6), vc.tobytes(vc.sub(raw, 7, n - 7)))

    def gen(r):
        p = random_pdu(r)
        u = r.choice(list(units) * 3 + [0, 1, 255, r.randrange(256)]) if units else r.randrange(256)
        if proto == 'rtu':
            s = [u] + p
            s = list(with_crc(vc, s, spec))
        else:
            n = len(p) + 1
            s = [r.randrange(256), r.randrange(256), 0, r.choice((0, 0, 0, 1)), n >> 8, n & 255, u] + p
        k = r.random()
        if k < 0.15 and s:
            s[r.randrange(len(s))] ^= 1 << r.randrange(8)
        elif k < 0.22:
            s = s[:r.randrange(len(s) + 1)]
        elif k < 0.27:
            s = s + [r.randrange(256) for _ in range(r.randrange(1, 4))]
        elif k < 0.3:
            s = [r.randrange(256) for _ in range(r.randrange(12))]
        return s
    l = list(vc.given('request', gen))
    if proto == 'rtu' and vc.inputs is not None and len(l) >= 3 and vc.inputs.get('crcok'):
        l = list(with_crc(vc, l[:-2], spec))
    raw = bytes(l)
    n = len(l)
    if proto == 'rtu':
        good = n >= 3 and list(with_crc(vc, l[:-2], spec)) == l
        if vc.pick('type', ('bytes', 'bytearray')) == 'bytearray':
            raw = bytearray(l)
        return Req(raw, good, l[0] if n else None, l[1:-2])
    good = n >= 7 and l[4] * 256 + l[5] == n - 6
    return Req(raw, good, l[6] if n >= 7 else None, l[7:])


def frame_request(vc, proto, spec, unit, pdu):
    """a proper request frame"""
    if proto == 'rtu':
        return vc.tobytes(with_crc(vc, vc.cat([unit], pdu), spec))
    tid = vc.int('tid', 0, 65535)
    pid = vc.int('pid', 0, 65535)
    return vc.tobytes(vc.cat(vc.word(tid), vc.word(pid), vc.word(vc.len(pdu) + 1), [unit], pdu))


def frame_reply(vc, proto, spec, raw, answer):
    """the frame that answers request `raw` with PDU `answer`"""
    if proto == 'rtu':
        return with_crc(vc, vc.cat([vc.at(raw, 0)], answer), spec)
    return vc.cat(vc.sub(raw, 0, 4), vc.word(vc.len(answer) + 1), [vc.at(raw, 6)], answer)


class Call(object):
    def __init__(self, slave, pdu, broadcast, reply, exc):
        self.slave, self.pdu, self.broadcast, self.reply, self.exc = slave, pdu, broadcast, reply, exc


class Watch(object):
    """how often the slave at one arbitrary place of the databank is called"""
    _vc_ghost = True

    def __init__(self):
        self.count = 0


class Stub(object):
    """contract of Slave.handle_request: any reply PDU, or any exception"""
    _vc_ghost = True

    def __init__(self, bank, slave, key, index):
        self._vc = (bank, slave, key, index)

    def __call__(self, request_pdu, *a, **k):
        bank, slave, key, index = self._vc
        return bank.called(slave, key, index, request_pdu, bool(k.get('broadcast', a[0] if a else False)))


class Bank(object):
    """a Databank with an arbitrary set of slaves whose handle_request is replaced by its contract"""

    def __init__(self, vc, w, outcomes, server=False):
        self.vc, self.w, self.outcomes = vc, w, outcomes
        self.calls = []
        self.check = None           # called on every call
        self.watch = None
        self.slaves = {}            # concrete or bounded: key -> slave
        self.error_on_missing = vc.pick('error_on_missing_slave', (True, False))
        self.db = w.modbus.Databank(self.error_on_missing)
        self.top = w.modbus.Server(self.db) if server else self.db
        self.any = vc.sym and not vc.bounded
        if self.any:
            self._arbitrary()
        else:
            if vc.conc:
                ids = vc.given('ids', lambda r: list(range(1, 256)) if r.random() < 0.04 else sorted(set(r.choice((1, 2, 3, 5, 247, 255, r.randrange(1, 256))) for _ in range(r.choice((0, 1, 2, 3, 5, 8))))))
                self.ids = list(ids)
            else:
                n = vc.E.choice(3)
                self.ids = []
                for k in range(n):
                    i = vc.int('id', 1, 255)
                    for j in self.ids:
                        vc.assume(i != j)
                    self.ids.append(i)
            for k, i in enumerate(self.ids):
                s = self.db.add_slave(i)
                self.slaves[k] = (i, s)
                if outcomes:
                    s.handle_request = Stub(self, s, i, k)

    def _arbitrary(self):
        vc, db = self.vc, self.db
        probe = db.add_slave(1)
        reg = [v for v in vars(db).values() if isinstance(v, VcDict) and v._find(1) is not None and v.e[v._find(1)][1] is probe]
        if len(reg) != 1:
            raise Unsupported('the registry of slaves is not a dictionary by id')
        db.remove_slave(1)
        if reg[0].e:
            raise Unsupported('the registry of slaves is not a dictionary by id')
        e = vc.E

        def make(i, key):
            s = self.w.modbus.Slave(key, True, None)
            if self.outcomes:
                s.handle_request = Stub(self, s, key, i)
            return s
        self.map = BaseMap('slaves', make, lambda k: zi_range(k, 1, 255))
        reg[0].base = self.map
        self.ids = None

    def watch_one(self):
        """fix one arbitrary slave and count its calls"""
        vc = self.vc
        self.watch = Watch()
        vc.hints.roots.append(self.watch)
        if self.any:
            j = vc.E.fresh_int('watched', 0)
            vc.assume(mk(j.i) < mk(self.map.vals.n))
            self.at = j
            vc.hints.ghost_ints.append(lambda k: vc.ite(k > j, 1, 0))
        else:
            if not self.slaves:
                if vc.conc:
                    raise H.Reject('no slave')
                raise PathEnd()
            self.at = vc.E.choice(len(self.slaves)) if vc.sym else vc.given('watched', lambda r: r.choice((r.randrange(8), r.randrange(256)))) % len(self.slaves)

    def has(self, unit):
        """the slave registered under unit, or None"""
        if self.any:
            o = self.map.lookup(unit, None)
            return o
        for i, s in self.slaves.values():
            if bool(i == unit):
                return s
        return None

    def called(self, slave, key, index, pdu, broadcast):
        vc = self.vc
        c = Call(slave, pdu, broadcast, None, None)
        self.calls.append(c)
        if self.check is not None:
            self.check(c)
        if self.watch is not None:
            self.watch.count = self.watch.count + vc.ite(mk(index) == self.at, 1, 0)
        kind = vc.pick('outcome', self.outcomes)
        ex = excs(self.w)
        if kind == 'reply':
            c.reply = vc.bytes('answer', lo=1, hi=None if vc.sym else 60, reps=(1, 2))
            if vc.sym:
                vc.assume(vc.or_(vc.len(c.reply) <= 253, vc.len(c.reply) <= vc.len(pdu)))
            return c.reply
        if kind == 'silent':
            return ''
        if kind == 'empty':
            c.reply = b''
            return c.reply
        c.exc = {'error': lambda: Exception('slave failed'), 'struct': lambda: _struct.error('unpack requires more'),
                 'modbus': lambda: ex.ModbusError(vc.pick('code', (1, 2, 3, 4))), 'invalid': lambda: ex.ModbusInvalidRequestError('refused'),
                 'missing': lambda: ex.MissingKeyError('no such block'), 'type': lambda: TypeError('bad type'),
                 'out': lambda: ex.OutOfModbusBlockError('out')}[kind]()
        raise c.exc


def zi_range(k, lo, hi):
    import z3
    return z3.And(k.i >= lo, k.i <= hi)


def falsy(vc, v):
    """no reply: nothing that a server would send"""
    if v is None:
        return True
    if isinstance(v, str):
        return v == ''
    if vc.is_bytes(v):
        return bool(vc.len(v) == 0)
    return False


def changing(vc, broadcasts):
    """requests between changes of the set of slaves: every request is carried out by the slaves there are at that moment (concrete runs)"""
    patches, spec = crc_patches(vc)
    w = vc.world(patches=patches)
    db = w.modbus.Databank(vc.flag('error_on_missing_slave'))
    top = w.modbus.Server(db) if vc.flag('server') else db
    proto = vc.pick('framing', FRAMES)
    query = [query_of(w, proto)]
    reused = vc.flag('query used again')
    ids = (1, 2, 3, 255)

    def rnd(r):
        u = r.choice(ids)
        return [r.choice(('add', 'add', 'remove', 'clear') if r.random() < 0.4 else ('write', 'read') + ('all',) * (2 if broadcasts else 0)), u, r.randrange(1, 65536), r.randrange(1, 65536)]
    model = {}
    for op, u, v, tid in vc.given('ops', lambda r: [rnd(r) for _ in range(r.randrange(2, 16))]):
        if op == 'add':
            if u not in model:
                s = top.add_slave(u)
                s.add_block('r', 3, 0, 2)
                s.set_values('r', 0, v)
                model[u] = [s, v]
            continue
        if op == 'remove':
            if u in model:
                top.remove_slave(u)
                model.pop(u)
            continue
        if op == 'clear':
            top.remove_all_slaves()
            model.clear()
            continue
        u = 0 if op == 'all' else u
        pdu = [3, 0, 0, 0, 1] if op == 'read' else [6, 0, 0, v >> 8, v & 255]
        raw = bytes(with_crc(vc, [u] + pdu, spec)) if proto == 'rtu' else bytes([tid >> 8, tid & 255, 0, 0, 0, len(pdu) + 1, u] + pdu)
        if not reused:
            query[0] = query_of(w, proto)
        r = vc.call(db.handle_request, query[0], raw)
        vc.ensure('a request raises nothing', r.ok, r)
        there = u in model
        if op == 'read' and there:
            x = model[u][1]
            want = [3, 2, x >> 8, x & 255]
        else:
            want = pdu if there else None
        if op != 'read':
            for i in model:
                if u in (0, i):
                    model[i][1] = v
        for i, (s, x) in sorted(model.items()):
            vc.ensure('exactly the slaves registered at that moment carry out the request', s.get_values('r', 0) == (x,), lambda: '%s for %d: slave %d holds %r instead of %d' % (op, u, i, s.get_values('r', 0), x))
        if want is None:
            vc.ensure('no reply is sent', falsy(vc, r.value), r)
        else:
            vc.ensure_eq('the reply carries what the slave answered', r.value, frame_reply(vc, proto, spec, raw, bytes(want)))
