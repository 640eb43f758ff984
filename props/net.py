"""Stand-ins for sockets, select and serial ports: the assumed contracts of the operating system (C20-C26, C29).

A link delivers a byte stream of arbitrary length and content; a read for up to n bytes returns any number of the next
bytes between 1 and n; at the end of the stream it returns nothing (closed or silent peer) or raises.
"""
import socket as real_socket
import select as real_select
from vc import core, seq, shims
from vc.core import Unsupported
from vc.harness import Reject

HANG = 40           # reads after the end of the stream that count as looping for ever (concrete runs)


def excs(kind):
    return {'timeout': real_socket.timeout('timed out'), 'reset': ConnectionResetError(104, 'reset'), 'oserror': OSError(5, 'I/O error'),
            'broken': BrokenPipeError(32, 'broken pipe'), 'value': ValueError('not a file descriptor'), 'other': LinkError('?')}[kind]


class LinkError(Exception):
    """an error out of a stand-in for the operating system"""


class Stream(object):
    """what a reader can take from a link: data[pos:], then the end"""
    _vc_ghost = True

    def __init__(self, vc, name, data=None, end='eof', whole=False):
        self._vc_c, self._vc_name = vc, name
        self._vc_data = vc.mkbytes([]) if data is None else data
        self._vc_n = vc.len(self._vc_data)
        self._vc_end = end
        self._vc_whole = whole          # reads return all they may
        self._vc_reads = None           # where the name of the stream read last is kept
        self.pos = 0
        self.empties = 0                # reads that found the end

    data = property(lambda s: s._vc_data)
    n = property(lambda s: s._vc_n)

    def left(self):
        return self._vc_n - self.pos

    def progress(self):
        """decreases with every read until the end has been reported once"""
        vc = self._vc_c
        return self._vc_n - self.pos + 1 - vmin(vc, self.empties, 1)

    def _vc_inv(self):
        vc = self._vc_c
        return [('stream position in range', vc.and_(0 <= self.pos, self.pos <= self._vc_n)),
                ('the end is reported at the end only', vc.and_(self.empties >= 0, vc.implies(self.empties > 0, self.pos == self._vc_n)))]

    def taken(self):
        """the bytes read so far"""
        return self._vc_c.sub(self._vc_data, 0, self.pos)

    def take(self, k, peek=False):
        vc = self._vc_c
        if self._vc_reads is not None:
            self._vc_reads._vc_current = self._vc_name
        if bool(self.pos >= self._vc_n):
            if not peek:
                self.empties = self.empties + 1
            if not vc.sym and bool(self.empties > HANG):
                vc.fail('reading from a closed or silent link goes on for ever')
                raise LinkError('hang')
            if self._vc_end == 'eof':
                return vc.mkbytes([])
            raise excs(self._vc_end)
        left = self._vc_n - self.pos
        one = isinstance(k, int) and k == 1
        if one:
            m = 1
        elif self._vc_whole:
            m = vmin(vc, k, left)
        elif vc.sym:
            m = vc.int('%s.got' % self._vc_name, 1)
            vc.E.fact(core.cond(vc.and_(m <= k, m <= left)))
        else:
            if bool(k < 1):
                vc.fail('a read for at least one byte')
                raise LinkError('read of %r bytes' % (k,))
            m = vc.int('%s.got' % self._vc_name, 1, min(k, left), make=lambda r: min(k, left) if r.random() < 0.4 else r.randint(1, min(k, left, 4 if r.random() < .5 else 400)))
        if vc.sym and not isinstance(k, int):
            vc.ensure('a read asks for at least one byte', k >= 1)
        out = vc.tobytes(vc.sub(self._vc_data, self.pos, m))
        if not peek:
            self.pos = self.pos + m
        return out


def vmin(vc, a, b):
    if not core.is_sym(a) and not core.is_sym(b):
        return min(a, b)
    return vc.ite(a <= b, a, b)


class Sock(object):
    """a TCP socket: reads from a stream, records what is sent"""
    _vc_ghost = True

    def __init__(self, vc, name, stream=None, no=7):
        self._vc_c, self._vc_name, self._vc_no = vc, name, no
        self._vc_addr = ('10.0.0.2', 2000 + no)     # where it connects from
        self._vc_accepted = False
        self.stream = stream if stream is not None else Stream(vc, name)
        self._vc_out = []           # whole messages handed to sendall
        self._vc_log = []           # other calls
        self._vc_fail = {}          # method -> exception, or fn(sock) -> exception or None
        self._vc_net = None
        self._vc_onsend = None
        self._vc_onbytes = None     # called with every piece that is transmitted (concrete runs)
        self._vc_expect = None      # what has to be transmitted, when that is known beforehand
        self.nsent = 0              # bytes transmitted
        self.sent = vc.mkbytes([])  # everything transmitted, in order
        self.closed = False
        self.timeout = None
        self._vc_served = False     # a server owns it: waiting on it without a time limit starves the others
        self.peer = None

    def __repr__(self):
        return '<%s>' % self._vc_name

    out = property(lambda s: s._vc_out)
    log = property(lambda s: s._vc_log)

    def _op(self, what, *a):
        self._vc_log.append((what,) + a)
        if self.closed and what not in ('close', 'fileno', 'shutdown'):
            raise OSError(9, 'Bad file descriptor')
        f = self._vc_fail.get(what)
        if f is not None:
            e = f(self) if not isinstance(f, BaseException) else f
            if e is not None:
                raise e

    def fileno(self):
        return -1 if self.closed else self._vc_no

    def setsockopt(self, *a):
        self._op('setsockopt', *a)

    def setblocking(self, flag):
        self._op('setblocking', flag)
        self.timeout = None if flag else 0.0

    def settimeout(self, t):
        self._op('settimeout', t)
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def bind(self, addr):
        self._op('bind', addr)

    def listen(self, *a):
        self._op('listen', *a)

    def connect(self, addr):
        self._op('connect', addr)
        self.peer = addr

    def getpeername(self):
        return ('10.0.0.1', 1000 + self._vc_no)

    getsockname = getpeername

    def accept(self):
        self._op('accept')
        if not self._vc_net.pending:
            raise BlockingIOError(11, 'nothing to accept')
        c = self._vc_net.pending.pop(0)
        c._vc_accepted = True
        return c, c._vc_addr

    def shutdown(self, how):
        self._op('shutdown', how)

    def close(self):
        self._op('close')
        self.closed = True

    def recv(self, k, flags=0):
        self._op('recv', flags)
        if self._vc_served and self.timeout is None and self.stream._vc_end == 'timeout' and bool(self.stream.pos >= self.stream.n):
            self._vc_c.fail('the server does not wait for a silent client without a time limit')
            raise LinkError('hang')
        return self.stream.take(k, bool(flags & real_socket.MSG_PEEK))

    def recv_into(self, *a):
        raise Unsupported('recv_into')

    def expect(self, b):
        """from now on exactly these bytes have to be transmitted"""
        self._vc_expect = b
        self.nsent = 0

    def _vc_inv(self):
        vc = self._vc_c
        if self._vc_expect is None:
            return []
        return [('position in the data to send in range', vc.and_(0 <= self.nsent, self.nsent <= vc.len(self._vc_expect)))]

    def _transmit(self, b, n):
        vc = self._vc_c
        if self._vc_expect is not None:
            vc.ensure('no more than the data is transmitted', self.nsent + n <= vc.len(self._vc_expect))
            vc.ensure_eq('the data is transmitted in order', vc.sub(b, 0, n), vc.sub(self._vc_expect, self.nsent, n))
        else:
            self.sent = cat(vc, self.sent, vc.sub(b, 0, n))
        self.nsent = self.nsent + n
        if self._vc_onbytes is not None:
            self._vc_onbytes(bytes(b)[:n])

    def complete(self, label):
        vc = self._vc_c
        vc.ensure(label, self.nsent == vc.len(self._vc_expect), lambda: '%r of %r bytes' % (self.nsent, vc.len(self._vc_expect)))

    def sendall(self, b, flags=0):
        self._op('sendall')
        if self._vc_onsend is not None:
            self._vc_onsend(self)
        if self._vc_accepted and self.timeout == 0.0 and self._vc_c.pick('%s: room for the data' % self._vc_name, ('all', 'part')) == 'part':
            # a socket that may not wait gives up when the peer does not take the data fast enough
            n = self._vc_c.len(b)
            m = self._vc_c.int('%s.room' % self._vc_name, 0) if self._vc_c.sym else self._vc_c.int('%s.room' % self._vc_name, 0, max(n - 1, 0))
            if self._vc_c.sym:
                self._vc_c.assume(m < n)
            self._transmit(b, m)
            raise BlockingIOError(11, 'Resource temporarily unavailable')
        self._vc_out.append(b)
        self._transmit(b, self._vc_c.len(b))
        return None

    def send(self, b, flags=0):
        """accepts any part of the data"""
        self._op('send')
        vc = self._vc_c
        if self._vc_onsend is not None:
            self._vc_onsend(self)
        n = vc.len(b)
        if vc.sym:
            m = vc.int('%s.accepted' % self._vc_name, 1)
            vc.assume(m <= n)
        else:
            m = vc.int('%s.accepted' % self._vc_name, 1, max(n, 1))
        self._transmit(b, m)
        return m


def tcp_size(got):
    return 6 if len(got) < 6 else 6 + got[4] * 256 + got[5]


def on_frames(s, size, cb):
    """cb(frame) for every complete frame the code transmits, however many calls transmit it; size(got): its length"""
    got = bytearray()

    def piece(b):
        got.extend(b)
        while len(got) >= size(got):
            n = size(got)
            f = bytes(got[:n])
            del got[:n]
            cb(f)
    s._vc_onbytes = piece


def cat(vc, a, b):
    return vc.tobytes(vc.cat(a, b))


class Net(object):
    """socket and select modules over stand-in sockets"""
    _vc_ignore = True

    def __init__(self, vc, max_socks=8):
        self.vc = vc
        self.made = []              # sockets created by the code
        self.pending = []           # connections waiting to be accepted
        self.make = lambda k: Sock(vc, 'sock%d' % k, no=3 + k)
        self.max_socks = max_socks
        self.ready = lambda r, w, x: []
        self.selects = []           # read lists of the select calls

        def mk(*a, **k):
            if len(self.made) >= self.max_socks:
                raise Unsupported('too many sockets')
            s = self.make(len(self.made))
            s._vc_net = self
            self.made.append(s)
            return s

        def sel(r, w, x, timeout=None):
            r = aslist(r)
            self.selects.append(list(r))
            for s in r + aslist(w) + aslist(x):
                if s.fileno() < 0:
                    raise ValueError('file descriptor cannot be a negative integer (-1)')
            return list(self.ready(r, w, x)), [], []
        self.stubs = {'socket': shims.Mod(real_socket, socket=mk), 'select': shims.Mod(real_select, select=sel)}


def aslist(x):
    if isinstance(x, (list, tuple)):
        return list(x)
    s = seq.to_seq(x)
    if not isinstance(s.n, int):
        raise Unsupported('socket list of symbolic length')
    return s.items()


class Port(object):
    """a pyserial port"""
    _vc_ghost = True

    def __init__(self, vc, name='port', stream=None, baudrate=9600, timeout=1.0, is_open=True):
        self._vc_c, self._vc_name = vc, name
        self.stream = stream if stream is not None else Stream(vc, name)
        self._vc_log = []
        self._vc_fail = {}
        self._vc_out = []
        self._vc_waiting = 0
        self._vc_onwrite = None
        self._vc_onread = None
        self.sent = vc.mkbytes([])
        self.baudrate = baudrate
        self.timeout = timeout
        self.inter_byte_timeout = None
        self.is_open = is_open
        self.name = name
        self.port = name
        self.bytesize = 8
        self.parity = 'N'
        self.stopbits = 1

    out = property(lambda s: s._vc_out)
    log = property(lambda s: s._vc_log)

    def __repr__(self):
        return '<%s>' % self._vc_name

    def _op(self, what, *a):
        self._vc_log.append((what,) + a)
        if not self.is_open and what not in ('open', 'close'):
            raise OSError(9, 'port is not open')
        f = self._vc_fail.get(what)
        if f is not None:
            e = f(self) if not isinstance(f, BaseException) else f
            if e is not None:
                raise e

    def isOpen(self):
        return self.is_open

    def open(self):
        self._op('open')
        self.is_open = True

    def close(self):
        self._op('close')
        self.is_open = False

    def read(self, k=1):
        self._op('read')
        if self._vc_onread is not None:
            self._vc_onread(self, k)
        return self.stream.take(k)

    @property
    def in_waiting(self):
        self._op('in_waiting')
        return self._vc_waiting

    def inWaiting(self):
        return self.in_waiting

    def write(self, b):
        self._op('write')
        if self._vc_onwrite is not None:
            self._vc_onwrite(self)
        self._vc_out.append(b)
        self.sent = cat(self._vc_c, self.sent, b)
        return self._vc_c.len(b)

    def flush(self):
        self._op('flush')

    def reset_input_buffer(self):
        self._op('reset_input_buffer')
        self.stream.pos = self.stream.n

    flushInput = reset_input_buffer

    def reset_output_buffer(self):
        self._op('reset_output_buffer')

    flushOutput = reset_output_buffer

    def cancel_read(self):
        self._op('cancel_read')


def read_hints(vc, *streams):
    """loops that read: what was read so far is the taken part of the stream; every iteration makes progress"""
    if vc.conc:
        return
    h = vc.hints
    for s in streams:
        h.roots.append(s)
        h.ghosts.append(s)
        h.contents.append(lambda entry, k, s=s: vc.sub(s.data, 0, s.pos))
        h.bools.append(lambda k, s=s: s.empties == 0)
        h.ints.append(lambda k, s=s: s.pos)
        h.preds.append(lambda s=s: True if s._vc_end == 'eof' else s.empties == 0)
    h.variants.append(lambda: total(streams))
    if len(streams) > 1:
        current(vc, *streams)


def current(vc, *streams):
    """loops are looked at per stream they read from"""
    if not vc.conc:
        for s in streams:
            s._vc_reads = streams[0]
        vc.hints.context = lambda: getattr(streams[0], '_vc_current', '-')


def read_limit(vc, s, limit):
    """guess: loops read no further than this position"""
    if not vc.conc:
        vc.hints.preds.append(lambda: s.pos < limit)
        vc.hints.preds.append(lambda: s.pos <= limit)
        vc.hints.preds.append(lambda: vc.or_(s.empties == 0, s.pos < limit))


def total(streams):
    t = 0
    for s in streams:
        t = t + s.progress()
    return t


class Bank(object):
    """a databank that records what it is asked to handle and answers as told"""
    _vc_ignore = True

    def __init__(self, vc, answer):
        self.vc, self.answer = vc, answer
        self.requests = []

    def __bool__(self):
        return True

    def handle_request(self, query, request):
        self.requests.append(request)
        return self.answer(len(self.requests) - 1, request)


def send_hints(vc, data, *socks):
    """loops that transmit the data piece by piece"""
    if vc.conc:
        return
    h = vc.hints
    for k in socks:
        h.roots.append(k)
        h.ghosts.append(k)
        h.contents.append(lambda entry, _, k=k: vc.sub(data, k.nsent, vc.len(data) - k.nsent))
        h.ints.append(lambda _, k=k: k.nsent)
        h.ints.append(lambda _, k=k: vc.len(data) - k.nsent)
        h.variants.append(lambda k=k: vc.len(data) - k.nsent)


def tcp_stream(vc, name, end='eof', hi=600):
    """(stream, announced length or None): an arbitrary byte stream; None when it ends within the length field"""
    if vc.pick('%s.header' % name, ('complete', 'cut')) == 'cut':
        data = vc.bytes(name, lo=0, hi=5, reps=(0, 1, 5))
        return Stream(vc, name, data, end), None
    head = vc.bytes('%s.ids' % name, n=4)
    l = vc.int('%s.announced' % name, 0, 65535, make=lambda r: r.randint(0, 12) if r.random() < .6 else r.choice((248, 249, 250, 253, 254, 255, 256, 259, 260, 261)) if r.random() < .3 else r.randint(0, 400 if r.random() < .98 else 65535))
    rest = vc.bytes('%s.rest' % name, n=vc.size('%s.rest.len' % name, 0, None if vc.sym else 66000, reps=(0, 1, 2, 3, 9),
                                                make=lambda r: r.randint(0, 12) if r.random() < .2 else max(0, l + r.choice((-1, 0, 0, 1, 9)))))
    return Stream(vc, name, vc.tobytes(vc.cat(head, vc.word(l), rest)), end), l
