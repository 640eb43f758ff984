S = []


def add(i, prop, f, edits, needs, breaks, demo):
    S.append(dict(id=i, property=prop, file=f, edits=edits, needs=needs, breaks=breaks, demo=demo))


FAKE = r'''
class Port(object):
    """a serial port without hardware"""
    name, baudrate, is_open, timeout, inter_byte_timeout = 'fake', 9600, True, 1.0, None
    def __init__(self):
        self.inp, self.out, self.in_waiting, self.onwrite = b'', [], 0, None
    def open(self):
        self.is_open = True
    def close(self):
        self.is_open = False
    def read(self, n=1):
        d, self.inp = self.inp[:n], self.inp[n:]
        return d
    def write(self, b):
        self.out.append(bytes(b))
        if self.onwrite:
            self.onwrite(bytes(b))
        return len(b)
    def flush(self):
        pass
    def reset_input_buffer(self):
        self.inp = b''
    def reset_output_buffer(self):
        pass
    def cancel_read(self):
        pass
'''
SERVE = r'''
import socket, struct, time
from modbus_tk import modbus_tcp, defines, modbus, hooks
srv = modbus_tcp.TcpServer(port=0, address='127.0.0.1')
s = srv.add_slave(1)
s.add_block('r', defines.HOLDING_REGISTERS, 0, 4)
s.set_values('r', 0, [5, 6, 7, 8])
def start():
    srv.start()
    for _ in range(200):
        time.sleep(0.02)
        if srv._sockets and srv._sock is not None and not srv._sock._closed:
            break
    time.sleep(0.1)
    return srv._sock.getsockname()
def ask(tid, unit=1, n=1):
    return struct.pack('>HHHBBHH', tid, 0, 6, unit, 3, 1, n)
def want(tid):
    return struct.pack('>HHHBBBH', tid, 0, 5, 1, 3, 2, 6)
def get(c, t=3):
    c.settimeout(t)
    try:
        return c.recv(100)
    except Exception as e:
        return repr(e)
'''

add('C07-stale-block', 'C07', 'modbus.py', [("""        (data_address, value) = struct.unpack(">H"+fmt, request_pdu[1:5])
        block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, data_address, 1)
        block[offset] = value
""", """        (data_address, value) = struct.unpack(">H"+fmt, request_pdu[1:5])
        if getattr(self, "_last_write", (None, ))[0] != data_address:
            # look for the block only when the address changes
            self._last_write = (data_address, ) + self._get_block_and_offset(defines.HOLDING_REGISTERS, data_address, 1)
        _, block, offset = self._last_write
        block[offset] = value
""")],
    'a register written twice, its block being removed (and maybe added again) in between',
    'the second write reports success but goes to the block that was removed', r'''
import struct
from modbus_tk import modbus, defines
s = modbus.Slave(1)
s.add_block('r', defines.HOLDING_REGISTERS, 0, 5)
w = lambda a, v: s.handle_request(struct.pack('>BHH', 6, a, v))
assert w(2, 7) == struct.pack('>BHH', 6, 2, 7) and s.get_values('r', 2) == (7,)
s.remove_block('r')
assert w(2, 8) == b'\x86\x02'
s.add_block('q', defines.HOLDING_REGISTERS, 0, 5)
assert w(2, 9) == struct.pack('>BHH', 6, 2, 9) and s.get_values('q', 2) == (9,)
''')

add('C20-leftover', 'C20', 'modbus_tcp.py', [("""                    request = to_data("")
                    is_ok = True
""", """                    # go on with what was received of a request before
                    self._partial = getattr(self, "_partial", {})
                    request = self._partial.pop(sock.fileno(), to_data(""))
                    is_ok = True
"""), ("""                    if is_ok:
                        response = ""
""", """                    if not is_ok:
                        self._partial[sock.fileno()] = request

                    if is_ok:
                        response = ""
""")],
    'a client that disconnects within a request, and a later client that gets the same file descriptor',
    'the first request of the later client is glued to the remains of the other one', SERVE + r'''
try:
    where = start()
    c = socket.create_connection(where, 3)
    c.sendall(ask(1)[:9])
    time.sleep(0.3)
    c.close()
    time.sleep(0.5)
    d = [socket.create_connection(where, 3) for _ in range(3)]
    got = []
    for k, x in enumerate(d):
        x.sendall(ask(20 + k))
        got.append(get(x))
finally:
    srv.stop()
assert got == [want(20), want(21), want(22)], got
''')

add('C20-stale-answer', 'C20', 'modbus_tcp.py', [("""                        except Exception as msg:
                            LOGGER.error("Error while handling a request, Exception occurred: %s", msg)
""", """                            self._response = response
                        except Exception as msg:
                            response = getattr(self, "_response", response)
                            LOGGER.error("Error while handling a request, Exception occurred: %s", msg)
""")],
    'a request whose handling raises, after one that was answered',
    'the answer to the earlier request is sent again, maybe to another client', SERVE + r'''
def hook(args):
    if args[1][1:2] == b'\x09':
        raise ValueError('no')
hooks.install_hook('modbus.Server.before_handle_request', hook)
try:
    where = start()
    a, b = [socket.create_connection(where, 3) for _ in range(2)]
    a.sendall(ask(1))
    assert get(a) == want(1)
    b.sendall(ask(9))
    got = [get(b, 1.5)]
    b.sendall(ask(2))
    got.append(get(b))
    a.close()
    b.close()
finally:
    srv.stop()
assert got[0] != want(1) and got[1] == want(2), got
''')

add('C21-patient', 'C21', 'modbus_tcp.py', [("""                    sock.settimeout(1.0)
""", """                    # nobody else waits when there is a single client
                    sock.settimeout(1.0 if len(self._sockets) > 2 else None)
""")],
    'a single client that sends a part of a request and falls silent, then another client',
    'the server waits for the first client for ever, and serves nobody else', SERVE + r'''
try:
    where = start()
    a = socket.create_connection(where, 3)
    a.sendall(ask(1)[:5])
    time.sleep(0.5)
    b = socket.create_connection(where, 3)
    b.sendall(ask(2))
    got = get(b, 6)
    a.close()
    b.close()
finally:
    srv.stop()
assert got == want(2), got
''')

add('C22-late-start', 'C22', 'modbus_rtu.py', [("""        start_time = time.time() if self.use_sw_timeout else 0
""", """        if self.use_sw_timeout and getattr(self, "_start_time", None) is None:
            self._start_time = time.time()
        start_time = getattr(self, "_start_time", None) or 0
""")],
    'the software timeout, and two calls further apart than the timeout',
    'a response that comes in time is dropped', FAKE + r'''
import struct, time
from modbus_tk import modbus_rtu, utils
p = Port()
m = modbus_rtu.RtuMaster(p)
m.set_timeout(0.3, use_sw_timeout=True)
def answer(b):
    f = struct.pack('>BBBH', 1, 3, 2, 77)
    p.inp = f + struct.pack('>H', utils.calculate_crc(f))
p.onwrite = answer
for k in range(4):
    assert m.execute(1, 3, 0, 1) == (77,), k
    time.sleep(0.2)
''')

add('C23-same-request', 'C23', 'modbus_rtu.py', [("""        self._serial.reset_input_buffer()
        self._serial.reset_output_buffer()
""", """        if request != getattr(self, "_last_request", None):
            # the answer to the same request is welcome whenever it comes
            self._serial.reset_input_buffer()
        self._serial.reset_output_buffer()
        self._last_request = request
""")],
    'the same request twice, with bytes on the line in between',
    'what is left on the line is taken for the answer', FAKE + r'''
import struct
from modbus_tk import modbus_rtu, utils
p = Port()
m = modbus_rtu.RtuMaster(p)
v = [0]
def frame(x):
    f = struct.pack('>BBBH', 1, 3, 2, x)
    return f + struct.pack('>H', utils.calculate_crc(f))
def answer(b):
    v[0] += 1
    p.inp += frame(v[0])
p.onwrite = answer
for k in range(4):
    got = m.execute(1, 3, 0, 1)
    assert got == (k + 1,), (k, got)
    p.inp += frame(999)
''')

add('C24-answered-before', 'C24', 'modbus_rtu.py', [("""                    if self._serial.in_waiting > 0:
""", """                    if self._serial.in_waiting > 0 and response != getattr(self, "_last_response", None):
"""), ("""                        self._serial.write(response)
                        self._serial.flush()
                        time""", """                        self._last_response = response
                        self._serial.write(response)
                        self._serial.flush()
                        time""")],
    'a response equal to the one sent last while a new request is pending already',
    'the answer to a request the master gave up is sent, on top of the next exchange', FAKE + r'''
import struct
from modbus_tk import modbus_rtu, utils, defines
p = Port()
srv = modbus_rtu.RtuServer(p)
s = srv.add_slave(1)
s.add_block('r', defines.HOLDING_REGISTERS, 0, 5)
f = struct.pack('>BBHH', 1, 3, 0, 2)
f += struct.pack('>H', utils.calculate_crc(f))
sent = []
for waiting in (0, 3, 3, 0, 1):
    p.inp, p.in_waiting = f, waiting
    p.out[:] = []
    srv._do_run()
    sent.append(len(p.out))
assert sent == [1, 0, 0, 1, 0], sent
''')

add('C25-all-copies', 'C25', 'hooks.py', [("""            _HOOKS[name].remove(fct)
""", """            _HOOKS[name] = [other for other in _HOOKS[name] if other != fct]
""")],
    'a function installed twice at one hook point and removed once',
    'every installation of the function is gone', r'''
from modbus_tk import hooks
seen = []
f = lambda a: seen.append('f')
g = lambda a: seen.append('g')
for k in (f, g, f):
    hooks.install_hook('demo.hook', k)
hooks.call_hooks('demo.hook', ())
assert seen == ['f', 'g', 'f'], seen
hooks.uninstall_hook('demo.hook', f)
seen[:] = []
hooks.call_hooks('demo.hook', ())
assert sorted(seen) == ['f', 'g'], seen
''')

add('C26-short-request', 'C26', 'modbus_tcp.py', [("""                    retval = call_hooks("modbus_tcp.TcpServer.after_recv", (self, sock, request))
                    if retval is not None:
                        request = retval
""", """                    retval = call_hooks("modbus_tcp.TcpServer.after_recv", (self, sock, request))
                    if retval is not None and len(retval) >= len(request):
                        request = retval
""")],
    'a hook that replaces what was received by something shorter, to drop a request',
    'the request is handled although a hook replaced it', SERVE + r'''
hooks.install_hook('modbus_tcp.TcpServer.after_recv', lambda a: b'' if a[2][1:2] == b'\x09' else None)
handled = []
hooks.install_hook('modbus.Server.before_handle_request', lambda a: handled.append(bytes(a[1])))
try:
    where = start()
    a = socket.create_connection(where, 3)
    a.sendall(ask(1))
    assert get(a) == want(1)
    a.sendall(ask(9))
    got = get(a, 1.5)
    a.close()
finally:
    srv.stop()
assert handled == [ask(1)] and got != want(9), (handled, got)
''')

add('C28-verbose', 'C28', 'modbus.py', [("""    @threadsafe_function
    def execute(
        self, slave,""", """    def execute(self, *args, **kwargs):
        \"\"\"Execute a modbus query: see _execute\"\"\"
        # while debugging every call has to show up in the log at once
        kwargs.setdefault("threadsafe", not self._verbose)
        return self._execute(*args, **kwargs)

    @threadsafe_function
    def _execute(
        self, slave,""")],
    'a master in verbose mode that is used by two threads',
    'the calls of two threads interleave, and take the answer to each other', r'''
import struct, threading, time
from modbus_tk import modbus, modbus_tcp
class M(modbus.Master):
    busy = bad = 0
    def _do_open(self): pass
    def _do_close(self): return True
    def _send(self, request):
        self.bad += self.busy
        self.busy = 1
        self.req = request
        time.sleep(0.05)
    def _recv(self, expected_length=-1):
        time.sleep(0.05)
        r, self.busy = self.req, 0
        return r[:4] + struct.pack('>HBBBH', 5, r[6], 3, 2, struct.unpack('>H', r[8:10])[0])
    def _make_query(self): return modbus_tcp.TcpQuery()
for verbose in (False, True):
    m = M(1.0)
    m.set_verbose(verbose)
    out = {}
    def run(k):
        try:
            out[k] = m.execute(1, 3, k, 1)
        except Exception as e:
            out[k] = repr(e)
    t = [threading.Thread(target=run, args=(k,)) for k in range(4)]
    [x.start() for x in t]
    [x.join() for x in t]
    assert not m.bad and out == {k: (k,) for k in range(4)}, (verbose, m.bad, out)
''')

add('C29-hook-keeps', 'C29', 'modbus_tcp.py', [("""            call_hooks("modbus_tcp.TcpMaster.after_close", (self, ))
            self._sock = None
            return True""", """            if call_hooks("modbus_tcp.TcpMaster.after_close", (self, )) is None:
                self._sock = None
            return True""")],
    'a hook at after_close that happens to return a value, and a master used again after closing',
    'the closed socket is kept and closed again', r'''
import socket, threading, struct
from modbus_tk import modbus_tcp, hooks
log = []
hooks.install_hook('modbus_tcp.TcpMaster.after_close', lambda a: log.append('closed') or len(log))
l = socket.socket()
l.bind(('127.0.0.1', 0))
l.listen(5)
m = modbus_tcp.TcpMaster('127.0.0.1', l.getsockname()[1], 1.0)
m.open()
m.close()
assert log == ['closed'], log
m.close()
m._do_close()
assert log == ['closed'], log
m.open()
c = [l.accept()[0] for _ in range(2)]
c[1].sendall(struct.pack('>HHHBBBH', 0, 0, 5, 1, 3, 2, 7))
m.close()
assert log == ['closed'] * 2, log
''')

add('C30-class-timeout', 'C30', 'modbus_rtu.py', [("""    def set_timeout(self, timeout):
        self._timeout = timeout
        self._serial.timeout = timeout
""", """    def set_timeout(self, timeout):
        RtuServer._timeout = timeout
        self._serial.timeout = timeout
""")],
    'two serial servers with different baud rates or multipliers at the same time',
    'after its first request a server reads with the timeout of the other one', FAKE + r'''
from modbus_tk import modbus_rtu
a, b = Port(), Port()
b.baudrate = 115200
x = modbus_rtu.RtuServer(a)
t = a.timeout
y = modbus_rtu.RtuServer(b, interframe_multiplier=10)
assert x.get_timeout() == a.timeout == t and y.get_timeout() == b.timeout == 0.005, (x.get_timeout(), t)
''')

add('C31-long-answer', 'C31', 'simulator_rpc_client.py', [("""            return response[len(prefix):]
""", """            return response[len(prefix):65536]
""")],
    'an answer of more than 64 KiB: the values of a large block',
    'the result is cut without an error', r'''
import socket, threading
from modbus_tk import simulator_rpc_client
l = socket.socket()
l.bind(('127.0.0.1', 0))
l.listen(5)
vals = [(k * 7) % 65536 for k in range(15000)]
def serve():
    c = l.accept()[0]
    c.recv(1000)
    c.sendall(('get_values done: ' + ' '.join(map(str, vals)) + '\r\n').encode())
    c.close()
threading.Thread(target=serve, daemon=True).start()
c = simulator_rpc_client.SimulatorRpcClient('127.0.0.1', l.getsockname()[1], 5)
got = c.get_values(1, 'b', 0, len(vals))
assert got == tuple(vals), len(got)
''')

add('C33-stale-sockets', 'C33', 'modbus_tcp.py', [("""        self._sockets = []
        self._sock.close()
        self._sock = None
""", """        self._sock.close()
        self._sock = None
"""), ("""        self._sockets.append(self._sock)
""", """        if not self._sockets or self._sockets[0].fileno() < 0:
            self._sockets[:1] = [self._sock]
        else:
            self._sockets.append(self._sock)
""")],
    'a server that had clients when it was stopped, and is started again',
    'the second run dies of the closed sockets of the first one', SERVE + r'''
try:
    where = start()
    a = socket.create_connection(where, 3)
    a.sendall(ask(1))
    assert get(a) == want(1)
    srv.stop()
    where = start()
    b = socket.create_connection(where, 3)
    b.sendall(ask(2))
    got = get(b)
    a.close()
    b.close()
finally:
    srv.stop()
assert got == want(2), got
''')

add('C34-first-connection', 'C34', 'modbus_tcp.py', [("""        call_hooks("modbus_tcp.TcpMaster.after_connect", (self, ))
""", """        if not self._is_opened:
            call_hooks("modbus_tcp.TcpMaster.after_connect", (self, ))
""")],
    'a master that loses its connection and connects again while sending',
    'the new connection is not reported', r'''
import socket, threading, struct, time
from modbus_tk import modbus_tcp, hooks
log = []
for n in ('before_connect', 'after_connect'):
    hooks.install_hook('modbus_tcp.TcpMaster.' + n, lambda a, n=n: log.append(n))
l = socket.socket()
l.bind(('127.0.0.1', 0))
l.listen(5)
def serve():
    for _ in range(3):
        c = l.accept()[0]
        r = c.recv(1000)
        c.sendall(r[:4] + struct.pack('>HBBBH', 5, 1, 3, 2, 7))
        c.close()
threading.Thread(target=serve, daemon=True).start()
m = modbus_tcp.TcpMaster('127.0.0.1', l.getsockname()[1], 2.0)
for k in range(3):
    assert m.execute(1, 3, 0, 1) == (7,)
    time.sleep(0.3)
assert log == ['before_connect', 'after_connect'] * 3, log
''')
