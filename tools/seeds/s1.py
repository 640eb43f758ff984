S = []


def add(id, prop, file, edits, needs, breaks, demo):
    S.append(dict(id=id, property=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo))


add('C01-long', 'C01', 'utils.py', [("            crc = (crc >> 8) ^ CRC16table[((c) ^ crc) & 0xFF]\n    return", "            crc = (crc >> 8) ^ CRC16table[((c) ^ crc) & 0xFF]\n            if c == crc == 0:\n                break\n    return")],
    'a byte sequence after which the checksum register is zero at a zero byte, so that zero bytes seem to change nothing, followed by other bytes',
    'the checksum of some byte sequences is not the Modbus CRC-16', r'''
import struct
from modbus_tk.utils import calculate_crc


def ref(data):
    crc = 0xffff
    for b in data:
        crc ^= b
        for _ in range(8):
            crc = (crc >> 1) ^ 0xa001 if crc & 1 else crc >> 1
    return (crc & 0xff) << 8 | crc >> 8


for d in (b'\x01', b'\x01\x03\x00', b'abc'):
    d += struct.pack('>H', ref(d))
    for t in (b'', b'\x00', b'\x00\x00\x00', b'\x00\x05', b'\x00\x00\x01\x02', b'\x07'):
        assert calculate_crc(d + t) == ref(d + t), d + t
''')

add('C02-broadcast-reply', 'C02', 'modbus_rtu.py', [("        if self._request_address != self._response_address:\n", "        if self._request_address and self._request_address != self._response_address:\n")],
    'a request to unit 0 followed by a well formed frame of another unit',
    'a response of a foreign unit is accepted after a request to address 0', r'''
import struct
from modbus_tk.modbus_rtu import RtuQuery
from modbus_tk.utils import calculate_crc
from modbus_tk.exceptions import ModbusInvalidResponseError
for want in (0, 1, 17, 255):
    for other in (0, 1, 5, 247):
        q = RtuQuery()
        q.build_request(b'\x03\x00\x00\x00\x01', want)
        f = struct.pack('>B', other) + b'\x03\x02\x00\x07'
        f += struct.pack('>H', calculate_crc(f))
        try:
            pdu = q.parse_response(f)
        except ModbusInvalidResponseError:
            assert want != other
        else:
            assert want == other, (want, other)
            assert bytes(pdu) == b'\x03\x02\x00\x07'
''')

add('C02-two-bytes', 'C02', 'modbus_rtu.py', [("        if len(request) < 3:\n", "        if len(request) < 2:\n")],
    'a request of exactly the two bytes FF FF',
    'a two-byte request, whose last two bytes are the checksum of nothing, is accepted', r'''
import itertools
from modbus_tk.modbus_rtu import RtuQuery
from modbus_tk.exceptions import ModbusInvalidRequestError
for t in [b'', b'\x00', b'\xff'] + [bytes(x) for x in itertools.product((0, 1, 0x7f, 0xff), repeat=2)]:
    try:
        r = RtuQuery().parse_request(t)
    except ModbusInvalidRequestError:
        continue
    raise SystemExit('%r accepted: %r' % (t, r))
''')

add('C03-trailing', 'C03', 'modbus_tcp.py', [("        if self.length != following_bytes_length:\n", "        if self.length > following_bytes_length:\n")],
    'a frame with more bytes than its length field announces',
    'a TCP frame whose length field does not match is accepted', r'''
import struct
from modbus_tk.modbus_tcp import TcpQuery, ModbusInvalidMbapError
q = TcpQuery()
f = bytearray(q.build_request(b'\x03\x00\x00\x00\x01', 9))
tid = bytes(f[:2])
for extra in (0, 1, 2, 200):
    for parse in ('parse_response', 'parse_request'):
        g = tid + struct.pack('>HHB', 0, 5, 9) + b'\x03\x02\x00\x07' + b'\x00' * extra
        try:
            getattr(q, parse)(g)
        except ModbusInvalidMbapError:
            assert extra, parse
        else:
            assert not extra, parse
''')

add('C04-late-read', 'C04', 'modbus_tcp.py', [("""    @threadsafe_function
    def _get_transaction_id(self):
        \"\"\"returns an identifier for the query\"\"\"
""", """    def _get_transaction_id(self):
        \"\"\"returns an identifier for the query\"\"\"
        self._next_transaction_id()
        return TcpQuery._last_transaction_id

    @threadsafe_function
    def _next_transaction_id(self):
        \"\"\"step to the next identifier\"\"\"
"""), ("            TcpQuery._last_transaction_id = 0\n        return TcpQuery._last_transaction_id\n", "            TcpQuery._last_transaction_id = 0\n")],
    'another thread builds a request between the step of the counter and its reading',
    'two queries of two threads get the same transaction id', r'''
import threading
from modbus_tk.modbus_tcp import TcpQuery


def build():
    return bytes(TcpQuery().build_request(b'\x01', 1))[:2]


def attempt(stop):
    """thread A is interrupted at its stop-th line inside modbus_tcp while thread B builds a request"""
    got, n = {}, [0]

    def tracer(frame, event, arg):
        if not frame.f_code.co_filename.endswith(('modbus_tcp.py', 'utils.py')):
            return None
        if event == 'line':
            n[0] += 1
            if n[0] == stop:
                t = threading.Thread(target=lambda: got.__setitem__('b', build()))
                t.daemon = True
                t.start()
                t.join(0.3)
                got['t'] = t
        return tracer

    def a():
        sys.settrace(tracer)
        try:
            got['a'] = build()
        finally:
            sys.settrace(None)
    t = threading.Thread(target=a)
    t.start()
    t.join(10)
    if 't' not in got:
        return False
    got['t'].join(5)
    assert got['a'] != got['b'], 'line %d: both threads got %r' % (stop, got['a'])
    return True


k = 1
while k < 200 and attempt(k):
    k += 1
assert k > 5
''')

add('C09-coil-value', 'C09', 'modbus.py', [("        elif value == 0xff00:\n", "        elif value >= 0xff00:\n")],
    'a single coil write with a value from FF01 to FFFF',
    'an illegal coil value is written instead of refused with exception 3', r'''
import struct
from modbus_tk import modbus, defines
s = modbus.Slave(1)
s.add_block('c', defines.COILS, 0, 30)
for v in (0, 1, 0xff, 0x100, 0xfeff, 0xff00, 0xff01, 0xffff):
    s.set_values('c', 3, 0)
    p = struct.pack('>BHH', 5, 3, v)
    r = bytes(s.handle_request(p))
    assert r == (p if v in (0, 0xff00) else b'\x85\x03'), (v, r)
    assert s.get_values('c', 3) == (int(v == 0xff00),), v
''')

add('C10-same-start', 'C10', 'modbus.py', [("        block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_write_address, quantity_of_x_to_write)\n",
     "        if starting_write_address != starting_read_address:\n            block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_write_address, quantity_of_x_to_write)\n")],
    'function 23 reading and writing at the same address, with a write range that leaves the block while the read range does not',
    'a request that fails has already written registers', r'''
import struct
from modbus_tk import modbus, defines
for rq, wq in ((2, 12), (1, 11), (10, 11), (3, 4), (10, 10)):
    s = modbus.Slave(1)
    s.add_block('r', defines.HOLDING_REGISTERS, 5, 10)
    old = tuple(range(100, 110))
    s.set_values('r', 5, old)
    p = struct.pack('>BHHHHB', 23, 5, rq, 5, wq, 2 * wq) + b'\x00\x01' * wq
    try:
        r = bytes(s.handle_request(p))
    except Exception as e:
        r = repr(e)
    now = s.get_values('r', 5, 10)
    if wq <= 10:
        assert now == (1,) * wq + old[wq:], now
    else:
        assert now == old, (r, now)
        assert r == b'\x97\x02', r
''')

add('C12-late-functions', 'C12', 'modbus.py', [("                if broadcast and (function_code in cant_be_broadcasted):\n", "                if broadcast and (function_code in cant_be_broadcasted or function_code > defines.WRITE_MULTIPLE_REGISTERS):\n")],
    'a broadcast mask write (function 22)',
    'a broadcast mask write reaches no slave', r'''
import struct
from modbus_tk import modbus, modbus_rtu, defines
from modbus_tk.utils import calculate_crc
db = modbus.Databank()
for i in (1, 2, 9):
    s = db.add_slave(i)
    s.add_block('r', defines.HOLDING_REGISTERS, 0, 4)
    s.set_values('r', 0, [0x12] * 4)
p = b'\x00' + struct.pack('>BHHH', 22, 1, 0xf2, 0x25)
p += struct.pack('>H', calculate_crc(p))
r = db.handle_request(modbus_rtu.RtuQuery(), p)
assert not r, r
for i in (1, 2, 9):
    assert db.get_slave(i).get_values('r', 0, 4) == (0x12, 0x17, 0x12, 0x12), i
''')

add('C13-cache', 'C13', 'modbus.py', [("        self.error_on_missing_slave = error_on_missing_slave\n", "        self.error_on_missing_slave = error_on_missing_slave\n        self._recent = None\n"),
    ("                    slave = self.get_slave(slave_id)\n", "                    if self._recent is None or self._recent[0] != slave_id:\n                        self._recent = (slave_id, self.get_slave(slave_id))\n                    slave = self._recent[1]\n")],
    'a request to a unit, then its removal, then another request to the same unit with no other unit addressed in between',
    'a request is carried out by a slave that was removed', r'''
import struct
from modbus_tk import modbus, modbus_rtu, defines
from modbus_tk.utils import calculate_crc


def frame(i, pdu):
    p = struct.pack('B', i) + pdu
    return p + struct.pack('>H', calculate_crc(p))


db = modbus.Databank()
s = db.add_slave(3)
s.add_block('r', defines.HOLDING_REGISTERS, 0, 4)
rd = frame(3, b'\x03\x00\x00\x00\x01')
assert bytes(db.handle_request(modbus_rtu.RtuQuery(), rd)) == frame(3, b'\x03\x02\x00\x00')
db.remove_slave(3)
assert not db.handle_request(modbus_rtu.RtuQuery(), rd)
t = db.add_slave(3)
t.add_block('r', defines.HOLDING_REGISTERS, 0, 4)
t.set_values('r', 0, 77)
assert bytes(db.handle_request(modbus_rtu.RtuQuery(), rd)) == frame(3, b'\x03\x02\x00\x4d')
''')

add('C14-shared-memory', 'C14', 'modbus.py', [("            if slave_id not in self._slaves:\n", "            if slave_id not in self._slaves or memory is not None:\n")],
    'adding a unit that exists already with a memory of its own',
    'adding an existing unit id replaces the slave instead of being refused', r'''
from modbus_tk import modbus, defines
from modbus_tk.exceptions import DuplicatedKeyError
db = modbus.Databank()
a = db.add_slave(4)
mem = {k: [] for k in (defines.COILS, defines.DISCRETE_INPUTS, defines.HOLDING_REGISTERS, defines.ANALOG_INPUTS)}
for m in (None, mem):
    try:
        db.add_slave(4, True, m)
    except DuplicatedKeyError:
        pass
    else:
        raise SystemExit('accepted')
    assert db.get_slave(4) is a
b = db.add_slave(5, True, mem)
assert db.get_slave(5) is b
''')

add('C15-name-per-kind', 'C15', 'modbus.py', [("            if block_name in self._blocks:\n", "            if block_name in self._blocks and self._blocks[block_name][0] == block_type:\n")],
    'adding a block of another kind under a name in use',
    'a name in use is given to a second block, and the first block can no longer be reached', r'''
from modbus_tk import modbus, defines
from modbus_tk.exceptions import DuplicatedKeyError
s = modbus.Slave(1)
s.add_block('a', defines.COILS, 0, 10)
for kind in (defines.COILS, defines.HOLDING_REGISTERS, defines.ANALOG_INPUTS):
    try:
        s.add_block('a', kind, 100, 10)
    except DuplicatedKeyError:
        pass
    else:
        raise SystemExit('accepted')
assert s.get_values('a', 0, 10) == (0,) * 10
''')

add('C16-tuple', 'C16', 'modbus.py', [("            size = 1\n            if isinstance(values, list) or isinstance(values, tuple):\n                size = len(values)", "            size = 1\n            if isinstance(values, list):\n                size = len(values)")],
    'writing a tuple that begins inside the block and ends outside it',
    'a local write that leaves the block is accepted and enlarges the block', r'''
from modbus_tk import modbus, defines
from modbus_tk.exceptions import OutOfModbusBlockError
for kind in (list, tuple):
    s = modbus.Slave(1)
    s.add_block('r', defines.HOLDING_REGISTERS, 10, 5)
    s.set_values('r', 10, kind(range(1, 6)))
    try:
        s.set_values('r', 13, kind((7, 8, 9)))
    except OutOfModbusBlockError:
        pass
    else:
        raise SystemExit('accepted a %s out of the block' % kind)
    assert s.get_values('r', 10, 5) == (1, 2, 3, 4, 5)
''')

add('C17-coil-value', 'C17', 'modbus.py', [("                if output_value != 0:\n", "                if output_value == 1 or output_value == 0xff00:\n")],
    'a single coil write with a true value other than 1',
    'the master encodes "on" as an illegal coil value', r'''
from modbus_tk import modbus, defines


class M(modbus.Master):
    def __init__(self):
        modbus.Master.__init__(self, 1.0)
        self.sent = []
    def _do_open(self): pass
    def _do_close(self): return True
    def _send(self, b): self.sent.append(bytes(b))
    def _recv(self, n): return self.sent[-1]
    def _make_query(self):
        class Q(modbus.Query):
            def build_request(self, pdu, slave): return pdu
            def parse_response(self, r): return r
        return Q()


for v in (0, 1, True, 2, 255, 0xff00, -1):
    m = M()
    m.execute(1, defines.WRITE_SINGLE_COIL, 7, output_value=v)
    assert m.sent == [b'\x05\x00\x07' + (b'\xff\x00' if v else b'\x00\x00')], (v, m.sent)
''')

add('C18-extra-bytes', 'C18', 'modbus.py', [("                    if byte_count != len(data):\n", "                    if byte_count > len(data):\n")],
    'a response to a coil read with more bytes than its byte count says, and a caller-given or raw format',
    'data is returned from a response whose byte count does not match', r'''
from modbus_tk import modbus, defines
from modbus_tk.exceptions import ModbusInvalidResponseError


class M(modbus.Master):
    def __init__(self, answer):
        modbus.Master.__init__(self, 1.0)
        self.answer = answer
    def _do_open(self): pass
    def _do_close(self): return True
    def _send(self, b): pass
    def _recv(self, n): return self.answer
    def _make_query(self):
        class Q(modbus.Query):
            def build_request(self, pdu, slave): return pdu
            def parse_response(self, r): return r
        return Q()


for a in (b'\x03\x02\x00\x07\x00\x08', b'\x03\x00\x00\x07', b'\x03\x04\x00\x07'):
    for kw in (dict(returns_raw=True), dict(data_format='>%dB' % (len(a) - 2)), dict()):
        try:
            r = M(a).execute(1, defines.READ_HOLDING_REGISTERS, 0, 1, **kw)
        except ModbusInvalidResponseError:
            continue
        except Exception as e:
            raise SystemExit('%r %r: %r' % (a, kw, e))
        raise SystemExit('%r %r: %r' % (a, kw, r))
assert M(b'\x03\x02\x00\x07').execute(1, defines.READ_HOLDING_REGISTERS, 0, 1) == (7,)
''')

FAKE = r'''
class Port(object):
    """a serial port: bytes arrive in the given pieces"""
    name, baudrate, is_open, in_waiting = 'fake', 9600, True, 0

    def __init__(self, pieces, timeout=1.0):
        self.pieces, self.timeout, self.inter_byte_timeout, self.out = list(pieces), timeout, None, b''

    def read(self, n=1):
        if not self.pieces:
            if self.timeout is None:
                raise SystemExit('blocked for ever')
            return b''
        p = self.pieces.pop(0)
        if len(p) > n:
            self.pieces.insert(0, p[n:])
            p = p[:n]
        return p

    def write(self, b):
        self.out += bytes(b)
        return len(b)

    def open(self): self.is_open = True
    def close(self): self.is_open = False
    def flush(self): pass
    def reset_input_buffer(self): pass
    def reset_output_buffer(self): pass
    def cancel_read(self): pass
'''

add('C19-mask-length', 'C19', 'modbus.py', [("                # slave + func + adress1 + adress2 + and_mask1 + and_mask2 + or_mask1 + or_mask2 + crc1 + crc2\n                expected_length = 10", "                # slave + func + adress1 + adress2 + and_mask1 + and_mask2 + crc1 + crc2\n                expected_length = 8")],
    'a mask write over a serial line',
    'the expected response length differs from the length of the response, so the response is cut', FAKE + r'''
import struct
from modbus_tk import modbus, modbus_rtu, defines
from modbus_tk.utils import calculate_crc
db = modbus.Databank()
s = db.add_slave(1)
s.add_block('r', defines.HOLDING_REGISTERS, 0, 4)


class Line(Port):
    def write(self, b):
        r = db.handle_request(modbus_rtu.RtuQuery(), bytes(b))
        self.pieces.append(bytes(r))


m = modbus_rtu.RtuMaster(Line([]))
assert m.execute(1, defines.MASK_WRITE_REGISTER, 1, and_mask=0xf2, or_mask=0x25) == (1, 0xf2, 0x25)
assert m.execute(1, defines.WRITE_SINGLE_REGISTER, 1, output_value=9) == (1, 9)
assert m.execute(1, defines.READ_HOLDING_REGISTERS, 0, 3) == (0, 9, 0)
''')

add('C20-pipelined', 'C20', 'modbus_tcp.py', [("""                        while (len(request) < (length + 6)) and is_ok:
                            new_byte = sock.recv(1)
""", """                        while (len(request) < (length + 6)) and is_ok:
                            new_byte = sock.recv(256)
""")],
    'two requests that arrive in one piece',
    'the server swallows the second of two pipelined requests', r'''
import socket, struct, time
from modbus_tk import modbus_tcp, defines
srv = modbus_tcp.TcpServer(port=0, address='127.0.0.1')
s = srv.add_slave(1)
s.add_block('r', defines.HOLDING_REGISTERS, 0, 4)
s.set_values('r', 0, [5, 6, 7, 8])
srv.start()
try:
    for _ in range(100):
        time.sleep(0.02)
        if srv._sockets:
            break
    c = socket.create_connection(srv._sock.getsockname(), 3)
    c.settimeout(4)
    c.sendall(b''.join(struct.pack('>HHHBBHH', t, 0, 6, 1, 3, t, 1) for t in range(3)))
    got = b''
    try:
        while len(got) < 33:
            b = c.recv(100)
            if not b:
                break
            got += b
    except socket.timeout:
        pass
    c.close()
finally:
    srv.stop()
assert got == b''.join(struct.pack('>HHHBBBH', t, 0, 5, 1, 3, 2, 5 + t) for t in range(3)), got
''')

add('C22-pieces', 'C22', 'modbus_rtu.py', [("            readed_len += len(read_bytes)\n", "            readed_len = len(read_bytes)\n")],
    'a response that arrives in three or more pieces on a port without read timeout',
    'the master asks for more bytes than the response still has, and hangs', FAKE + r'''
from modbus_tk import modbus_rtu
for pieces in (['0123456789'], ['0', '123456789'], ['012', '345', '6789'], ['0', '1', '2345', '6', '789']):
    class Strict(Port):
        def read(self, n=1):
            if sum(map(len, self.pieces)) < n:
                raise SystemExit('asked for %d bytes, only %d are to come' % (n, sum(map(len, self.pieces))))
            return Port.read(self, n)
    p = Strict([x.encode() for x in pieces])
    m = modbus_rtu.RtuMaster(p)
    m.set_timeout(None)
    got = m._recv(10)
    assert bytes(got) == b'0123456789', got
''')

add('C23-short-flush', 'C23', 'utils.py', [("        for sock in i_socks:\n            sock.recv(1024)\n", "        for sock in i_socks:\n            sock.recv(1024)\n        if lim > 1:\n            break\n")],
    'more than 1024 stale bytes on the connection when a request is sent',
    'stale bytes are left on the link and taken for the response', r'''
import socket, select
from modbus_tk import modbus_tcp
for stale in (0, 1, 1024, 1025, 2000):
    a, b = socket.socketpair()
    b.sendall(b'x' * stale)
    m = modbus_tcp.TcpMaster()
    m._sock = a
    again = []
    m._do_open = lambda: again.append(1)
    m._send(b'request')
    assert b.recv(100) == b'request'
    if not again:
        assert not select.select([a], [], [], 0)[0], '%d stale bytes: some are left' % stale
    m._sock = None
    a.close()
    b.close()
''')

add('C24-one-byte', 'C24', 'modbus_rtu.py', [("                    if self._serial.in_waiting > 0:\n", "                    if self._serial.in_waiting > 1:\n")],
    'exactly one byte of the next request has arrived when the response is ready',
    'the server answers although a new request has begun', FAKE + r'''
import struct, time
from modbus_tk import modbus_rtu, defines
from modbus_tk.utils import calculate_crc
time.sleep = lambda s: None
for waiting in (0, 1, 2, 8):
    f = b'\x01\x03\x00\x00\x00\x01'
    f += struct.pack('>H', calculate_crc(f))

    p = Port([f, b''])
    srv = modbus_rtu.RtuServer(p)
    p.in_waiting = waiting
    srv.add_slave(1).add_block('r', defines.HOLDING_REGISTERS, 0, 4)
    srv._do_run()
    assert bool(p.out) == (waiting == 0), (waiting, p.out)
''')

add('C26-empty-read', 'C26', 'modbus_rtu.py', [("                retval = call_hooks(\"modbus_rtu.RtuServer.after_read\", (self, request))\n                if retval is not None:\n", "                retval = call_hooks(\"modbus_rtu.RtuServer.after_read\", (self, request))\n                if retval:\n")],
    'an after_read hook that returns an empty request in order to drop it',
    'the request a hook replaced by an empty one is carried out all the same', FAKE + r'''
import struct, time
from modbus_tk import modbus_rtu, defines, hooks
from modbus_tk.utils import calculate_crc
time.sleep = lambda s: None
f = b'\x01\x06\x00\x00\x00\x09'
f += struct.pack('>H', calculate_crc(f))
for out, value in ((None, 9), (b'', 0), (f, 9)):
    p = Port([f, b''])
    srv = modbus_rtu.RtuServer(p)
    s = srv.add_slave(1)
    s.add_block('r', defines.HOLDING_REGISTERS, 0, 4)
    hooks.install_hook('modbus_rtu.RtuServer.after_read', lambda a: out)
    srv._do_run()
    hooks.uninstall_hook('modbus_rtu.RtuServer.after_read')
    assert s.get_values('r', 0) == (value,), (out, s.get_values('r', 0))
''')

add('C27-reader', 'C27', 'modbus.py', [("""            # returns the values
            if size == 1:
                return tuple([block[offset], ])
            else:
                return tuple(block[offset:offset+size])
""", """        # returns the values
        if size == 1:
            return tuple([block[offset], ])
        return tuple(block[offset:offset+size])
""")],
    'a local read while a request of another thread is writing several registers',
    'a reader sees half of a write', r'''
import struct, threading
from modbus_tk import modbus, defines, hooks


def attempt(stop):
    # the reader is interrupted at its stop-th line; meanwhile a writer starts and pauses in the middle of its four writes
    s = modbus.Slave(1)
    s.add_block('r', defines.HOLDING_REGISTERS, 0, 4)
    mid, go, n, seen, w = threading.Event(), threading.Event(), [0], [], []
    items = [0]

    def hook(args):
        items[0] += 1
        if items[0] == 3:
            mid.set()
            go.wait(1)

    def writer():
        s.handle_request(struct.pack('>BHHB', 16, 0, 4, 8) + b'\x00\x01' * 4)

    def tracer(frame, event, arg):
        if not frame.f_code.co_filename.endswith('modbus.py'):
            return None
        if event == 'line':
            n[0] += 1
            if n[0] == stop:
                t = threading.Thread(target=writer)
                w.append(t)
                t.start()
                mid.wait(0.2)
        return tracer

    def reader():
        sys.settrace(tracer)
        try:
            seen.append(s.get_values('r', 0, 4))
        finally:
            sys.settrace(None)
    hooks.install_hook('modbus.ModbusBlock.setitem', hook)
    t = threading.Thread(target=reader)
    t.start()
    t.join(0.8)
    go.set()
    t.join(5)
    for x in w:
        x.join(5)
    hooks.uninstall_hook('modbus.ModbusBlock.setitem')
    assert seen and seen[0] in ((0,) * 4, (1,) * 4), (stop, seen)
    return bool(w)


k = 1
while k < 100 and attempt(k):
    k += 1
assert k > 5
''')

add('C28-interrupt', 'C28', 'utils.py', [("        except Exception as excpt:\n            raise excpt\n        finally:\n            if threadsafe:\n                lock.release()\n        return ret", "        except Exception as excpt:\n            if threadsafe:\n                lock.release()\n            raise excpt\n        if threadsafe:\n            lock.release()\n        return ret")],
    'a call that ends with KeyboardInterrupt, SystemExit or another exception outside Exception, followed by a call from another thread',
    'the lock stays held after the exception: every other thread is blocked for ever', r"""
import threading
from modbus_tk.utils import threadsafe_function


@threadsafe_function
def f(x):
    if x:
        raise x
    return 'done'


for bad in (None, ValueError(1), KeyboardInterrupt(), SystemExit(), GeneratorExit()):
    try:
        f(bad)
    except BaseException:
        pass
    got = []
    t = threading.Thread(target=lambda: got.append(f(None)))
    t.daemon = True
    t.start()
    t.join(2)
    if got != ['done']:
        print('blocked after', repr(bad))
        sys.stdout.flush()
        os._exit(1)
""")

add('C29-opened-early', 'C29', 'modbus.py', [("            self._do_open()\n            self._is_opened = True", "            self._is_opened = True\n            self._do_open()")],
    'the first attempt to connect fails, and the master is used again afterwards',
    'after a failed open the master believes to be connected and never opens the link', r'''
from modbus_tk import modbus


class M(modbus.Master):
    n = 0
    def _do_open(self):
        self.n += 1
        if self.n == 1:
            raise IOError('refused')
    def _do_close(self): return True


m = M(1.0)
try:
    m.open()
except IOError:
    pass
m.open()
m.open()
assert m.n == 2, m.n
''')

add('C30-server-multipliers', 'C30', 'modbus_rtu.py', [("        self._serial.inter_byte_timeout = interchar_multiplier * self._t0\n        self.set_timeout(interframe_multiplier * self._t0)\n\n        self._block_on", "        self._serial.inter_byte_timeout = interchar_multiplier * self._t0\n        self.set_timeout(interframe_multiplier / interchar_multiplier * self._serial.inter_byte_timeout\n                         if interframe_multiplier >= interchar_multiplier else self._serial.inter_byte_timeout)\n\n        self._block_on")],
    'a server with an interframe multiplier below its interchar multiplier',
    'the read timeout of the server is not the configured multiple of the character time', r"""
from modbus_tk import modbus_rtu


class Port(object):
    baudrate = 9600
    is_open = False
    timeout = inter_byte_timeout = None
    portstr = name = 'port'

    def open(self):
        pass

    close = open

    def isOpen(self):
        return False


for a, b in ((1.5, 3.5), (2.0, 4.0), (3.0, 3.0), (2.0, 1.0)):
    p = Port()
    modbus_rtu.RtuServer(p, interchar_multiplier=a, interframe_multiplier=b)
    assert abs(p.inter_byte_timeout - a * 11.0 / 9600) < 1e-9, (a, b)
    assert abs(p.timeout - b * 11.0 / 9600) < 1e-9, (a, b, p.timeout)
""")

add('C31-quit', 'C31', 'simulator.py', [("            if cmd.find('quit') == 0:\n", "            if cmd.find('quit') >= 0:\n")],
    'a command with the text quit inside, such as a block of that name',
    'a command is not executed and the simulator ends', r'''
import serial
serial.Serial = lambda *a, **k: None
from modbus_tk import simulator, modbus, defines


class R(object):
    pass


simulator.RpcInterface = R
simulator.ConsoleInterface = R
srv = modbus.Server.__new__(modbus.Server)
srv._databank = modbus.Databank()
sim = simulator.Simulator(srv)
for c in ('add_slave 1', 'add_block 1 quit 1 0 10', 'set_values 1 quit 3 1', 'quit'):
    sim.inq.put(c + '\r\n')
sim._handle()
out = []
while not sim.outq.empty():
    out.append(sim.outq.get())
assert out == ['add_slave done: 1\r\n', 'add_block done: quit\r\n', 'set_values done: 1\r\n', 'bye-bye\r\n'], out
''')

add('C32-discrete', 'C32', 'pymodbusclient.py', [("cst.READ_DISCRETE_INPUTS, bit_addr, bit_number)", "cst.READ_COILS, bit_addr, bit_number)")],
    'discrete inputs that differ from the coils at the same addresses',
    'reading discrete inputs returns coils', r'''
from modbus_tk import pymodbusclient, defines


class C(object):
    calls = []
    def execute(self, *a, **k):
        self.calls.append((a, k))
        return (1, 0, 1)


p = pymodbusclient.PyModbusClientTCP('127.0.0.1', 502, 1.0)
p.client = C()
assert p.read_discrete_inputs(5, 3) == [1, 0, 1]
assert C.calls[-1][0][:2] == (1, defines.READ_DISCRETE_INPUTS), C.calls
assert p.read_coils(5, 3) == [1, 0, 1]
assert C.calls[-1][0][:2] == (1, defines.READ_COILS), C.calls
''')
