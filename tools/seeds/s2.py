S = []


def add(i, prop, f, edits, needs, breaks, demo):
    S.append(dict(id=i, property=prop, file=f, edits=edits, needs=needs, breaks=breaks, demo=demo))


add('C06-inputs', 'C06', 'modbus.py', [("""        for reg in values:
            fmt = "H" if self.unsigned else "h"
            response += struct.pack(">"+fmt, reg)
        return response

    def _read_holding_registers""", """        for reg in values:
            fmt = "H" if self.unsigned or block_type == defines.ANALOG_INPUTS else "h"
            response += struct.pack(">"+fmt, reg)
        return response

    def _read_holding_registers""")],
    'a signed slave with a negative input register', 'the request fails instead of being answered', r"""
import struct
from modbus_tk import modbus, defines
for unsigned in (True, False):
    s = modbus.Slave(1, unsigned)
    s.add_block('r', defines.HOLDING_REGISTERS, 0, 200)
    s.add_block('i', defines.ANALOG_INPUTS, 0, 200)
    lo, hi = (0, 65535) if unsigned else (-32768, 32767)
    vals = [lo + (hi - lo) * k // 199 for k in range(200)]
    s.set_values('r', 0, vals)
    s.set_values('i', 0, vals)
    for f in (3, 4):
        for q in (1, 2, 64, 124, 125):
            for a in (0, 1, 75):
                r = bytes(s.handle_request(struct.pack('>BHH', f, a, q)))
                assert r == bytes([f, 2 * q]) + struct.pack('>%d%s' % (q, 'H' if unsigned else 'h'), *vals[a:a + q]), (f, q, a)
""")

add('C08-lazy', 'C08', 'modbus.py', [("""        # get the values
        values = block[offset:offset+quantity_of_x_to_read]
        # write the response header
        response = struct.pack(">B", 2 * quantity_of_x_to_read)
        # add the values of every register on 2 bytes
        for reg in values:
            fmt = "H" if self.unsigned else "h"
            response += struct.pack(">"+fmt, reg)

        # write part
        # look for the block corresponding to the request
        block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_write_address, quantity_of_x_to_write)

        count = 0
        for i in range(quantity_of_x_to_write):
            count += 1
            fmt = "H" if self.unsigned else "h"
            block[offset+i] = struct.unpack(">"+fmt, request_pdu[10+2*i:12+2*i])[0]

        return response
""", """        # get the values
        read_block, read_offset = block, offset
        values = [block[offset + i] for i in range(quantity_of_x_to_read)]

        # write part
        # look for the block corresponding to the request
        block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_write_address, quantity_of_x_to_write)

        fmt = "H" if self.unsigned else "h"
        for i in range(quantity_of_x_to_write):
            block[offset+i] = struct.unpack(">"+fmt, request_pdu[10+2*i:12+2*i])[0]

        # write the response header
        response = struct.pack(">B", 2 * quantity_of_x_to_read)
        # add the values of every register on 2 bytes
        if (read_block, read_offset, quantity_of_x_to_read) == (block, offset, quantity_of_x_to_write):
            # the registers written are the ones that were read
            return response + request_pdu[10:10+byte_count_to_write]
        for reg in values:
            response += struct.pack(">"+fmt, reg)

        return response
""")],
    'a read/write request whose read range is exactly its write range', 'the reply carries the new values', r'''
import struct
from modbus_tk import modbus, defines
for ra, rq, wa, wq in ((0, 4, 2, 2), (2, 2, 0, 4), (1, 3, 1, 3), (0, 1, 0, 1), (5, 1, 4, 2)):
    s = modbus.Slave(1)
    s.add_block('r', defines.HOLDING_REGISTERS, 0, 8)
    s.set_values('r', 0, list(range(100, 108)))
    r = bytes(s.handle_request(struct.pack('>BHHHHB', 23, ra, rq, wa, wq, 2 * wq) + struct.pack('>%dH' % wq, *range(1, wq + 1))))
    assert r == bytes([23, 2 * rq]) + struct.pack('>%dH' % rq, *range(100 + ra, 100 + ra + rq)), (ra, rq, wa, wq, r)
    want = list(range(100, 108))
    want[wa:wa + wq] = range(1, wq + 1)
    assert list(s.get_values('r', 0, 8)) == want
''')

add('C05-negative', 'C05', 'modbus.py', [("            if coil:\n                byte_value += (1 << i)\n", "            if coil > 0:\n                byte_value += (1 << i)\n")],
    'a coil or discrete input holding a negative value, such as a bit field of all ones', 'the bit of a non-zero item is 0', r"""
import struct
from modbus_tk import modbus, defines
s = modbus.Slave(1)
s.add_block('c', defines.COILS, 0, 64)
for v in (0, 1, 2, 255, True, -1, -32768):
    s.set_values('c', 0, [v] * 64)
    for q in (1, 7, 8, 9, 16, 64):
        n = (q + 7) // 8
        w = sum(1 << k for k in range(q)) if v else 0
        r = bytes(s.handle_request(struct.pack('>BHH', 1, 0, q)))
        assert r == bytes([1, n]) + w.to_bytes(n, 'little'), (v, q, r)
""")

add('C11-one-byte-pdu', 'C11', 'modbus_rtu.py', [("        if len(request) < 3:\n            raise ModbusInvalidRequestError", "        if not request or request[0] and len(request) < 3:\n            raise ModbusInvalidRequestError")],
    'a string of one or two bytes that begins with the broadcast address', 'the server sends bytes that are no frame', r'''
from modbus_tk import modbus, modbus_rtu, defines
db = modbus.Databank()
db.add_slave(1)
for req in (b'', b'\x01', b'\x01\x02', b'\x00', b'\x00\x00', b'\x00\x41', b'\xff\xff', b'\x00\x00\x00'):
    r = db.handle_request(modbus_rtu.RtuQuery(), req)
    assert not r, (req, r)
''')
