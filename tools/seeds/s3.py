S = []


def add(i, prop, f, edits, needs, breaks, demo):
    S.append(dict(id=i, property=prop, file=f, edits=edits, needs=needs, breaks=breaks, demo=demo))



add('C33-dead-after-error', 'C33', 'modbus.py', [("""            LOGGER.debug("%s has stopped", self.__class__)
            self._do_exit()
        except Exception as excpt:""", """            LOGGER.debug("%s has stopped", self.__class__)
            self._do_exit()
            # make possible to rerun in future
            self._make_thread()
        except Exception as excpt:"""), ("""            call_hooks("modbus.Server.on_exception", (self, excpt))
        # make possible to rerun in future
        self._make_thread()
""", """            call_hooks("modbus.Server.on_exception", (self, excpt))
""")],
    'an error that escapes from the server (its port is in use, say), and starting it again afterwards',
    'the server can never be started again', r"""
import time
from modbus_tk import modbus
class S(modbus.Server):
    fail = True
    steps = 0
    def _do_init(self):
        if self.fail:
            raise OSError('address in use')
    def _do_run(self):
        self.steps += 1
        time.sleep(0.01)
s = S()
for k in range(3):
    s.fail = k == 1
    n = s.steps
    s.start()
    time.sleep(0.4)
    s.stop()
    time.sleep(0.2)
    assert (s.steps == n) == s.fail, k
""")

add('C33-worker-init', 'C33', 'utils.py', [("""        try:
            if self._fcts[0]:
                self._fcts[0](*self._args)
            while self._go.isSet():""", """        if self._fcts[0]:
            self._fcts[0](*self._args)
        try:
            while self._go.isSet():""")],
    'a worker thread whose init function raises', 'the exit function is not called', r"""
import time
from modbus_tk import utils
log = []
def init():
    log.append('init')
    raise ValueError('no')
import threading
threading.excepthook = lambda a: None
w = utils.WorkerThread(lambda: log.append('main'), (), init, lambda: log.append('exit'))
w.start()
time.sleep(0.5)
assert log == ['init', 'exit'], log
log2 = []
w = utils.WorkerThread(lambda: (log2.append('main'), 1 // 0), (), lambda: log2.append('init'), lambda: log2.append('exit'))
w.start()
time.sleep(0.5)
assert log2 == ['init', 'main', 'exit'], log2
""")

add('C34-late-hook', 'C34', 'modbus.py', [("""        call_hooks("modbus.Slave.handle_write_single_register_request", (self, request_pdu))

        fmt = "H" if self.unsigned else "h"
        (data_address, value) = struct.unpack(">H"+fmt, request_pdu[1:5])
        block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, data_address, 1)
        block[offset] = value
""", """        fmt = "H" if self.unsigned else "h"
        (data_address, value) = struct.unpack(">H"+fmt, request_pdu[1:5])
        block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, data_address, 1)
        block[offset] = value
        call_hooks("modbus.Slave.handle_write_single_register_request", (self, request_pdu))
""")],
    'a hook that looks at the memory as it was before the write (to log the old value, say), or a refused write',
    'the hook of a single register write comes too late, or never', r"""
import struct
from modbus_tk import modbus, defines, hooks
s = modbus.Slave(1)
s.add_block('r', defines.HOLDING_REGISTERS, 0, 20)
s.add_block('c', defines.COILS, 0, 20)
seen = []
def hook(args):
    slave, pdu = args
    seen.append((bytes(pdu), slave.get_values('r', 3)[0], slave.get_values('c', 3)[0]))
for name in ('write_single_register', 'write_single_coil', 'write_multiple_registers', 'write_multiple_coils', 'mask_write_register'):
    hooks.install_hook('modbus.Slave.handle_%s_request' % name, hook)
for pdu in (struct.pack('>BHH', 6, 3, 77), struct.pack('>BHH', 5, 3, 0xff00), struct.pack('>BHHBH', 16, 3, 1, 2, 9),
            struct.pack('>BHHBB', 15, 3, 1, 1, 0), struct.pack('>BHHH', 22, 3, 0, 0x55), struct.pack('>BHH', 6, 30, 1)):
    old = s.get_values('r', 3)[0], s.get_values('c', 3)[0]
    del seen[:]
    s.handle_request(pdu)
    assert seen == [(pdu,) + old], (pdu, seen, old)
""")

add('C34-quiet-block', 'C34', 'modbus.py', [("""        call_hooks("modbus.ModbusBlock.setitem", (self, item, value))
""", """        if self._data.__getitem__(item) == value:
            # nothing changes
            return
        call_hooks("modbus.ModbusBlock.setitem", (self, item, value))
""")],
    'writing the value an item already holds', 'the assignment is not reported', r"""
import struct
from modbus_tk import modbus, defines, hooks
s = modbus.Slave(1)
s.add_block('r', defines.HOLDING_REGISTERS, 5, 20)
seen = []
hooks.install_hook('modbus.ModbusBlock.setitem', lambda a: seen.append((a[1], a[2])))
for v in (4, 0, 4, 4, 0, 0):
    del seen[:]
    s.handle_request(struct.pack('>BHH', 6, 8, v))
    assert seen == [(3, v)], seen
""")
