From 4c0ba3ff044dd10491c0a1082b1ff8d18b093061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 01/26] fix: keep the blocks of a kind sorted so that overlaps
 are always found

Adding a block after the last one inserted it at the front of the list, and
the overlap scan, which stops at the first block that starts later, then
missed overlaps with the blocks behind it.
---
 modbus_tk/modbus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 17080d3..a9bf7de 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -792,7 +792,7 @@ class Slave(object):
             # check that the new block doesn't overlap an existing block
             # it means that only 1 block per type must correspond to a given address
             # for example: it must not have 2 holding registers at address 100
-            index = 0
+            index = len(self._memory[block_type])
             for i in range(len(self._memory[block_type])):
                 block = self._memory[block_type][i]
                 if block.is_in(starting_address, size):
-- 
2.43.0


From ae2e6e23b870abfa9e44c50761e4f04a90ea3b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 02/26] fix: refuse a write whose data is shorter than its byte
 count before writing

The values present were written one by one and the request then failed half
way, leaving the write partly applied.
---
 modbus_tk/modbus.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index a9bf7de..692ee7b 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -620,7 +620,8 @@ class Slave(object):
             response += struct.pack(">"+fmt, reg)
 
         # write part
-        if (quantity_of_x_to_write <= 0) or (quantity_of_x_to_write > 123) or (byte_count_to_write != (quantity_of_x_to_write * 2)):
+        if (quantity_of_x_to_write <= 0) or (quantity_of_x_to_write > 123) or (byte_count_to_write != (quantity_of_x_to_write * 2)) \
+                or (len(request_pdu) < 10 + byte_count_to_write):
             # maximum allowed size is 123 registers in one reading
             raise ModbusError(defines.ILLEGAL_DATA_VALUE)
 
@@ -652,7 +653,8 @@ class Slave(object):
         # get the starting address and the number of items from the request pdu
         (starting_address, quantity_of_x, byte_count) = struct.unpack(">HHB", request_pdu[1:6])
 
-        if (quantity_of_x <= 0) or (quantity_of_x > 123) or (byte_count != (quantity_of_x * 2)):
+        if (quantity_of_x <= 0) or (quantity_of_x > 123) or (byte_count != (quantity_of_x * 2)) \
+                or (len(request_pdu) < 6 + byte_count):
             # maximum allowed size is 123 registers in one reading
             raise ModbusError(defines.ILLEGAL_DATA_VALUE)
 
@@ -677,7 +679,8 @@ class Slave(object):
         if (quantity_of_x % 8) > 0:
             expected_byte_count += 1
 
-        if (quantity_of_x <= 0) or (quantity_of_x > 1968) or (byte_count != expected_byte_count):
+        if (quantity_of_x <= 0) or (quantity_of_x > 1968) or (byte_count != expected_byte_count) \
+                or (len(request_pdu) < 6 + byte_count):
             # maximum allowed size is 1968 coils
             raise ModbusError(defines.ILLEGAL_DATA_VALUE)
 
-- 
2.43.0


From df3f95cd87ed0f8e530504a9871200aca53b5386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 03/26] fix: a mask write on a signed slave stores a signed
 value

A result with the top bit set was stored as a number above 32767, which a
later read of that register could not encode.
---
 modbus_tk/modbus.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 692ee7b..f501e5b 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -643,7 +643,11 @@ class Slave(object):
         (data_address, and_mask, or_mask) = struct.unpack(">HHH", request_pdu[1:7])
         # look for the block corresponding to the request
         block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, data_address, 1)
-        block[offset] = (block[offset] & and_mask) | (or_mask & ~and_mask)
+        value = (block[offset] & and_mask) | (or_mask & ~and_mask)
+        if not self.unsigned and value > 0x7FFF:
+            # registers of a signed slave hold signed 16-bit values
+            value -= 0x10000
+        block[offset] = value
         # returns echo of the command
         return request_pdu[1:]
 
-- 
2.43.0


From e43d651222a3e0b8e1c56d544551a6e07afb4526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 04/26] fix: a request with a function code above 127 no longer
 raises out of the server

Adding 128 to such a code does not fit the byte.
---
 modbus_tk/modbus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index f501e5b..e8f1ead 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -778,7 +778,7 @@ class Slave(object):
             except ModbusError as excpt:
                 LOGGER.debug(str(excpt))
                 call_hooks("modbus.Slave.on_exception", (self, function_code, excpt))
-                return struct.pack(">BB", function_code+128, excpt.get_exception_code())
+                return struct.pack(">BB", function_code | 0x80, excpt.get_exception_code())
 
     def add_block(self, block_name, block_type, starting_address, size):
         """Add a new block identified by its name"""
@@ -989,7 +989,7 @@ class Databank(object):
         if len(request_pdu) > 0:
             (func_code, ) = struct.unpack(">B", request_pdu[0:1])
 
-        return struct.pack(">BB", func_code + 0x80, defines.SLAVE_DEVICE_FAILURE)
+        return struct.pack(">BB", func_code | 0x80, defines.SLAVE_DEVICE_FAILURE)
 
 
 class Server(object):
-- 
2.43.0


From 89a240bd71f6c65aa472b8c308fc45354c05607e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 05/26] fix: a broadcast reaches every slave and is never
 answered

One slave failing on the request kept it from the following slaves and made
the server send an error reply to a broadcast.
---
 modbus_tk/modbus.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index e8f1ead..a1d1788 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -956,8 +956,15 @@ class Databank(object):
             # get the slave and let him executes the action
             if slave_id == 0:
                 # broadcast
-                for key in self._slaves:
-                    self._slaves[key].handle_request(request_pdu, broadcast=True)
+                with self._lock:
+                    slaves = list(self._slaves.values())
+                for slave in slaves:
+                    try:
+                        slave.handle_request(request_pdu, broadcast=True)
+                    except Exception as excpt:
+                        # a failing slave must not prevent the others from receiving the broadcast
+                        call_hooks("modbus.Databank.on_error", (self, excpt, request_pdu))
+                        LOGGER.error("handle broadcast failed: " + str(excpt))
                 return
             else:
                 try:
-- 
2.43.0


From d590ee8b8162cd3049f99eee4c984b9a147b574a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 06/26] fix: send the complete frame when the system accepts
 only part of it

---
 modbus_tk/modbus_tcp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus_tcp.py b/modbus_tk/modbus_tcp.py
index e4808e9..ad81206 100644
--- a/modbus_tk/modbus_tcp.py
+++ b/modbus_tk/modbus_tcp.py
@@ -202,7 +202,7 @@ class TcpMaster(Master):
             #try to reconnect
             LOGGER.error('Error while flushing the socket: {0}'.format(msg))
             self._do_open()
-        self._sock.send(request)
+        self._sock.sendall(request)
 
     def _recv(self, expected_length=-1):
         """
@@ -346,7 +346,7 @@ class TcpServer(Server):
                                 retval = call_hooks("modbus_tcp.TcpServer.before_send", (self, sock, response))
                                 if retval is not None:
                                     response = retval
-                                sock.send(response)
+                                sock.sendall(response)
                                 call_hooks("modbus_tcp.TcpServer.after_send", (self, sock, response))
                             except Exception as msg:
                                 is_ok = False
-- 
2.43.0


From 147f8cee16a814075f811d1c2e195955b370449c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:51 +0000
Subject: [PATCH 07/26] fix: RTU over TCP master no longer loops for ever when
 the peer closes the connection

---
 modbus_tk/modbus_rtu_over_tcp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modbus_tk/modbus_rtu_over_tcp.py b/modbus_tk/modbus_rtu_over_tcp.py
index becc866..99f483f 100644
--- a/modbus_tk/modbus_rtu_over_tcp.py
+++ b/modbus_tk/modbus_rtu_over_tcp.py
@@ -26,6 +26,8 @@ class RtuOverTcpMaster(TcpMaster):
             rcv_byte = self._sock.recv(1)
             if rcv_byte:
                 response += rcv_byte
+            else:
+                break
             if expected_length >= 0 and len(response) >= expected_length:
                 break
         retval = call_hooks("modbus_rtu_over_tcp.RtuOverTcpMaster.after_recv", (self, response))
-- 
2.43.0


From e7dafd009975f604e5eb1dfefe5dc64d438eb655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:51 +0000
Subject: [PATCH 08/26] fix: RTU over TCP master reports an exception reply
 instead of waiting for more bytes

An exception reply is five bytes long, which is shorter than the expected
length of most normal replies, so the master timed out on it.
---
 modbus_tk/modbus_rtu_over_tcp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modbus_tk/modbus_rtu_over_tcp.py b/modbus_tk/modbus_rtu_over_tcp.py
index 99f483f..e3f9a9b 100644
--- a/modbus_tk/modbus_rtu_over_tcp.py
+++ b/modbus_tk/modbus_rtu_over_tcp.py
@@ -30,6 +30,9 @@ class RtuOverTcpMaster(TcpMaster):
                 break
             if expected_length >= 0 and len(response) >= expected_length:
                 break
+            if len(response) == 5 and bytearray(response)[1] > 0x80:
+                # exception response: slave + func + exception code + crc1 + crc2
+                break
         retval = call_hooks("modbus_rtu_over_tcp.RtuOverTcpMaster.after_recv", (self, response))
         if retval is not None:
             return retval
-- 
2.43.0


From 87991470ae78002554852c2d2a185d2fee647e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:51 +0000
Subject: [PATCH 09/26] fix: a failing accept no longer closes the listening
 socket of the TCP server

---
 modbus_tk/modbus_tcp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus_tcp.py b/modbus_tk/modbus_tcp.py
index ad81206..9ce338f 100644
--- a/modbus_tk/modbus_tcp.py
+++ b/modbus_tk/modbus_tcp.py
@@ -356,5 +356,6 @@ class TcpServer(Server):
             except Exception as excpt:
                 LOGGER.warning("Error while processing data on socket %d: %s", sock.fileno(), excpt)
                 call_hooks("modbus_tcp.TcpServer.on_error", (self, sock, excpt))
-                sock.close()
-                self._sockets.remove(sock)
+                if sock != self._sock:
+                    sock.close()
+                    self._sockets.remove(sock)
-- 
2.43.0


From fa0aafb586d05ee3e19f3a49088e3f2e03de6908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:51 +0000
Subject: [PATCH 10/26] fix: a KeyError raised by a hook function is no longer
 swallowed

---
 modbus_tk/hooks.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/modbus_tk/hooks.py b/modbus_tk/hooks.py
index 29f60b6..e14792e 100644
--- a/modbus_tk/hooks.py
+++ b/modbus_tk/hooks.py
@@ -99,12 +99,9 @@ def uninstall_hook(name, fct=None):
 def call_hooks(name, args):
     """call the function associated with the hook and pass the given args"""
     with _LOCK:
-        try:
-            for fct in _HOOKS[name]:
-                retval = fct(args)
-                if retval is not None:
-                    return retval
-        except KeyError:
-            pass
+        for fct in _HOOKS.get(name, ()):
+            retval = fct(args)
+            if retval is not None:
+                return retval
         return None
 
-- 
2.43.0


From 3faf8743be58bbbb4fb203979dd8100a1e867f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:51 +0000
Subject: [PATCH 11/26] fix: the simulator answers RPC commands on Python 3

The command read from the socket is bytes while the command loop works on
text, so the first RPC command ended the simulator.
---
 modbus_tk/simulator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index a220c52..5dada84 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -91,12 +91,16 @@ class RpcHandler(SocketServer.BaseRequestHandler):
         # self.request is the TCP socket connected to the client
         # read the incoming command
         request = self.request.recv(1024).strip()
+        if modbus_tk.utils.PY3:
+            request = request.decode('utf-8', 'replace')
         # write to the queue waiting to be processed by the server
         INPUT_QUEUE.put(request)
         # wait for the server answer in the output queue
         response = OUTPUT_QUEUE.get(timeout=5.0)
         # send back the answer
-        self.request.send(response)
+        if modbus_tk.utils.PY3:
+            response = response.encode('utf-8', 'replace')
+        self.request.sendall(response)
 
 
 class RpcInterface(threading.Thread):
-- 
2.43.0


From 54af2bf7c0bb9fb75ba3945be90df154a6f7134b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:51 +0000
Subject: [PATCH 12/26] fix: the simulator RPC client works on Python 3 and
 reads the complete answer

---
 modbus_tk/simulator_rpc_client.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/simulator_rpc_client.py b/modbus_tk/simulator_rpc_client.py
index 28049e7..ff1b261 100644
--- a/modbus_tk/simulator_rpc_client.py
+++ b/modbus_tk/simulator_rpc_client.py
@@ -28,9 +28,16 @@ class SimulatorRpcClient(object):
         sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
         sock.settimeout(self.timeout)
         sock.connect((self.host, self.port))
-        sock.send(query)
-        response = sock.recv(1024)
+        sock.sendall(query.encode('utf-8'))
+        response = b""
+        while not response.endswith(b"\n"):
+            data = sock.recv(1024)
+            if not data:
+                break
+            response += data
         sock.close()
+        if not isinstance(response, str):
+            response = response.decode('utf-8', 'replace')
         return self._response_to_values(response.strip("\r\n"), query.split(" ")[0])
 
     def _response_to_values(self, response, command):
-- 
2.43.0


From c882f10d99109a87196f4035a701dfb1a9a43b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:51 +0000
Subject: [PATCH 13/26] fix: the reads of the pymodbus-style client return the
 values that were read

---
 modbus_tk/pymodbusclient.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/modbus_tk/pymodbusclient.py b/modbus_tk/pymodbusclient.py
index c466591..d872c61 100644
--- a/modbus_tk/pymodbusclient.py
+++ b/modbus_tk/pymodbusclient.py
@@ -16,9 +16,7 @@ class PyModbusClientTCP():
 
     def read_input_registers(self, register, num=1):
         ret = self.client.execute(1, cst.READ_INPUT_REGISTERS, register, num)
-        to_array = None
-        to_array = map(to_array, ret)
-        return to_array
+        return list(ret)
 
     def write_single_register(self, register, word):
         self.client.execute(1, cst.WRITE_SINGLE_REGISTER, register, output_value=word)
@@ -28,17 +26,12 @@ class PyModbusClientTCP():
         self.client.execute(1, cst.WRITE_SINGLE_COIL, coil, output_value=value)
 
     def read_coils(self, bit_addr, bit_number=1):
-        self.client.execute(1, cst.READ_COILS, bit_addr, bit_number)
-        coils = self.coils[bit_addr:bit_addr+bit_number]
-        to_array = None
-        to_array = map(to_array, coils)
-        return to_array
+        coils = self.client.execute(1, cst.READ_COILS, bit_addr, bit_number)
+        return list(coils)
 
     def read_discrete_inputs(self, bit_addr, bit_number=1):
         registers = self.client.execute(1, cst.READ_DISCRETE_INPUTS, bit_addr, bit_number)
-        to_array = None
-        to_array = map(to_array, registers)
-        return to_array
+        return list(registers)
 
     def last_error(self):
         # TODO: Needs to have something here
-- 
2.43.0


From 94b3bc185cee60b78002c10c1b3f54334d06eef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:51 +0000
Subject: [PATCH 14/26] fix: RTU master can receive with the timeout disabled

The elapsed time was compared with None when no timeout is set.
---
 modbus_tk/modbus_rtu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modbus_tk/modbus_rtu.py b/modbus_tk/modbus_rtu.py
index 11c9ee8..a075869 100644
--- a/modbus_tk/modbus_rtu.py
+++ b/modbus_tk/modbus_rtu.py
@@ -155,7 +155,7 @@ class RtuMaster(Master):
                 read_duration = time.time() - start_time
             else:
                 read_duration = 0
-            if (not read_bytes) or (read_duration > self._serial.timeout):
+            if (not read_bytes) or (self._serial.timeout is not None and read_duration > self._serial.timeout):
                 break
             response += read_bytes
             if expected_length >= 0 and len(response) >= expected_length:
-- 
2.43.0


From b443fe48aee6cc3567a466982e2935864e3141d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:51 +0000
Subject: [PATCH 15/26] fix: a response with another function code than the
 request is refused

Its data was decoded and returned as if it answered the request.
---
 modbus_tk/modbus.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index a1d1788..d394bed 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -376,6 +376,12 @@ class Master(object):
                 # the slave has returned an error
                 exception_code = byte_2
                 raise ModbusError(exception_code)
+            elif function_code != defines.RAW and return_code != function_code:
+                raise ModbusInvalidResponseError(
+                    "Response function code is {0} while function code {1} was requested. ".format(
+                        return_code, function_code
+                    )
+                )
             else:
                 if is_read_function:
                     # get the values returned by the reading function
-- 
2.43.0


From 2d7f197a40f7b8ddf94597b44297ddda40484554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:14 +0000
Subject: [PATCH 16/26] fix: a read/write request with a bad write quantity is
 refused with code 3 before its addresses are looked up

---
 modbus_tk/modbus.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index d394bed..04d4ba0 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -613,6 +613,11 @@ class Slave(object):
             LOGGER.debug("quantity_of_x_to_read is %d", quantity_of_x_to_read)
             raise ModbusError(defines.ILLEGAL_DATA_VALUE)
 
+        if (quantity_of_x_to_write <= 0) or (quantity_of_x_to_write > 123) or (byte_count_to_write != (quantity_of_x_to_write * 2)) \
+                or (len(request_pdu) < 10 + byte_count_to_write):
+            # maximum allowed size is 123 registers in one reading
+            raise ModbusError(defines.ILLEGAL_DATA_VALUE)
+
         # look for the block corresponding to the request
         block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_read_address, quantity_of_x_to_read)
 
@@ -626,11 +631,6 @@ class Slave(object):
             response += struct.pack(">"+fmt, reg)
 
         # write part
-        if (quantity_of_x_to_write <= 0) or (quantity_of_x_to_write > 123) or (byte_count_to_write != (quantity_of_x_to_write * 2)) \
-                or (len(request_pdu) < 10 + byte_count_to_write):
-            # maximum allowed size is 123 registers in one reading
-            raise ModbusError(defines.ILLEGAL_DATA_VALUE)
-
         # look for the block corresponding to the request
         block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_write_address, quantity_of_x_to_write)
 
-- 
2.43.0


From 0f3a9e2b37cb1a761e91f83fafaec433240954e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:37 +0000
Subject: [PATCH 17/26] fix: the default data format of a diagnostic call
 matches the response

---
 modbus_tk/modbus.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 04d4ba0..c98d89b 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -297,7 +297,8 @@ class Master(object):
                     # copy data in pdu
                     pdu += struct.pack(">B", j)
                 if not data_format:
-                    data_format = ">" + (len(output_value) * "B")
+                    # the response repeats the sub-function before the data
+                    data_format = ">H" + (len(output_value) * "B")
                 if expected_length < 0:
                     # No length was specified and calculated length can be used:
                     # slave + func + SubFunc1 + SubFunc2 + Data + crc1 + crc2
-- 
2.43.0


From 70c9e285a8b919abb7ecc4bf1245e153bda8b02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:37 +0000
Subject: [PATCH 18/26] fix: a file record response with inconsistent group
 lengths is refused

---
 modbus_tk/modbus.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index c98d89b..7dfae2c 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -418,8 +418,12 @@ class Master(object):
                     sub_seq = list()
                     ptr = 0
                     while ptr < len(result):
-                        sub_seq += ((ptr + 2, ptr + 2 + result[ptr] // 2), )
-                        ptr += result[ptr] // 2 + 2
+                        count = result[ptr] // 2
+                        if len(sub_seq) >= count_seq or count != quantity_of_x[len(sub_seq)]:
+                            # the length of the group in the pdu is invalid
+                            raise ModbusInvalidResponseError("Length of file record {0} is invalid".format(len(sub_seq)))
+                        sub_seq += ((ptr + 2, ptr + 2 + count), )
+                        ptr += count + 2
                     result = tuple(map(lambda sub_seq_x: result[sub_seq_x[0]:sub_seq_x[1]], sub_seq))
                 return result
 
-- 
2.43.0


From f55f135bd812d93355cba5cd01a862675f4ec683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:26 +0000
Subject: [PATCH 19/26] fix: a RTU master without serial timeout asks only for
 the bytes still missing

---
 modbus_tk/modbus_rtu.py | 625 ++++++++++++++++++++--------------------
 1 file changed, 311 insertions(+), 314 deletions(-)

diff --git a/modbus_tk/modbus_rtu.py b/modbus_tk/modbus_rtu.py
index a075869..e965481 100644
--- a/modbus_tk/modbus_rtu.py
+++ b/modbus_tk/modbus_rtu.py
@@ -1,314 +1,311 @@
-#!/usr/bin/env python
-# -*- coding: utf-8 -*-
-"""
- Modbus TestKit: Implementation of Modbus protocol in python
-
- (C)2009 - Luc Jean - luc.jean@gmail.com
- (C)2009 - Apidev - http://www.apidev.fr
-
- This is distributed under GNU LGPL license, see license.txt
-
-"""
-
-import struct
-import time
-
-from modbus_tk import LOGGER
-from modbus_tk.modbus import (
-    Databank, Query, Master, Server,
-    InvalidArgumentError, ModbusInvalidResponseError, ModbusInvalidRequestError
-)
-from modbus_tk.hooks import call_hooks
-from modbus_tk import utils
-
-
-class RtuQuery(Query):
-    """Subclass of a Query. Adds the Modbus RTU specific part of the protocol"""
-
-    def __init__(self):
-        """Constructor"""
-        super(RtuQuery, self).__init__()
-        self._request_address = 0
-        self._response_address = 0
-
-    def build_request(self, pdu, slave):
-        """Add the Modbus RTU part to the request"""
-        self._request_address = slave
-        if (self._request_address < 0) or (self._request_address > 255):
-            raise InvalidArgumentError("Invalid address {0}".format(self._request_address))
-        data = struct.pack(">B", self._request_address) + pdu
-        crc = struct.pack(">H", utils.calculate_crc(data))
-        return data + crc
-
-    def parse_response(self, response):
-        """Extract the pdu from the Modbus RTU response"""
-        if len(response) < 3:
-            raise ModbusInvalidResponseError("Response length is invalid {0}".format(len(response)))
-
-        (self._response_address, ) = struct.unpack(">B", response[0:1])
-
-        if self._request_address != self._response_address:
-            raise ModbusInvalidResponseError(
-                "Response address {0} is different from request address {1}".format(
-                    self._response_address, self._request_address
-                )
-            )
-
-        (crc, ) = struct.unpack(">H", response[-2:])
-
-        if crc != utils.calculate_crc(response[:-2]):
-            raise ModbusInvalidResponseError("Invalid CRC in response")
-
-        return response[1:-2]
-
-    def parse_request(self, request):
-        """Extract the pdu from the Modbus RTU request"""
-        if len(request) < 3:
-            raise ModbusInvalidRequestError("Request length is invalid {0}".format(len(request)))
-
-        (self._request_address, ) = struct.unpack(">B", request[0:1])
-
-        (crc, ) = struct.unpack(">H", request[-2:])
-        if crc != utils.calculate_crc(request[:-2]):
-            raise ModbusInvalidRequestError("Invalid CRC in request")
-
-        return self._request_address, request[1:-2]
-
-    def build_response(self, response_pdu):
-        """Build the response"""
-        self._response_address = self._request_address
-        data = struct.pack(">B", self._response_address) + response_pdu
-        crc = struct.pack(">H", utils.calculate_crc(data))
-        return data + crc
-
-
-class RtuMaster(Master):
-    """Subclass of Master. Implements the Modbus RTU MAC layer"""
-
-    def __init__(self, serial, interchar_multiplier=1.5, interframe_multiplier=3.5, t0=None):
-        """Constructor. Pass the pyserial.Serial object"""
-        self._serial = serial
-        self.use_sw_timeout = False
-        LOGGER.debug("RtuMaster %s is %s", self._serial.name, "opened" if self._serial.is_open else "closed")
-        super(RtuMaster, self).__init__(self._serial.timeout)
-
-        if t0:
-            self._t0 = t0
-        else:
-            self._t0 = utils.calculate_rtu_inter_char(self._serial.baudrate)
-        self._serial.inter_byte_timeout = interchar_multiplier * self._t0
-        self.set_timeout(interframe_multiplier * self._t0)
-
-        # For some RS-485 adapters, the sent data(echo data) appears before modbus response.
-        # So read  echo data and discard it.  By yush0602@gmail.com
-        self.handle_local_echo = False
-
-    def _do_open(self):
-        """Open the given serial port if not already opened"""
-        if not self._serial.is_open:
-            call_hooks("modbus_rtu.RtuMaster.before_open", (self, ))
-            self._serial.open()
-
-    def _do_close(self):
-        """Close the serial port if still opened"""
-        if self._serial.is_open:
-            self._serial.close()
-            call_hooks("modbus_rtu.RtuMaster.after_close", (self, ))
-            return True
-
-    def set_timeout(self, timeout_in_sec, use_sw_timeout=False):
-        """Change the timeout value"""
-        Master.set_timeout(self, timeout_in_sec)
-        self._serial.timeout = timeout_in_sec
-        # Use software based timeout in case the timeout functionality provided by the serial port is unreliable
-        self.use_sw_timeout = use_sw_timeout
-
-    def _send(self, request):
-        """Send request to the slave"""
-        retval = call_hooks("modbus_rtu.RtuMaster.before_send", (self, request))
-        if retval is not None:
-            request = retval
-
-        self._serial.reset_input_buffer()
-        self._serial.reset_output_buffer()
-
-        self._serial.write(request)
-        self._serial.flush()
-
-        # Read the echo data, and discard it
-        if self.handle_local_echo:
-            self._serial.read(len(request))
-
-    def _recv(self, expected_length=-1):
-        """Receive the response from the slave"""
-        response = utils.to_data("")
-        start_time = time.time() if self.use_sw_timeout else 0
-        readed_len = 0
-        while True:
-            if self._serial.timeout:
-                # serial.read() says if a timeout is set it may return less characters as requested
-                # we should update expected_length by readed_len
-                read_bytes = self._serial.read(expected_length - readed_len if (expected_length - readed_len) > 0 else 1)
-            else:
-                read_bytes = self._serial.read(expected_length if expected_length > 0 else 1)
-            if self.use_sw_timeout:
-                read_duration = time.time() - start_time
-            else:
-                read_duration = 0
-            if (not read_bytes) or (self._serial.timeout is not None and read_duration > self._serial.timeout):
-                break
-            response += read_bytes
-            if expected_length >= 0 and len(response) >= expected_length:
-                # if the expected number of byte is received consider that the response is done
-                # improve performance by avoiding end-of-response detection by timeout
-                break
-            readed_len += len(read_bytes)
-
-        retval = call_hooks("modbus_rtu.RtuMaster.after_recv", (self, response))
-        if retval is not None:
-            return retval
-        return response
-
-    def _make_query(self):
-        """Returns an instance of a Query subclass implementing the modbus RTU protocol"""
-        return RtuQuery()
-
-
-class RtuServer(Server):
-    """This class implements a simple and mono-threaded modbus rtu server"""
-    _timeout = 0
-
-    def __init__(self, serial, databank=None, error_on_missing_slave=True, **kwargs):
-        """
-        Constructor: initializes the server settings
-        serial: a pyserial object
-        databank: the data to access
-        interframe_multiplier: 3.5 by default
-        interchar_multiplier: 1.5 by default
-        """
-        interframe_multiplier = kwargs.pop('interframe_multiplier', 3.5)
-        interchar_multiplier = kwargs.pop('interchar_multiplier', 1.5)
-
-        databank = databank if databank else Databank(error_on_missing_slave=error_on_missing_slave)
-        super(RtuServer, self).__init__(databank)
-
-        self._serial = serial
-        LOGGER.debug("RtuServer %s is %s", self._serial.name, "opened" if self._serial.is_open else "closed")
-
-        self._t0 = utils.calculate_rtu_inter_char(self._serial.baudrate)
-        self._serial.inter_byte_timeout = interchar_multiplier * self._t0
-        self.set_timeout(interframe_multiplier * self._t0)
-
-        self._block_on_first_byte = False
-
-    def close(self):
-        """close the serial communication"""
-        if self._serial.is_open:
-            call_hooks("modbus_rtu.RtuServer.before_close", (self, ))
-            self._serial.close()
-            call_hooks("modbus_rtu.RtuServer.after_close", (self, ))
-
-    def set_timeout(self, timeout):
-        self._timeout = timeout
-        self._serial.timeout = timeout
-
-    def get_timeout(self):
-        return self._timeout
-
-    def __del__(self):
-        """Destructor"""
-        self.close()
-
-    def _make_query(self):
-        """Returns an instance of a Query subclass implementing the modbus RTU protocol"""
-        return RtuQuery()
-
-    def start(self):
-        """Allow the server thread to block on first byte"""
-        self._block_on_first_byte = True
-        super(RtuServer, self).start()
-
-    def stop(self):
-        """Force the server thread to exit"""
-        # Prevent blocking on first byte in server thread.
-        # Without the _block_on_first_byte following problem could happen:
-        #   1. Current blocking read(1) is cancelled
-        #   2. Server thread resumes and start next read(1)
-        #   3. RtuServer clears go event and waits for thread to finish
-        #   4. Server thread finishes only when a byte is received
-        # Thanks to _block_on_first_byte, if server thread does start new read
-        # it will timeout as it won't be blocking.
-        self._block_on_first_byte = False
-        if self._serial.is_open:
-            # cancel any pending read from server thread, it most likely is
-            # blocking read(1) call
-            self._serial.cancel_read()
-        super(RtuServer, self).stop()
-
-    def _do_init(self):
-        """initialize the serial connection"""
-        if not self._serial.is_open:
-            call_hooks("modbus_rtu.RtuServer.before_open", (self, ))
-            self._serial.open()
-            call_hooks("modbus_rtu.RtuServer.after_open", (self, ))
-
-    def _do_exit(self):
-        """close the serial connection"""
-        self.close()
-
-    def _do_run(self):
-        """main function of the server"""
-        try:
-            # check the status of every socket
-            request = utils.to_data('')
-            if self._block_on_first_byte:
-                # do a blocking read for first byte
-                self._serial.timeout = None
-                try:
-                    read_bytes = self._serial.read(1)
-                    request += read_bytes
-                except Exception as e:
-                    self._serial.close()
-                    self._serial.open()
-                self._serial.timeout = self._timeout
-
-            # Read rest of the request
-            while True:
-                try:
-                    read_bytes = self._serial.read(128)
-                    if not read_bytes:
-                        break
-                except Exception as e:
-                    self._serial.close()
-                    self._serial.open()
-                    break
-                request += read_bytes
-
-            # parse the request
-            if request:
-                retval = call_hooks("modbus_rtu.RtuServer.after_read", (self, request))
-                if retval is not None:
-                    request = retval
-
-                response = self._handle(request)
-
-                # send back the response
-                retval = call_hooks("modbus_rtu.RtuServer.before_write", (self, response))
-                if retval is not None:
-                    response = retval
-
-                if response:
-                    if self._serial.in_waiting > 0:
-                        # Most likely master timed out on this request and started a new one
-                        # for which we already received atleast 1 byte
-                        LOGGER.warning("Not sending response because there is new request pending")
-                    else:
-                        self._serial.write(response)
-                        self._serial.flush()
-                        time.sleep(self.get_timeout())
-
-                call_hooks("modbus_rtu.RtuServer.after_write", (self, response))
-
-        except Exception as excpt:
-            LOGGER.error("Error while handling request, Exception occurred: %s", excpt)
-            call_hooks("modbus_rtu.RtuServer.on_error", (self, excpt))
+#!/usr/bin/env python
+# -*- coding: utf-8 -*-
+"""
+ Modbus TestKit: Implementation of Modbus protocol in python
+
+ (C)2009 - Luc Jean - luc.jean@gmail.com
+ (C)2009 - Apidev - http://www.apidev.fr
+
+ This is distributed under GNU LGPL license, see license.txt
+
+"""
+
+import struct
+import time
+
+from modbus_tk import LOGGER
+from modbus_tk.modbus import (
+    Databank, Query, Master, Server,
+    InvalidArgumentError, ModbusInvalidResponseError, ModbusInvalidRequestError
+)
+from modbus_tk.hooks import call_hooks
+from modbus_tk import utils
+
+
+class RtuQuery(Query):
+    """Subclass of a Query. Adds the Modbus RTU specific part of the protocol"""
+
+    def __init__(self):
+        """Constructor"""
+        super(RtuQuery, self).__init__()
+        self._request_address = 0
+        self._response_address = 0
+
+    def build_request(self, pdu, slave):
+        """Add the Modbus RTU part to the request"""
+        self._request_address = slave
+        if (self._request_address < 0) or (self._request_address > 255):
+            raise InvalidArgumentError("Invalid address {0}".format(self._request_address))
+        data = struct.pack(">B", self._request_address) + pdu
+        crc = struct.pack(">H", utils.calculate_crc(data))
+        return data + crc
+
+    def parse_response(self, response):
+        """Extract the pdu from the Modbus RTU response"""
+        if len(response) < 3:
+            raise ModbusInvalidResponseError("Response length is invalid {0}".format(len(response)))
+
+        (self._response_address, ) = struct.unpack(">B", response[0:1])
+
+        if self._request_address != self._response_address:
+            raise ModbusInvalidResponseError(
+                "Response address {0} is different from request address {1}".format(
+                    self._response_address, self._request_address
+                )
+            )
+
+        (crc, ) = struct.unpack(">H", response[-2:])
+
+        if crc != utils.calculate_crc(response[:-2]):
+            raise ModbusInvalidResponseError("Invalid CRC in response")
+
+        return response[1:-2]
+
+    def parse_request(self, request):
+        """Extract the pdu from the Modbus RTU request"""
+        if len(request) < 3:
+            raise ModbusInvalidRequestError("Request length is invalid {0}".format(len(request)))
+
+        (self._request_address, ) = struct.unpack(">B", request[0:1])
+
+        (crc, ) = struct.unpack(">H", request[-2:])
+        if crc != utils.calculate_crc(request[:-2]):
+            raise ModbusInvalidRequestError("Invalid CRC in request")
+
+        return self._request_address, request[1:-2]
+
+    def build_response(self, response_pdu):
+        """Build the response"""
+        self._response_address = self._request_address
+        data = struct.pack(">B", self._response_address) + response_pdu
+        crc = struct.pack(">H", utils.calculate_crc(data))
+        return data + crc
+
+
+class RtuMaster(Master):
+    """Subclass of Master. Implements the Modbus RTU MAC layer"""
+
+    def __init__(self, serial, interchar_multiplier=1.5, interframe_multiplier=3.5, t0=None):
+        """Constructor. Pass the pyserial.Serial object"""
+        self._serial = serial
+        self.use_sw_timeout = False
+        LOGGER.debug("RtuMaster %s is %s", self._serial.name, "opened" if self._serial.is_open else "closed")
+        super(RtuMaster, self).__init__(self._serial.timeout)
+
+        if t0:
+            self._t0 = t0
+        else:
+            self._t0 = utils.calculate_rtu_inter_char(self._serial.baudrate)
+        self._serial.inter_byte_timeout = interchar_multiplier * self._t0
+        self.set_timeout(interframe_multiplier * self._t0)
+
+        # For some RS-485 adapters, the sent data(echo data) appears before modbus response.
+        # So read  echo data and discard it.  By yush0602@gmail.com
+        self.handle_local_echo = False
+
+    def _do_open(self):
+        """Open the given serial port if not already opened"""
+        if not self._serial.is_open:
+            call_hooks("modbus_rtu.RtuMaster.before_open", (self, ))
+            self._serial.open()
+
+    def _do_close(self):
+        """Close the serial port if still opened"""
+        if self._serial.is_open:
+            self._serial.close()
+            call_hooks("modbus_rtu.RtuMaster.after_close", (self, ))
+            return True
+
+    def set_timeout(self, timeout_in_sec, use_sw_timeout=False):
+        """Change the timeout value"""
+        Master.set_timeout(self, timeout_in_sec)
+        self._serial.timeout = timeout_in_sec
+        # Use software based timeout in case the timeout functionality provided by the serial port is unreliable
+        self.use_sw_timeout = use_sw_timeout
+
+    def _send(self, request):
+        """Send request to the slave"""
+        retval = call_hooks("modbus_rtu.RtuMaster.before_send", (self, request))
+        if retval is not None:
+            request = retval
+
+        self._serial.reset_input_buffer()
+        self._serial.reset_output_buffer()
+
+        self._serial.write(request)
+        self._serial.flush()
+
+        # Read the echo data, and discard it
+        if self.handle_local_echo:
+            self._serial.read(len(request))
+
+    def _recv(self, expected_length=-1):
+        """Receive the response from the slave"""
+        response = utils.to_data("")
+        start_time = time.time() if self.use_sw_timeout else 0
+        readed_len = 0
+        while True:
+            # serial.read() may return less characters as requested (timeout or non-blocking port)
+            # we should update expected_length by readed_len
+            read_bytes = self._serial.read(expected_length - readed_len if (expected_length - readed_len) > 0 else 1)
+            if self.use_sw_timeout:
+                read_duration = time.time() - start_time
+            else:
+                read_duration = 0
+            if (not read_bytes) or (self._serial.timeout is not None and read_duration > self._serial.timeout):
+                break
+            response += read_bytes
+            if expected_length >= 0 and len(response) >= expected_length:
+                # if the expected number of byte is received consider that the response is done
+                # improve performance by avoiding end-of-response detection by timeout
+                break
+            readed_len += len(read_bytes)
+
+        retval = call_hooks("modbus_rtu.RtuMaster.after_recv", (self, response))
+        if retval is not None:
+            return retval
+        return response
+
+    def _make_query(self):
+        """Returns an instance of a Query subclass implementing the modbus RTU protocol"""
+        return RtuQuery()
+
+
+class RtuServer(Server):
+    """This class implements a simple and mono-threaded modbus rtu server"""
+    _timeout = 0
+
+    def __init__(self, serial, databank=None, error_on_missing_slave=True, **kwargs):
+        """
+        Constructor: initializes the server settings
+        serial: a pyserial object
+        databank: the data to access
+        interframe_multiplier: 3.5 by default
+        interchar_multiplier: 1.5 by default
+        """
+        interframe_multiplier = kwargs.pop('interframe_multiplier', 3.5)
+        interchar_multiplier = kwargs.pop('interchar_multiplier', 1.5)
+
+        databank = databank if databank else Databank(error_on_missing_slave=error_on_missing_slave)
+        super(RtuServer, self).__init__(databank)
+
+        self._serial = serial
+        LOGGER.debug("RtuServer %s is %s", self._serial.name, "opened" if self._serial.is_open else "closed")
+
+        self._t0 = utils.calculate_rtu_inter_char(self._serial.baudrate)
+        self._serial.inter_byte_timeout = interchar_multiplier * self._t0
+        self.set_timeout(interframe_multiplier * self._t0)
+
+        self._block_on_first_byte = False
+
+    def close(self):
+        """close the serial communication"""
+        if self._serial.is_open:
+            call_hooks("modbus_rtu.RtuServer.before_close", (self, ))
+            self._serial.close()
+            call_hooks("modbus_rtu.RtuServer.after_close", (self, ))
+
+    def set_timeout(self, timeout):
+        self._timeout = timeout
+        self._serial.timeout = timeout
+
+    def get_timeout(self):
+        return self._timeout
+
+    def __del__(self):
+        """Destructor"""
+        self.close()
+
+    def _make_query(self):
+        """Returns an instance of a Query subclass implementing the modbus RTU protocol"""
+        return RtuQuery()
+
+    def start(self):
+        """Allow the server thread to block on first byte"""
+        self._block_on_first_byte = True
+        super(RtuServer, self).start()
+
+    def stop(self):
+        """Force the server thread to exit"""
+        # Prevent blocking on first byte in server thread.
+        # Without the _block_on_first_byte following problem could happen:
+        #   1. Current blocking read(1) is cancelled
+        #   2. Server thread resumes and start next read(1)
+        #   3. RtuServer clears go event and waits for thread to finish
+        #   4. Server thread finishes only when a byte is received
+        # Thanks to _block_on_first_byte, if server thread does start new read
+        # it will timeout as it won't be blocking.
+        self._block_on_first_byte = False
+        if self._serial.is_open:
+            # cancel any pending read from server thread, it most likely is
+            # blocking read(1) call
+            self._serial.cancel_read()
+        super(RtuServer, self).stop()
+
+    def _do_init(self):
+        """initialize the serial connection"""
+        if not self._serial.is_open:
+            call_hooks("modbus_rtu.RtuServer.before_open", (self, ))
+            self._serial.open()
+            call_hooks("modbus_rtu.RtuServer.after_open", (self, ))
+
+    def _do_exit(self):
+        """close the serial connection"""
+        self.close()
+
+    def _do_run(self):
+        """main function of the server"""
+        try:
+            # check the status of every socket
+            request = utils.to_data('')
+            if self._block_on_first_byte:
+                # do a blocking read for first byte
+                self._serial.timeout = None
+                try:
+                    read_bytes = self._serial.read(1)
+                    request += read_bytes
+                except Exception as e:
+                    self._serial.close()
+                    self._serial.open()
+                self._serial.timeout = self._timeout
+
+            # Read rest of the request
+            while True:
+                try:
+                    read_bytes = self._serial.read(128)
+                    if not read_bytes:
+                        break
+                except Exception as e:
+                    self._serial.close()
+                    self._serial.open()
+                    break
+                request += read_bytes
+
+            # parse the request
+            if request:
+                retval = call_hooks("modbus_rtu.RtuServer.after_read", (self, request))
+                if retval is not None:
+                    request = retval
+
+                response = self._handle(request)
+
+                # send back the response
+                retval = call_hooks("modbus_rtu.RtuServer.before_write", (self, response))
+                if retval is not None:
+                    response = retval
+
+                if response:
+                    if self._serial.in_waiting > 0:
+                        # Most likely master timed out on this request and started a new one
+                        # for which we already received atleast 1 byte
+                        LOGGER.warning("Not sending response because there is new request pending")
+                    else:
+                        self._serial.write(response)
+                        self._serial.flush()
+                        time.sleep(self.get_timeout())
+
+                call_hooks("modbus_rtu.RtuServer.after_write", (self, response))
+
+        except Exception as excpt:
+            LOGGER.error("Error while handling request, Exception occurred: %s", excpt)
+            call_hooks("modbus_rtu.RtuServer.on_error", (self, excpt))
-- 
2.43.0


From 52fab956ff9e6a6a6c152c04a9cb38c4c0170147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:26 +0000
Subject: [PATCH 20/26] fix: a RTU over TCP master reads responses of 256 bytes
 completely

---
 modbus_tk/modbus_rtu_over_tcp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modbus_tk/modbus_rtu_over_tcp.py b/modbus_tk/modbus_rtu_over_tcp.py
index e3f9a9b..8b8f93d 100644
--- a/modbus_tk/modbus_rtu_over_tcp.py
+++ b/modbus_tk/modbus_rtu_over_tcp.py
@@ -21,7 +21,7 @@ class RtuOverTcpMaster(TcpMaster):
     def _recv(self, expected_length=-1):
         """Receive the response from the slave"""
         response = to_data('')
-        length = 255
+        length = expected_length if expected_length >= 0 else 256
         while len(response) < length:
             rcv_byte = self._sock.recv(1)
             if rcv_byte:
-- 
2.43.0


From ef41401736c4f12f30b5c7c50a9f91ed06679a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:32 +0000
Subject: [PATCH 21/26] fix: the RTU server restores its read timeout even when
 reopening the port fails

---
 modbus_tk/modbus_rtu.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/modbus_rtu.py b/modbus_tk/modbus_rtu.py
index e965481..a681c47 100644
--- a/modbus_tk/modbus_rtu.py
+++ b/modbus_tk/modbus_rtu.py
@@ -267,7 +267,8 @@ class RtuServer(Server):
                 except Exception as e:
                     self._serial.close()
                     self._serial.open()
-                self._serial.timeout = self._timeout
+                finally:
+                    self._serial.timeout = self._timeout
 
             # Read rest of the request
             while True:
-- 
2.43.0


From 09c5fe8ed25ed2b7d958ac86a746dbbca3fad80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:31 +0000
Subject: [PATCH 22/26] fix: a server hook may replace a request or a response
 by an empty one

---
 modbus_tk/modbus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 7dfae2c..dfeefbe 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -1108,12 +1108,12 @@ class Server(object):
         query = self._make_query()
 
         retval = call_hooks("modbus.Server.before_handle_request", (self, request))
-        if retval:
+        if retval is not None:
             request = retval
 
         response = self._databank.handle_request(query, request)
         retval = call_hooks("modbus.Server.after_handle_request", (self, response))
-        if retval:
+        if retval is not None:
             response = retval
 
         if response and self._verbose:
-- 
2.43.0


From ee34076e28eafa288fc80148982c2a26547cafb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:39 +0000
Subject: [PATCH 23/26] fix: uninstall_hook of the simulator removes only the
 named function

---
 modbus_tk/simulator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index 5dada84..1f016af 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -319,8 +319,10 @@ class Simulator(object):
         If no function is given, uninstall all functions
         """
         hook_name = args[1]
+        fct_name = args[2] if len(args) > 2 else ""
+        fct = self._hooks_fct[fct_name] if fct_name else None
         try:
-            hooks.uninstall_hook(hook_name)
+            hooks.uninstall_hook(hook_name, fct)
         except KeyError as exception:
             LOGGER.error(str(exception))
 
-- 
2.43.0


From 2a6ecda654933c5db192f2db8b4e0c476b4d7e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:26 +0000
Subject: [PATCH 24/26] fix: the pymodbus-style client can connect when host,
 port or timeout are left out

---
 modbus_tk/pymodbusclient.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/pymodbusclient.py b/modbus_tk/pymodbusclient.py
index d872c61..12bfaf4 100644
--- a/modbus_tk/pymodbusclient.py
+++ b/modbus_tk/pymodbusclient.py
@@ -5,7 +5,8 @@ class PyModbusClientTCP():
     """ Client that allows a drop in replacement for pymodbus without any code change """
 
     def __init__(self, host=None, port=None, timeout=None, **kwargs):
-        self.client = modbus_tcp.TcpMaster(host=host, port=port, timeout_in_sec=timeout)
+        settings = {'host': host, 'port': port, 'timeout_in_sec': timeout}
+        self.client = modbus_tcp.TcpMaster(**{name: settings[name] for name in settings if settings[name] is not None})
 
     def open(self):
         self.client.open()
-- 
2.43.0


From a1fd74ff0f29409fafcdff6859b688368ab0bfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:28 +0000
Subject: [PATCH 25/26] fix: restore the CRLF line endings of modbus_rtu.py

f55f135 converted the whole file by mistake; no line changes otherwise.
---
 modbus_tk/modbus_rtu.py | 624 ++++++++++++++++++++--------------------
 1 file changed, 312 insertions(+), 312 deletions(-)

diff --git a/modbus_tk/modbus_rtu.py b/modbus_tk/modbus_rtu.py
index a681c47..563686f 100644
--- a/modbus_tk/modbus_rtu.py
+++ b/modbus_tk/modbus_rtu.py
@@ -1,312 +1,312 @@
-#!/usr/bin/env python
-# -*- coding: utf-8 -*-
-"""
- Modbus TestKit: Implementation of Modbus protocol in python
-
- (C)2009 - Luc Jean - luc.jean@gmail.com
- (C)2009 - Apidev - http://www.apidev.fr
-
- This is distributed under GNU LGPL license, see license.txt
-
-"""
-
-import struct
-import time
-
-from modbus_tk import LOGGER
-from modbus_tk.modbus import (
-    Databank, Query, Master, Server,
-    InvalidArgumentError, ModbusInvalidResponseError, ModbusInvalidRequestError
-)
-from modbus_tk.hooks import call_hooks
-from modbus_tk import utils
-
-
-class RtuQuery(Query):
-    """Subclass of a Query. Adds the Modbus RTU specific part of the protocol"""
-
-    def __init__(self):
-        """Constructor"""
-        super(RtuQuery, self).__init__()
-        self._request_address = 0
-        self._response_address = 0
-
-    def build_request(self, pdu, slave):
-        """Add the Modbus RTU part to the request"""
-        self._request_address = slave
-        if (self._request_address < 0) or (self._request_address > 255):
-            raise InvalidArgumentError("Invalid address {0}".format(self._request_address))
-        data = struct.pack(">B", self._request_address) + pdu
-        crc = struct.pack(">H", utils.calculate_crc(data))
-        return data + crc
-
-    def parse_response(self, response):
-        """Extract the pdu from the Modbus RTU response"""
-        if len(response) < 3:
-            raise ModbusInvalidResponseError("Response length is invalid {0}".format(len(response)))
-
-        (self._response_address, ) = struct.unpack(">B", response[0:1])
-
-        if self._request_address != self._response_address:
-            raise ModbusInvalidResponseError(
-                "Response address {0} is different from request address {1}".format(
-                    self._response_address, self._request_address
-                )
-            )
-
-        (crc, ) = struct.unpack(">H", response[-2:])
-
-        if crc != utils.calculate_crc(response[:-2]):
-            raise ModbusInvalidResponseError("Invalid CRC in response")
-
-        return response[1:-2]
-
-    def parse_request(self, request):
-        """Extract the pdu from the Modbus RTU request"""
-        if len(request) < 3:
-            raise ModbusInvalidRequestError("Request length is invalid {0}".format(len(request)))
-
-        (self._request_address, ) = struct.unpack(">B", request[0:1])
-
-        (crc, ) = struct.unpack(">H", request[-2:])
-        if crc != utils.calculate_crc(request[:-2]):
-            raise ModbusInvalidRequestError("Invalid CRC in request")
-
-        return self._request_address, request[1:-2]
-
-    def build_response(self, response_pdu):
-        """Build the response"""
-        self._response_address = self._request_address
-        data = struct.pack(">B", self._response_address) + response_pdu
-        crc = struct.pack(">H", utils.calculate_crc(data))
-        return data + crc
-
-
-class RtuMaster(Master):
-    """Subclass of Master. Implements the Modbus RTU MAC layer"""
-
-    def __init__(self, serial, interchar_multiplier=1.5, interframe_multiplier=3.5, t0=None):
-        """Constructor. Pass the pyserial.Serial object"""
-        self._serial = serial
-        self.use_sw_timeout = False
-        LOGGER.debug("RtuMaster %s is %s", self._serial.name, "opened" if self._serial.is_open else "closed")
-        super(RtuMaster, self).__init__(self._serial.timeout)
-
-        if t0:
-            self._t0 = t0
-        else:
-            self._t0 = utils.calculate_rtu_inter_char(self._serial.baudrate)
-        self._serial.inter_byte_timeout = interchar_multiplier * self._t0
-        self.set_timeout(interframe_multiplier * self._t0)
-
-        # For some RS-485 adapters, the sent data(echo data) appears before modbus response.
-        # So read  echo data and discard it.  By yush0602@gmail.com
-        self.handle_local_echo = False
-
-    def _do_open(self):
-        """Open the given serial port if not already opened"""
-        if not self._serial.is_open:
-            call_hooks("modbus_rtu.RtuMaster.before_open", (self, ))
-            self._serial.open()
-
-    def _do_close(self):
-        """Close the serial port if still opened"""
-        if self._serial.is_open:
-            self._serial.close()
-            call_hooks("modbus_rtu.RtuMaster.after_close", (self, ))
-            return True
-
-    def set_timeout(self, timeout_in_sec, use_sw_timeout=False):
-        """Change the timeout value"""
-        Master.set_timeout(self, timeout_in_sec)
-        self._serial.timeout = timeout_in_sec
-        # Use software based timeout in case the timeout functionality provided by the serial port is unreliable
-        self.use_sw_timeout = use_sw_timeout
-
-    def _send(self, request):
-        """Send request to the slave"""
-        retval = call_hooks("modbus_rtu.RtuMaster.before_send", (self, request))
-        if retval is not None:
-            request = retval
-
-        self._serial.reset_input_buffer()
-        self._serial.reset_output_buffer()
-
-        self._serial.write(request)
-        self._serial.flush()
-
-        # Read the echo data, and discard it
-        if self.handle_local_echo:
-            self._serial.read(len(request))
-
-    def _recv(self, expected_length=-1):
-        """Receive the response from the slave"""
-        response = utils.to_data("")
-        start_time = time.time() if self.use_sw_timeout else 0
-        readed_len = 0
-        while True:
-            # serial.read() may return less characters as requested (timeout or non-blocking port)
-            # we should update expected_length by readed_len
-            read_bytes = self._serial.read(expected_length - readed_len if (expected_length - readed_len) > 0 else 1)
-            if self.use_sw_timeout:
-                read_duration = time.time() - start_time
-            else:
-                read_duration = 0
-            if (not read_bytes) or (self._serial.timeout is not None and read_duration > self._serial.timeout):
-                break
-            response += read_bytes
-            if expected_length >= 0 and len(response) >= expected_length:
-                # if the expected number of byte is received consider that the response is done
-                # improve performance by avoiding end-of-response detection by timeout
-                break
-            readed_len += len(read_bytes)
-
-        retval = call_hooks("modbus_rtu.RtuMaster.after_recv", (self, response))
-        if retval is not None:
-            return retval
-        return response
-
-    def _make_query(self):
-        """Returns an instance of a Query subclass implementing the modbus RTU protocol"""
-        return RtuQuery()
-
-
-class RtuServer(Server):
-    """This class implements a simple and mono-threaded modbus rtu server"""
-    _timeout = 0
-
-    def __init__(self, serial, databank=None, error_on_missing_slave=True, **kwargs):
-        """
-        Constructor: initializes the server settings
-        serial: a pyserial object
-        databank: the data to access
-        interframe_multiplier: 3.5 by default
-        interchar_multiplier: 1.5 by default
-        """
-        interframe_multiplier = kwargs.pop('interframe_multiplier', 3.5)
-        interchar_multiplier = kwargs.pop('interchar_multiplier', 1.5)
-
-        databank = databank if databank else Databank(error_on_missing_slave=error_on_missing_slave)
-        super(RtuServer, self).__init__(databank)
-
-        self._serial = serial
-        LOGGER.debug("RtuServer %s is %s", self._serial.name, "opened" if self._serial.is_open else "closed")
-
-        self._t0 = utils.calculate_rtu_inter_char(self._serial.baudrate)
-        self._serial.inter_byte_timeout = interchar_multiplier * self._t0
-        self.set_timeout(interframe_multiplier * self._t0)
-
-        self._block_on_first_byte = False
-
-    def close(self):
-        """close the serial communication"""
-        if self._serial.is_open:
-            call_hooks("modbus_rtu.RtuServer.before_close", (self, ))
-            self._serial.close()
-            call_hooks("modbus_rtu.RtuServer.after_close", (self, ))
-
-    def set_timeout(self, timeout):
-        self._timeout = timeout
-        self._serial.timeout = timeout
-
-    def get_timeout(self):
-        return self._timeout
-
-    def __del__(self):
-        """Destructor"""
-        self.close()
-
-    def _make_query(self):
-        """Returns an instance of a Query subclass implementing the modbus RTU protocol"""
-        return RtuQuery()
-
-    def start(self):
-        """Allow the server thread to block on first byte"""
-        self._block_on_first_byte = True
-        super(RtuServer, self).start()
-
-    def stop(self):
-        """Force the server thread to exit"""
-        # Prevent blocking on first byte in server thread.
-        # Without the _block_on_first_byte following problem could happen:
-        #   1. Current blocking read(1) is cancelled
-        #   2. Server thread resumes and start next read(1)
-        #   3. RtuServer clears go event and waits for thread to finish
-        #   4. Server thread finishes only when a byte is received
-        # Thanks to _block_on_first_byte, if server thread does start new read
-        # it will timeout as it won't be blocking.
-        self._block_on_first_byte = False
-        if self._serial.is_open:
-            # cancel any pending read from server thread, it most likely is
-            # blocking read(1) call
-            self._serial.cancel_read()
-        super(RtuServer, self).stop()
-
-    def _do_init(self):
-        """initialize the serial connection"""
-        if not self._serial.is_open:
-            call_hooks("modbus_rtu.RtuServer.before_open", (self, ))
-            self._serial.open()
-            call_hooks("modbus_rtu.RtuServer.after_open", (self, ))
-
-    def _do_exit(self):
-        """close the serial connection"""
-        self.close()
-
-    def _do_run(self):
-        """main function of the server"""
-        try:
-            # check the status of every socket
-            request = utils.to_data('')
-            if self._block_on_first_byte:
-                # do a blocking read for first byte
-                self._serial.timeout = None
-                try:
-                    read_bytes = self._serial.read(1)
-                    request += read_bytes
-                except Exception as e:
-                    self._serial.close()
-                    self._serial.open()
-                finally:
-                    self._serial.timeout = self._timeout
-
-            # Read rest of the request
-            while True:
-                try:
-                    read_bytes = self._serial.read(128)
-                    if not read_bytes:
-                        break
-                except Exception as e:
-                    self._serial.close()
-                    self._serial.open()
-                    break
-                request += read_bytes
-
-            # parse the request
-            if request:
-                retval = call_hooks("modbus_rtu.RtuServer.after_read", (self, request))
-                if retval is not None:
-                    request = retval
-
-                response = self._handle(request)
-
-                # send back the response
-                retval = call_hooks("modbus_rtu.RtuServer.before_write", (self, response))
-                if retval is not None:
-                    response = retval
-
-                if response:
-                    if self._serial.in_waiting > 0:
-                        # Most likely master timed out on this request and started a new one
-                        # for which we already received atleast 1 byte
-                        LOGGER.warning("Not sending response because there is new request pending")
-                    else:
-                        self._serial.write(response)
-                        self._serial.flush()
-                        time.sleep(self.get_timeout())
-
-                call_hooks("modbus_rtu.RtuServer.after_write", (self, response))
-
-        except Exception as excpt:
-            LOGGER.error("Error while handling request, Exception occurred: %s", excpt)
-            call_hooks("modbus_rtu.RtuServer.on_error", (self, excpt))
+#!/usr/bin/env python
+# -*- coding: utf-8 -*-
+"""
+ Modbus TestKit: Implementation of Modbus protocol in python
+
+ (C)2009 - Luc Jean - luc.jean@gmail.com
+ (C)2009 - Apidev - http://www.apidev.fr
+
+ This is distributed under GNU LGPL license, see license.txt
+
+"""
+
+import struct
+import time
+
+from modbus_tk import LOGGER
+from modbus_tk.modbus import (
+    Databank, Query, Master, Server,
+    InvalidArgumentError, ModbusInvalidResponseError, ModbusInvalidRequestError
+)
+from modbus_tk.hooks import call_hooks
+from modbus_tk import utils
+
+
+class RtuQuery(Query):
+    """Subclass of a Query. Adds the Modbus RTU specific part of the protocol"""
+
+    def __init__(self):
+        """Constructor"""
+        super(RtuQuery, self).__init__()
+        self._request_address = 0
+        self._response_address = 0
+
+    def build_request(self, pdu, slave):
+        """Add the Modbus RTU part to the request"""
+        self._request_address = slave
+        if (self._request_address < 0) or (self._request_address > 255):
+            raise InvalidArgumentError("Invalid address {0}".format(self._request_address))
+        data = struct.pack(">B", self._request_address) + pdu
+        crc = struct.pack(">H", utils.calculate_crc(data))
+        return data + crc
+
+    def parse_response(self, response):
+        """Extract the pdu from the Modbus RTU response"""
+        if len(response) < 3:
+            raise ModbusInvalidResponseError("Response length is invalid {0}".format(len(response)))
+
+        (self._response_address, ) = struct.unpack(">B", response[0:1])
+
+        if self._request_address != self._response_address:
+            raise ModbusInvalidResponseError(
+                "Response address {0} is different from request address {1}".format(
+                    self._response_address, self._request_address
+                )
+            )
+
+        (crc, ) = struct.unpack(">H", response[-2:])
+
+        if crc != utils.calculate_crc(response[:-2]):
+            raise ModbusInvalidResponseError("Invalid CRC in response")
+
+        return response[1:-2]
+
+    def parse_request(self, request):
+        """Extract the pdu from the Modbus RTU request"""
+        if len(request) < 3:
+            raise ModbusInvalidRequestError("Request length is invalid {0}".format(len(request)))
+
+        (self._request_address, ) = struct.unpack(">B", request[0:1])
+
+        (crc, ) = struct.unpack(">H", request[-2:])
+        if crc != utils.calculate_crc(request[:-2]):
+            raise ModbusInvalidRequestError("Invalid CRC in request")
+
+        return self._request_address, request[1:-2]
+
+    def build_response(self, response_pdu):
+        """Build the response"""
+        self._response_address = self._request_address
+        data = struct.pack(">B", self._response_address) + response_pdu
+        crc = struct.pack(">H", utils.calculate_crc(data))
+        return data + crc
+
+
+class RtuMaster(Master):
+    """Subclass of Master. Implements the Modbus RTU MAC layer"""
+
+    def __init__(self, serial, interchar_multiplier=1.5, interframe_multiplier=3.5, t0=None):
+        """Constructor. Pass the pyserial.Serial object"""
+        self._serial = serial
+        self.use_sw_timeout = False
+        LOGGER.debug("RtuMaster %s is %s", self._serial.name, "opened" if self._serial.is_open else "closed")
+        super(RtuMaster, self).__init__(self._serial.timeout)
+
+        if t0:
+            self._t0 = t0
+        else:
+            self._t0 = utils.calculate_rtu_inter_char(self._serial.baudrate)
+        self._serial.inter_byte_timeout = interchar_multiplier * self._t0
+        self.set_timeout(interframe_multiplier * self._t0)
+
+        # For some RS-485 adapters, the sent data(echo data) appears before modbus response.
+        # So read  echo data and discard it.  By yush0602@gmail.com
+        self.handle_local_echo = False
+
+    def _do_open(self):
+        """Open the given serial port if not already opened"""
+        if not self._serial.is_open:
+            call_hooks("modbus_rtu.RtuMaster.before_open", (self, ))
+            self._serial.open()
+
+    def _do_close(self):
+        """Close the serial port if still opened"""
+        if self._serial.is_open:
+            self._serial.close()
+            call_hooks("modbus_rtu.RtuMaster.after_close", (self, ))
+            return True
+
+    def set_timeout(self, timeout_in_sec, use_sw_timeout=False):
+        """Change the timeout value"""
+        Master.set_timeout(self, timeout_in_sec)
+        self._serial.timeout = timeout_in_sec
+        # Use software based timeout in case the timeout functionality provided by the serial port is unreliable
+        self.use_sw_timeout = use_sw_timeout
+
+    def _send(self, request):
+        """Send request to the slave"""
+        retval = call_hooks("modbus_rtu.RtuMaster.before_send", (self, request))
+        if retval is not None:
+            request = retval
+
+        self._serial.reset_input_buffer()
+        self._serial.reset_output_buffer()
+
+        self._serial.write(request)
+        self._serial.flush()
+
+        # Read the echo data, and discard it
+        if self.handle_local_echo:
+            self._serial.read(len(request))
+
+    def _recv(self, expected_length=-1):
+        """Receive the response from the slave"""
+        response = utils.to_data("")
+        start_time = time.time() if self.use_sw_timeout else 0
+        readed_len = 0
+        while True:
+            # serial.read() may return less characters as requested (timeout or non-blocking port)
+            # we should update expected_length by readed_len
+            read_bytes = self._serial.read(expected_length - readed_len if (expected_length - readed_len) > 0 else 1)
+            if self.use_sw_timeout:
+                read_duration = time.time() - start_time
+            else:
+                read_duration = 0
+            if (not read_bytes) or (self._serial.timeout is not None and read_duration > self._serial.timeout):
+                break
+            response += read_bytes
+            if expected_length >= 0 and len(response) >= expected_length:
+                # if the expected number of byte is received consider that the response is done
+                # improve performance by avoiding end-of-response detection by timeout
+                break
+            readed_len += len(read_bytes)
+
+        retval = call_hooks("modbus_rtu.RtuMaster.after_recv", (self, response))
+        if retval is not None:
+            return retval
+        return response
+
+    def _make_query(self):
+        """Returns an instance of a Query subclass implementing the modbus RTU protocol"""
+        return RtuQuery()
+
+
+class RtuServer(Server):
+    """This class implements a simple and mono-threaded modbus rtu server"""
+    _timeout = 0
+
+    def __init__(self, serial, databank=None, error_on_missing_slave=True, **kwargs):
+        """
+        Constructor: initializes the server settings
+        serial: a pyserial object
+        databank: the data to access
+        interframe_multiplier: 3.5 by default
+        interchar_multiplier: 1.5 by default
+        """
+        interframe_multiplier = kwargs.pop('interframe_multiplier', 3.5)
+        interchar_multiplier = kwargs.pop('interchar_multiplier', 1.5)
+
+        databank = databank if databank else Databank(error_on_missing_slave=error_on_missing_slave)
+        super(RtuServer, self).__init__(databank)
+
+        self._serial = serial
+        LOGGER.debug("RtuServer %s is %s", self._serial.name, "opened" if self._serial.is_open else "closed")
+
+        self._t0 = utils.calculate_rtu_inter_char(self._serial.baudrate)
+        self._serial.inter_byte_timeout = interchar_multiplier * self._t0
+        self.set_timeout(interframe_multiplier * self._t0)
+
+        self._block_on_first_byte = False
+
+    def close(self):
+        """close the serial communication"""
+        if self._serial.is_open:
+            call_hooks("modbus_rtu.RtuServer.before_close", (self, ))
+            self._serial.close()
+            call_hooks("modbus_rtu.RtuServer.after_close", (self, ))
+
+    def set_timeout(self, timeout):
+        self._timeout = timeout
+        self._serial.timeout = timeout
+
+    def get_timeout(self):
+        return self._timeout
+
+    def __del__(self):
+        """Destructor"""
+        self.close()
+
+    def _make_query(self):
+        """Returns an instance of a Query subclass implementing the modbus RTU protocol"""
+        return RtuQuery()
+
+    def start(self):
+        """Allow the server thread to block on first byte"""
+        self._block_on_first_byte = True
+        super(RtuServer, self).start()
+
+    def stop(self):
+        """Force the server thread to exit"""
+        # Prevent blocking on first byte in server thread.
+        # Without the _block_on_first_byte following problem could happen:
+        #   1. Current blocking read(1) is cancelled
+        #   2. Server thread resumes and start next read(1)
+        #   3. RtuServer clears go event and waits for thread to finish
+        #   4. Server thread finishes only when a byte is received
+        # Thanks to _block_on_first_byte, if server thread does start new read
+        # it will timeout as it won't be blocking.
+        self._block_on_first_byte = False
+        if self._serial.is_open:
+            # cancel any pending read from server thread, it most likely is
+            # blocking read(1) call
+            self._serial.cancel_read()
+        super(RtuServer, self).stop()
+
+    def _do_init(self):
+        """initialize the serial connection"""
+        if not self._serial.is_open:
+            call_hooks("modbus_rtu.RtuServer.before_open", (self, ))
+            self._serial.open()
+            call_hooks("modbus_rtu.RtuServer.after_open", (self, ))
+
+    def _do_exit(self):
+        """close the serial connection"""
+        self.close()
+
+    def _do_run(self):
+        """main function of the server"""
+        try:
+            # check the status of every socket
+            request = utils.to_data('')
+            if self._block_on_first_byte:
+                # do a blocking read for first byte
+                self._serial.timeout = None
+                try:
+                    read_bytes = self._serial.read(1)
+                    request += read_bytes
+                except Exception as e:
+                    self._serial.close()
+                    self._serial.open()
+                finally:
+                    self._serial.timeout = self._timeout
+
+            # Read rest of the request
+            while True:
+                try:
+                    read_bytes = self._serial.read(128)
+                    if not read_bytes:
+                        break
+                except Exception as e:
+                    self._serial.close()
+                    self._serial.open()
+                    break
+                request += read_bytes
+
+            # parse the request
+            if request:
+                retval = call_hooks("modbus_rtu.RtuServer.after_read", (self, request))
+                if retval is not None:
+                    request = retval
+
+                response = self._handle(request)
+
+                # send back the response
+                retval = call_hooks("modbus_rtu.RtuServer.before_write", (self, response))
+                if retval is not None:
+                    response = retval
+
+                if response:
+                    if self._serial.in_waiting > 0:
+                        # Most likely master timed out on this request and started a new one
+                        # for which we already received atleast 1 byte
+                        LOGGER.warning("Not sending response because there is new request pending")
+                    else:
+                        self._serial.write(response)
+                        self._serial.flush()
+                        time.sleep(self.get_timeout())
+
+                call_hooks("modbus_rtu.RtuServer.after_write", (self, response))
+
+        except Exception as excpt:
+            LOGGER.error("Error while handling request, Exception occurred: %s", excpt)
+            call_hooks("modbus_rtu.RtuServer.on_error", (self, excpt))
-- 
2.43.0


From fb2d6bdb5cd1bd8aa744c9abae56fa76e92eb2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:57 +0000
Subject: [PATCH 26/26] fix: Server.stop joined a thread that was not started
 when the run ended by itself meanwhile

A run that ends (an error in the serving step, say) replaces the thread and the
event for the next start. stop() read self._thread again after clearing the
event, so it could call join() on the successor: RuntimeError. It keeps the
thread it found running now; and the new event exists before the new thread
can be seen.
---
 modbus_tk/modbus.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index dfeefbe..2e2bfa4 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -1039,8 +1039,9 @@ class Server(object):
 
     def _make_thread(self):
         """create the main thread of the server"""
-        self._thread = threading.Thread(target=Server._run_server, args=(self,))
+        # the event first: whoever sees the new thread must also see the event it looks at
         self._go = threading.Event()
+        self._thread = threading.Thread(target=Server._run_server, args=(self,))
 
     def set_verbose(self, verbose):
         """if verbose is true the sent and received packets will be logged"""
@@ -1080,9 +1081,11 @@ class Server(object):
 
     def stop(self):
         """stop the server. It doesn't handle request anymore"""
-        if self._thread.is_alive():
+        # a run that ends by itself replaces the thread: keep waiting for the one that was running
+        thread = self._thread
+        if thread.is_alive():
             self._go.clear()
-            self._thread.join()
+            thread.join()
 
     def _run_server(self):
         """main function of the main thread"""
-- 
2.43.0

