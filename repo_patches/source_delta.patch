From 35638d7447ba31ef605cd862e7c551d9c32ec075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 01/32] fix: add_block keeps the blocks sorted so that every
 overlap is found

A block added after the last one was inserted at index 0. The list was not
sorted anymore and the scan, which stops at the first block located after the
new one, missed overlaps with the blocks that follow.
---
 modbus_tk/modbus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 17080d3..a9bf7de 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -792,7 +792,7 @@ class Slave(object):
             # check that the new block doesn't overlap an existing block
             # it means that only 1 block per type must correspond to a given address
             # for example: it must not have 2 holding registers at address 100
-            index = 0
+            index = len(self._memory[block_type])
             for i in range(len(self._memory[block_type])):
                 block = self._memory[block_type][i]
                 if block.is_in(starting_address, size):
-- 
2.43.0


From 417ce5d67348804f552d6262df0b78041b9b488f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 02/32] fix: a multiple write with missing values writes
 nothing

When the pdu of functions 15, 16 or 23 contained less values than its byte
count, the first values were written before the request failed.
---
 modbus_tk/modbus.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index a9bf7de..23a19c4 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -624,6 +624,10 @@ class Slave(object):
             # maximum allowed size is 123 registers in one reading
             raise ModbusError(defines.ILLEGAL_DATA_VALUE)
 
+        if len(request_pdu) < 10 + byte_count_to_write:
+            # the values are not all there: don't write a part of them
+            raise ModbusError(defines.ILLEGAL_DATA_VALUE)
+
         # look for the block corresponding to the request
         block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_write_address, quantity_of_x_to_write)
 
@@ -656,6 +660,10 @@ class Slave(object):
             # maximum allowed size is 123 registers in one reading
             raise ModbusError(defines.ILLEGAL_DATA_VALUE)
 
+        if len(request_pdu) < 6 + byte_count:
+            # the values are not all there: don't write a part of them
+            raise ModbusError(defines.ILLEGAL_DATA_VALUE)
+
         # look for the block corresponding to the request
         block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_address, quantity_of_x)
 
@@ -681,6 +689,10 @@ class Slave(object):
             # maximum allowed size is 1968 coils
             raise ModbusError(defines.ILLEGAL_DATA_VALUE)
 
+        if len(request_pdu) < 6 + byte_count:
+            # the values are not all there: don't write a part of them
+            raise ModbusError(defines.ILLEGAL_DATA_VALUE)
+
         # look for the block corresponding to the request
         block, offset = self._get_block_and_offset(defines.COILS, starting_address, quantity_of_x)
 
-- 
2.43.0


From dc7b44fd47895bd83f0c50e1442eb50601c68232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 03/32] fix: mask write on a signed slave stores a signed value

Function 22 stored a value above 32767 in the register of a signed slave: the
following reads of that register failed with a slave device failure.
---
 modbus_tk/modbus.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 23a19c4..daf93c7 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -646,7 +646,11 @@ class Slave(object):
         (data_address, and_mask, or_mask) = struct.unpack(">HHH", request_pdu[1:7])
         # look for the block corresponding to the request
         block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, data_address, 1)
-        block[offset] = (block[offset] & and_mask) | (or_mask & ~and_mask)
+        value = ((block[offset] & and_mask) | (or_mask & ~and_mask)) & 0xffff
+        if not self.unsigned and value > 0x7fff:
+            # registers of a signed slave are signed values
+            value -= 0x10000
+        block[offset] = value
         # returns echo of the command
         return request_pdu[1:]
 
-- 
2.43.0


From d901ef828c1b7f565d190f906158fc329d76ae1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 04/32] fix: function 23 writes before it reads

The specification of Read/Write Multiple Registers says that the write
operation is performed before the read. The values returned were the ones
before the write.
---
 modbus_tk/modbus.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index daf93c7..9227967 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -610,15 +610,6 @@ class Slave(object):
         # look for the block corresponding to the request
         block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_read_address, quantity_of_x_to_read)
 
-        # get the values
-        values = block[offset:offset+quantity_of_x_to_read]
-        # write the response header
-        response = struct.pack(">B", 2 * quantity_of_x_to_read)
-        # add the values of every register on 2 bytes
-        for reg in values:
-            fmt = "H" if self.unsigned else "h"
-            response += struct.pack(">"+fmt, reg)
-
         # write part
         if (quantity_of_x_to_write <= 0) or (quantity_of_x_to_write > 123) or (byte_count_to_write != (quantity_of_x_to_write * 2)):
             # maximum allowed size is 123 registers in one reading
@@ -629,13 +620,22 @@ class Slave(object):
             raise ModbusError(defines.ILLEGAL_DATA_VALUE)
 
         # look for the block corresponding to the request
-        block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_write_address, quantity_of_x_to_write)
+        write_block, write_offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_write_address, quantity_of_x_to_write)
 
         count = 0
         for i in range(quantity_of_x_to_write):
             count += 1
             fmt = "H" if self.unsigned else "h"
-            block[offset+i] = struct.unpack(">"+fmt, request_pdu[10+2*i:12+2*i])[0]
+            write_block[write_offset+i] = struct.unpack(">"+fmt, request_pdu[10+2*i:12+2*i])[0]
+
+        # the write operation is performed before the read: get the values
+        values = block[offset:offset+quantity_of_x_to_read]
+        # write the response header
+        response = struct.pack(">B", 2 * quantity_of_x_to_read)
+        # add the values of every register on 2 bytes
+        for reg in values:
+            fmt = "H" if self.unsigned else "h"
+            response += struct.pack(">"+fmt, reg)
 
         return response
 
-- 
2.43.0


From 9f7f667ffc08ac7726e728ea40f4e4653850ff6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:35 +0000
Subject: [PATCH 05/32] fix: RtuOverTcpMaster does not loop for ever on a
 closed connection

When the peer closed the connection before the end of a reply, recv returned
nothing again and again and execute never returned.
---
 modbus_tk/modbus_rtu_over_tcp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modbus_tk/modbus_rtu_over_tcp.py b/modbus_tk/modbus_rtu_over_tcp.py
index becc866..0a6aac3 100644
--- a/modbus_tk/modbus_rtu_over_tcp.py
+++ b/modbus_tk/modbus_rtu_over_tcp.py
@@ -26,6 +26,9 @@ class RtuOverTcpMaster(TcpMaster):
             rcv_byte = self._sock.recv(1)
             if rcv_byte:
                 response += rcv_byte
+            else:
+                # the connection has been closed: nothing more to receive
+                break
             if expected_length >= 0 and len(response) >= expected_length:
                 break
         retval = call_hooks("modbus_rtu_over_tcp.RtuOverTcpMaster.after_recv", (self, response))
-- 
2.43.0


From ac2608fc1c49a88294e88fc705d080b3a1585614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 06/32] fix: RtuOverTcpMaster raises the modbus error of an
 exception response

It waited for as many bytes as in a normal response and timed out.
---
 modbus_tk/modbus_rtu_over_tcp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modbus_tk/modbus_rtu_over_tcp.py b/modbus_tk/modbus_rtu_over_tcp.py
index 0a6aac3..2aea64b 100644
--- a/modbus_tk/modbus_rtu_over_tcp.py
+++ b/modbus_tk/modbus_rtu_over_tcp.py
@@ -29,6 +29,9 @@ class RtuOverTcpMaster(TcpMaster):
             else:
                 # the connection has been closed: nothing more to receive
                 break
+            if len(response) == 2 and bytearray(response)[1] & 0x80:
+                # exception response: slave + func + exception code + crc1 + crc2
+                expected_length = 5
             if expected_length >= 0 and len(response) >= expected_length:
                 break
         retval = call_hooks("modbus_rtu_over_tcp.RtuOverTcpMaster.after_recv", (self, response))
-- 
2.43.0


From f5e92e5f301d7614f06360e6f1cabc171fdeae7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 07/32] fix: a broadcast reaches every slave and is never
 answered

A broadcast which failed on one slave was not handed to the following ones and
was answered with a server failure. Adding or removing a slave meanwhile made
the iteration fail too.
---
 modbus_tk/modbus.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 9227967..fedd606 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -965,8 +965,17 @@ class Databank(object):
             # get the slave and let him executes the action
             if slave_id == 0:
                 # broadcast
-                for key in self._slaves:
-                    self._slaves[key].handle_request(request_pdu, broadcast=True)
+                with self._lock:
+                    slaves = list(self._slaves.values())
+                for slave in slaves:
+                    try:
+                        slave.handle_request(request_pdu, broadcast=True)
+                    except ModbusInvalidRequestError as excpt:
+                        LOGGER.error("invalid request: " + str(excpt))
+                    except Exception as excpt:
+                        # the other slaves must get the request and nobody answers
+                        call_hooks("modbus.Databank.on_error", (self, excpt, request_pdu))
+                        LOGGER.error("handle request failed: " + str(excpt))
                 return
             else:
                 try:
-- 
2.43.0


From 7e7f0165abb334fcfc4b990931b092164da7c042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 08/32] fix: Server.stop joins the thread it found alive

The server thread replaces itself by a new one when it ends. When this happened
during stop, stop tried to join the new thread, which was not started, and
raised a RuntimeError instead of waiting for the end of the old one.
---
 modbus_tk/modbus.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index fedd606..7fde6e2 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -1039,8 +1039,8 @@ class Server(object):
 
     def _make_thread(self):
         """create the main thread of the server"""
-        self._thread = threading.Thread(target=Server._run_server, args=(self,))
         self._go = threading.Event()
+        self._thread = threading.Thread(target=Server._run_server, args=(self,))
 
     def set_verbose(self, verbose):
         """if verbose is true the sent and received packets will be logged"""
@@ -1080,9 +1080,11 @@ class Server(object):
 
     def stop(self):
         """stop the server. It doesn't handle request anymore"""
-        if self._thread.is_alive():
-            self._go.clear()
-            self._thread.join()
+        # the thread replaces itself by a new one when it ends
+        thread, go = self._thread, self._go
+        if thread.is_alive():
+            go.clear()
+            thread.join()
 
     def _run_server(self):
         """main function of the main thread"""
-- 
2.43.0


From 10d145d7bc6f1e06f43ee90eea41df28968deaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 09/32] fix: an error on the server socket or in a hook does
 not stop the TcpServer

When accepting a connection failed or when an on_connect hook raised, the
listening socket was closed and no client could connect anymore. An on_error
hook which raised ended the server thread.
---
 modbus_tk/modbus_tcp.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/modbus_tk/modbus_tcp.py b/modbus_tk/modbus_tcp.py
index e4808e9..5b6f09c 100644
--- a/modbus_tk/modbus_tcp.py
+++ b/modbus_tk/modbus_tcp.py
@@ -355,6 +355,11 @@ class TcpServer(Server):
                                 )
             except Exception as excpt:
                 LOGGER.warning("Error while processing data on socket %d: %s", sock.fileno(), excpt)
-                call_hooks("modbus_tcp.TcpServer.on_error", (self, sock, excpt))
-                sock.close()
-                self._sockets.remove(sock)
+                try:
+                    call_hooks("modbus_tcp.TcpServer.on_error", (self, sock, excpt))
+                except Exception as msg:
+                    LOGGER.error("Error in a hook, Exception occurred: %s", msg)
+                if sock is not self._sock:
+                    # never close the server socket: the other clients still need it
+                    sock.close()
+                    self._sockets.remove(sock)
-- 
2.43.0


From 15fb67796d66559c36690fe2669304896272d0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 10/32] fix: a handle_request hook can raise a ModbusError

The function code was not known yet when the hook raised, so that the slave
failed with an UnboundLocalError instead of answering with the exception code.
---
 modbus_tk/modbus.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 7fde6e2..fcbeb27 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -786,6 +786,8 @@ class Slave(object):
 
             except ModbusError as excpt:
                 LOGGER.debug(str(excpt))
+                # the exception may come from a hook called before reading the function code
+                (function_code, ) = struct.unpack(">B", request_pdu[0:1])
                 call_hooks("modbus.Slave.on_exception", (self, function_code, excpt))
                 return struct.pack(">BB", function_code+128, excpt.get_exception_code())
 
-- 
2.43.0


From c836382ac186a09363712c897c386a1324d39d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 11/32] fix: a master refuses the response of another function

The function code of the response was not compared to the one of the request,
so that data of another kind of response could be returned.
---
 modbus_tk/modbus.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index fcbeb27..d002b19 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -377,6 +377,13 @@ class Master(object):
                 exception_code = byte_2
                 raise ModbusError(exception_code)
             else:
+                if function_code != defines.RAW and return_code != function_code:
+                    # this is not the response of the request
+                    raise ModbusInvalidResponseError(
+                        "Response function code {0} is different from request function code {1}. ".format(
+                            return_code, function_code
+                        )
+                    )
                 if is_read_function:
                     # get the values returned by the reading function
                     byte_count = byte_2
-- 
2.43.0


From dc7fca5d8f959c6c69f68e22ff50aba36a4fd2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 12/32] fix: the default data_format of diagnostic includes the
 sub-function

The response of function 8 contains the sub-function code before the data. The
default format ignored it, so that every valid response raised a struct.error.
---
 modbus_tk/modbus.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index d002b19..3e268a6 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -297,7 +297,8 @@ class Master(object):
                     # copy data in pdu
                     pdu += struct.pack(">B", j)
                 if not data_format:
-                    data_format = ">" + (len(output_value) * "B")
+                    # the response starts with the sub-function code
+                    data_format = ">H" + (len(output_value) * "B")
                 if expected_length < 0:
                     # No length was specified and calculated length can be used:
                     # slave + func + SubFunc1 + SubFunc2 + Data + crc1 + crc2
-- 
2.43.0


From c3b4b9214dfe034c93e4660bcc6e3448c2f4690d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 13/32] fix: a master checks the length of every file record
 sub-response

A response of function 20 with wrong sub-response lengths returned bytes of the
headers as if they were file data.
---
 modbus_tk/modbus.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 3e268a6..663fbb7 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -405,6 +405,13 @@ class Master(object):
                 # (calculated based on the function or user-defined)
                 if returns_raw:
                     return data
+                if function_code == defines.READ_FILE_RECORD:
+                    ptr = 0
+                    for quantity in quantity_of_x:
+                        # length of a sub-response: reference type + 2 bytes per register
+                        if data[ptr:ptr + 1] != struct.pack(">B", 2 * quantity + 1):
+                            raise ModbusInvalidResponseError("Invalid length of the file sub-response at {0}".format(ptr))
+                        ptr += 2 * quantity + 2
                 result = struct.unpack(data_format, data)
                 if nb_of_digits > 0:
                     digits = []
-- 
2.43.0


From 5a81ba5784650b3bf2ff5410410567f6283527d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 14/32] fix: hooks do not run under the global lock of the
 hooks

A hook which accesses the values of a slave waited for the lock of the slave
while holding the lock of the hooks, and a request handled at the same time
held the lock of the slave while waiting for the one of the hooks: deadlock.
---
 modbus_tk/hooks.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/modbus_tk/hooks.py b/modbus_tk/hooks.py
index 29f60b6..443ffae 100644
--- a/modbus_tk/hooks.py
+++ b/modbus_tk/hooks.py
@@ -98,13 +98,14 @@ def uninstall_hook(name, fct=None):
 
 def call_hooks(name, args):
     """call the function associated with the hook and pass the given args"""
+    # do not hold the lock while running the hooks: they may need a lock owned by a thread waiting for this one
     with _LOCK:
-        try:
-            for fct in _HOOKS[name]:
-                retval = fct(args)
-                if retval is not None:
-                    return retval
-        except KeyError:
-            pass
-        return None
-
+        fcts = list(_HOOKS.get(name, ()))
+    try:
+        for fct in fcts:
+            retval = fct(args)
+            if retval is not None:
+                return retval
+    except KeyError:
+        pass
+    return None
-- 
2.43.0


From 2f76bc2b6547ad4c0287b0aee68cbc439186adf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 15/32] fix: PyModbusClientTCP works with its default arguments

None was given as host, port and timeout to the TcpMaster, which fails at the
first call.
---
 modbus_tk/pymodbusclient.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/pymodbusclient.py b/modbus_tk/pymodbusclient.py
index c466591..37ee6c6 100644
--- a/modbus_tk/pymodbusclient.py
+++ b/modbus_tk/pymodbusclient.py
@@ -5,7 +5,10 @@ class PyModbusClientTCP():
     """ Client that allows a drop in replacement for pymodbus without any code change """
 
     def __init__(self, host=None, port=None, timeout=None, **kwargs):
-        self.client = modbus_tcp.TcpMaster(host=host, port=port, timeout_in_sec=timeout)
+        args = {"host": host, "port": port, "timeout_in_sec": timeout}
+        # use the default values of the master for the arguments which are not set
+        args = dict((key, val) for (key, val) in args.items() if val is not None)
+        self.client = modbus_tcp.TcpMaster(**args)
 
     def open(self):
         self.client.open()
-- 
2.43.0


From bf4c4c7fb7bc88ba427ecbb32d43acdf2c6fd512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 16/32] fix: PyModbusClientTCP returns the values it has read

map(None, values) raises a TypeError with Python 3 when it is iterated, and
read_coils used an attribute that does not exist.
---
 modbus_tk/pymodbusclient.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/modbus_tk/pymodbusclient.py b/modbus_tk/pymodbusclient.py
index 37ee6c6..ad269f0 100644
--- a/modbus_tk/pymodbusclient.py
+++ b/modbus_tk/pymodbusclient.py
@@ -19,9 +19,7 @@ class PyModbusClientTCP():
 
     def read_input_registers(self, register, num=1):
         ret = self.client.execute(1, cst.READ_INPUT_REGISTERS, register, num)
-        to_array = None
-        to_array = map(to_array, ret)
-        return to_array
+        return list(ret)
 
     def write_single_register(self, register, word):
         self.client.execute(1, cst.WRITE_SINGLE_REGISTER, register, output_value=word)
@@ -31,17 +29,12 @@ class PyModbusClientTCP():
         self.client.execute(1, cst.WRITE_SINGLE_COIL, coil, output_value=value)
 
     def read_coils(self, bit_addr, bit_number=1):
-        self.client.execute(1, cst.READ_COILS, bit_addr, bit_number)
-        coils = self.coils[bit_addr:bit_addr+bit_number]
-        to_array = None
-        to_array = map(to_array, coils)
-        return to_array
+        coils = self.client.execute(1, cst.READ_COILS, bit_addr, bit_number)
+        return list(coils)
 
     def read_discrete_inputs(self, bit_addr, bit_number=1):
         registers = self.client.execute(1, cst.READ_DISCRETE_INPUTS, bit_addr, bit_number)
-        to_array = None
-        to_array = map(to_array, registers)
-        return to_array
+        return list(registers)
 
     def last_error(self):
         # TODO: Needs to have something here
-- 
2.43.0


From d0277aefd513080e597da510e9e53676d0965d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 17/32] fix: the RPC interface of the simulator works with
 Python 3

The client and the server mixed strings and bytes: every call failed.
---
 modbus_tk/simulator.py            | 4 +++-
 modbus_tk/simulator_rpc_client.py | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index a220c52..578f2ae 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -91,12 +91,14 @@ class RpcHandler(SocketServer.BaseRequestHandler):
         # self.request is the TCP socket connected to the client
         # read the incoming command
         request = self.request.recv(1024).strip()
+        if modbus_tk.utils.PY3:
+            request = request.decode('utf-8', 'replace')
         # write to the queue waiting to be processed by the server
         INPUT_QUEUE.put(request)
         # wait for the server answer in the output queue
         response = OUTPUT_QUEUE.get(timeout=5.0)
         # send back the answer
-        self.request.send(response)
+        self.request.sendall(response.encode('utf-8') if modbus_tk.utils.PY3 else response)
 
 
 class RpcInterface(threading.Thread):
diff --git a/modbus_tk/simulator_rpc_client.py b/modbus_tk/simulator_rpc_client.py
index 28049e7..98cc070 100644
--- a/modbus_tk/simulator_rpc_client.py
+++ b/modbus_tk/simulator_rpc_client.py
@@ -12,6 +12,7 @@ from __future__ import print_function
 
 import socket
 import modbus_tk.defines
+from modbus_tk.utils import PY3
 
 
 class SimulatorRpcClient(object):
@@ -28,9 +29,11 @@ class SimulatorRpcClient(object):
         sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
         sock.settimeout(self.timeout)
         sock.connect((self.host, self.port))
-        sock.send(query)
+        sock.sendall(query.encode('utf-8') if PY3 else query)
         response = sock.recv(1024)
         sock.close()
+        if PY3:
+            response = response.decode('utf-8')
         return self._response_to_values(response.strip("\r\n"), query.split(" ")[0])
 
     def _response_to_values(self, response, command):
-- 
2.43.0


From 97a538c2ea77addec964702081697b4792e9693e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 18/32] fix: SimulatorRpcClient reads the whole answer

Only the first 1024 bytes were read: get_values returned truncated values.
---
 modbus_tk/simulator_rpc_client.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/simulator_rpc_client.py b/modbus_tk/simulator_rpc_client.py
index 98cc070..075e66f 100644
--- a/modbus_tk/simulator_rpc_client.py
+++ b/modbus_tk/simulator_rpc_client.py
@@ -30,7 +30,12 @@ class SimulatorRpcClient(object):
         sock.settimeout(self.timeout)
         sock.connect((self.host, self.port))
         sock.sendall(query.encode('utf-8') if PY3 else query)
-        response = sock.recv(1024)
+        # the server closes the connection after its answer
+        response = b""
+        data = sock.recv(1024)
+        while data:
+            response += data
+            data = sock.recv(1024)
         sock.close()
         if PY3:
             response = response.decode('utf-8')
-- 
2.43.0


From 2583b1249ffbe2651a0a6eeddbc23cc455020b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 19/32] fix: uninstall_hook of the simulator removes only the
 given function

The name of the function was ignored and all the hooks were removed.
---
 modbus_tk/simulator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index 578f2ae..e1f2521 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -317,8 +317,10 @@ class Simulator(object):
         If no function is given, uninstall all functions
         """
         hook_name = args[1]
+        fct_name = args[2] if len(args) > 2 else ""
+        fct = self._hooks_fct[fct_name] if fct_name else None
         try:
-            hooks.uninstall_hook(hook_name)
+            hooks.uninstall_hook(hook_name, fct)
         except KeyError as exception:
             LOGGER.error(str(exception))
 
-- 
2.43.0


From 679735ae9ee8966950102162be5b8902e7ed6f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 20/32] fix: the answers of the simulator go to the interface
 which sent the command

The console and the RPC interface share the queues: two commands at the same
time could swap their answers.
---
 modbus_tk/simulator.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index e1f2521..e5c3187 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -46,6 +46,9 @@ INPUT_QUEUE = queue.Queue()
 # response to be sent back by the interfaces
 OUTPUT_QUEUE = queue.Queue()
 
+# a command and its response must not be mixed with the ones of another interface
+QUEUE_LOCK = threading.Lock()
+
 
 class CompositeServer(modbus.Server):
     """make possible to have several servers sharing the same databank"""
@@ -93,10 +96,11 @@ class RpcHandler(SocketServer.BaseRequestHandler):
         request = self.request.recv(1024).strip()
         if modbus_tk.utils.PY3:
             request = request.decode('utf-8', 'replace')
-        # write to the queue waiting to be processed by the server
-        INPUT_QUEUE.put(request)
-        # wait for the server answer in the output queue
-        response = OUTPUT_QUEUE.get(timeout=5.0)
+        with QUEUE_LOCK:
+            # write to the queue waiting to be processed by the server
+            INPUT_QUEUE.put(request)
+            # wait for the server answer in the output queue
+            response = OUTPUT_QUEUE.get(timeout=5.0)
         # send back the answer
         self.request.sendall(response.encode('utf-8') if modbus_tk.utils.PY3 else response)
 
@@ -168,8 +172,9 @@ class ConsoleInterface(threading.Thread):
         while self._go.isSet(): #while app is running
             if self._check_console_input(): #if something to read on the console
                 cmd = sys.stdin.readline() #read it
-                self.inq.put(cmd) #dispatch it tpo the server
-                response = self.outq.get(timeout=2.0) #wait for an answer
+                with QUEUE_LOCK:
+                    self.inq.put(cmd) #dispatch it tpo the server
+                    response = self.outq.get(timeout=2.0) #wait for an answer
                 sys.stdout.write(response) #write the answer on the console
 
     def close(self):
-- 
2.43.0


From 31eae457ad2925c5315477bdb745cb33b2299226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:24 +0000
Subject: [PATCH 21/32] fix: the hooks of Server can replace a request or
 response by an empty one

---
 modbus_tk/modbus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 663fbb7..0e5f9a3 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -1127,12 +1127,12 @@ class Server(object):
         query = self._make_query()
 
         retval = call_hooks("modbus.Server.before_handle_request", (self, request))
-        if retval:
+        if retval is not None:
             request = retval
 
         response = self._databank.handle_request(query, request)
         retval = call_hooks("modbus.Server.after_handle_request", (self, response))
-        if retval:
+        if retval is not None:
             response = retval
 
         if response and self._verbose:
-- 
2.43.0


From a37f4d0784478fb795e596e1457ccf3cd2a3ab2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:01 +0000
Subject: [PATCH 22/32] fix: a server can be started again when its
 on_exception hook raised an error

---
 modbus_tk/modbus.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 0e5f9a3..fd14548 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -1114,8 +1114,9 @@ class Server(object):
         except Exception as excpt:
             LOGGER.error("server error: %s", str(excpt))
             call_hooks("modbus.Server.on_exception", (self, excpt))
-        # make possible to rerun in future
-        self._make_thread()
+        finally:
+            # make possible to rerun in future
+            self._make_thread()
 
     def _handle(self, request):
         """handle a received sentence"""
-- 
2.43.0


From 87f3aabab12a268de6d9797de1b85d23d21b741d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:04 +0000
Subject: [PATCH 23/32] fix: an unknown command which begins with quit does not
 stop the simulator

---
 modbus_tk/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index e5c3187..2edef86 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -340,7 +340,7 @@ class Simulator(object):
         while True:
             cmd = self.inq.get()
             args = cmd.strip('\r\n').split(' ')
-            if cmd.find('quit') == 0:
+            if args[0] == 'quit':
                 self.outq.put('bye-bye\r\n')
                 break
             elif args[0] in self.cmds:
-- 
2.43.0


From 8749ed607bcc07ad5147496b3ffd91fe80fa5485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:04 +0000
Subject: [PATCH 24/32] fix: SimulatorRpcClient.get_values returns an empty
 tuple for no value

---
 modbus_tk/simulator_rpc_client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modbus_tk/simulator_rpc_client.py b/modbus_tk/simulator_rpc_client.py
index 075e66f..1173d17 100644
--- a/modbus_tk/simulator_rpc_client.py
+++ b/modbus_tk/simulator_rpc_client.py
@@ -97,7 +97,7 @@ class SimulatorRpcClient(object):
         """get the values of some registers"""
         query = "get_values %d %s %d %d" % (slave_id, block_name, address, length)
         ret_values = self._rpc_call(query)
-        return tuple([int(val) for val in ret_values.split(' ')])
+        return tuple([int(val) for val in ret_values.split()])
 
     def install_hook(self, hook_name, fct_name):
         """add a hook"""
-- 
2.43.0


From 705e45c8272142f58476079114be302a84f8bcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:48 +0000
Subject: [PATCH 25/32] fix: RtuMaster can be opened again after its port was
 closed by somebody else

---
 modbus_tk/modbus_rtu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modbus_tk/modbus_rtu.py b/modbus_tk/modbus_rtu.py
index 11c9ee8..513f6d5 100644
--- a/modbus_tk/modbus_rtu.py
+++ b/modbus_tk/modbus_rtu.py
@@ -114,7 +114,7 @@ class RtuMaster(Master):
         if self._serial.is_open:
             self._serial.close()
             call_hooks("modbus_rtu.RtuMaster.after_close", (self, ))
-            return True
+        return True
 
     def set_timeout(self, timeout_in_sec, use_sw_timeout=False):
         """Change the timeout value"""
-- 
2.43.0


From 6fe29fd0174cac5e1304a72c64af1a596cb8e20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:48 +0000
Subject: [PATCH 26/32] fix: RtuServer.stop does not hang when the port could
 not be opened again

---
 modbus_tk/modbus_rtu.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modbus_tk/modbus_rtu.py b/modbus_tk/modbus_rtu.py
index 513f6d5..69ef806 100644
--- a/modbus_tk/modbus_rtu.py
+++ b/modbus_tk/modbus_rtu.py
@@ -269,6 +269,8 @@ class RtuServer(Server):
                     request += read_bytes
                 except Exception as e:
                     self._serial.close()
+                    # even if the port can't be opened now, the next reads must not block
+                    self._serial.timeout = self._timeout
                     self._serial.open()
                 self._serial.timeout = self._timeout
 
-- 
2.43.0


From 8e46689ab35d2790b870237f3887b3a3ed6dee86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:48 +0000
Subject: [PATCH 27/32] fix: LogitHandler sends records which are not ascii

---
 modbus_tk/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modbus_tk/utils.py b/modbus_tk/utils.py
index 3d6be34..a19a501 100644
--- a/modbus_tk/utils.py
+++ b/modbus_tk/utils.py
@@ -94,7 +94,7 @@ class LogitHandler(logging.Handler):
         """format and send the record over udp"""
         data = self.format(record) + "\r\n"
         if PY3:
-            data = to_data(data)
+            data = data.encode('utf-8', 'replace')
         self._sock.sendto(data, self._dest)
 
 
-- 
2.43.0


From ad563e1eb5339638cae36f6f4da7c8ad1ca87ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:53 +0000
Subject: [PATCH 28/32] fix: remove_all_blocks keeps the memory shared between
 tables

---
 modbus_tk/modbus.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index fd14548..aa2914a 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -861,8 +861,9 @@ class Slave(object):
         # thread safe
         with self._data_lock:
             self._blocks.clear()
-            for key in self._memory:
-                self._memory[key] = []
+            for blocks in self._memory.values():
+                # keep the lists: several tables may share one of them
+                del blocks[:]
 
     def _get_block(self, block_name):
         """Find a block by its name and raise and exception if not found"""
-- 
2.43.0


From d5ded265961c7f46101e9380e2296743e4cdfbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:01 +0000
Subject: [PATCH 29/32] fix: a request on a table the slave does not have is
 refused with an exception

---
 modbus_tk/modbus.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index aa2914a..88bd2b4 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -516,7 +516,8 @@ class Slave(object):
 
     def _get_block_and_offset(self, block_type, address, length):
         """returns the block and offset corresponding to the given address"""
-        for block in self._memory[block_type]:
+        # the memory given to a slave may have no table for this type
+        for block in self._memory.get(block_type, ()):
             if address >= block.starting_address:
                 offset = address - block.starting_address
                 if block.size >= offset + length:
-- 
2.43.0


From 4778d2736d4702b89e289804714cfc1aa6226bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:33 +0000
Subject: [PATCH 30/32] fix: a TCP server ended when a client opened more
 connections than select can watch

---
 modbus_tk/modbus_tcp.py |  5 ++---
 modbus_tk/utils.py      | 14 ++++++++++++++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/modbus_tk/modbus_tcp.py b/modbus_tk/modbus_tcp.py
index 5b6f09c..ddfc45f 100644
--- a/modbus_tk/modbus_tcp.py
+++ b/modbus_tk/modbus_tcp.py
@@ -10,7 +10,6 @@
 """
 
 import socket
-import select
 import struct
 
 from modbus_tk import LOGGER
@@ -19,7 +18,7 @@ from modbus_tk.modbus import (
     Databank, Master, Query, Server,
     InvalidArgumentError, ModbusInvalidResponseError, ModbusInvalidRequestError
 )
-from modbus_tk.utils import threadsafe_function, flush_socket, to_data
+from modbus_tk.utils import threadsafe_function, flush_socket, to_data, wait_readable
 
 
 #-------------------------------------------------------------------------------
@@ -284,7 +283,7 @@ class TcpServer(Server):
     def _do_run(self):
         """called in a almost-for-ever loop by the server"""
         # check the status of every socket
-        inputready = select.select(self._sockets, [], [], 1.0)[0]
+        inputready = wait_readable(self._sockets, 1.0)
 
         # handle data on each a socket
         for sock in inputready:
diff --git a/modbus_tk/utils.py b/modbus_tk/utils.py
index a19a501..7404eff 100644
--- a/modbus_tk/utils.py
+++ b/modbus_tk/utils.py
@@ -44,6 +44,20 @@ def threadsafe_function(fcn):
     return new
 
 
+def wait_readable(socks, timeout):
+    """Returns the sockets which have something to read, after `timeout` seconds at most
+
+       Unlike select, it works whatever the number of open files
+    """
+    if not hasattr(select, "poll"):
+        return select.select(socks, [], [], timeout)[0]
+    poller = select.poll()
+    for sock in socks:
+        poller.register(sock, select.POLLIN)
+    ready = set(fileno for fileno, _ in poller.poll(int(timeout * 1000)))
+    return [sock for sock in socks if sock.fileno() in ready]
+
+
 def flush_socket(socks, lim=0):
     """remove the data present on the socket"""
     input_socks = [socks]
-- 
2.43.0


From f384283b0b7df7ad1ba3c225d976e1df7292d97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:30 +0000
Subject: [PATCH 31/32] fix: a TCP server ended when a hook closed the
 connection it was called for

---
 modbus_tk/modbus_tcp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modbus_tk/modbus_tcp.py b/modbus_tk/modbus_tcp.py
index ddfc45f..461401b 100644
--- a/modbus_tk/modbus_tcp.py
+++ b/modbus_tk/modbus_tcp.py
@@ -282,6 +282,9 @@ class TcpServer(Server):
 
     def _do_run(self):
         """called in a almost-for-ever loop by the server"""
+        # forget the connections which have been closed by a hook
+        self._sockets = [sock for sock in self._sockets if sock is self._sock or sock.fileno() >= 0]
+
         # check the status of every socket
         inputready = wait_readable(self._sockets, 1.0)
 
-- 
2.43.0


From 24165c726dd486b64690750d84816443ae267cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:18 +0000
Subject: [PATCH 32/32] fix: a TCP master keeps no socket when the connection
 could not be made

---
 modbus_tk/modbus_tcp.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/modbus_tk/modbus_tcp.py b/modbus_tk/modbus_tcp.py
index 461401b..c0f4701 100644
--- a/modbus_tk/modbus_tcp.py
+++ b/modbus_tk/modbus_tcp.py
@@ -166,11 +166,18 @@ class TcpMaster(Master):
         if self._sock:
             self._sock.close()
         self._sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
-        self.set_timeout(self.get_timeout())
-        self._sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
-        call_hooks("modbus_tcp.TcpMaster.before_connect", (self, ))
-        self._sock.connect((self._host, self._port))
-        call_hooks("modbus_tcp.TcpMaster.after_connect", (self, ))
+        try:
+            self.set_timeout(self.get_timeout())
+            self._sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
+            call_hooks("modbus_tcp.TcpMaster.before_connect", (self, ))
+            self._sock.connect((self._host, self._port))
+            call_hooks("modbus_tcp.TcpMaster.after_connect", (self, ))
+        except Exception:
+            # not connected: close() would not release this socket
+            sock, self._sock = self._sock, None
+            if sock:
+                sock.close()
+            raise
 
     def _do_close(self):
         """Close the connection with the Modbus Slave"""
@@ -179,7 +186,7 @@ class TcpMaster(Master):
             self._sock.close()
             call_hooks("modbus_tcp.TcpMaster.after_close", (self, ))
             self._sock = None
-            return True
+        return True
 
     def set_timeout(self, timeout_in_sec):
         """Change the timeout value"""
-- 
2.43.0

