From 56d7954e3b43e756eba4558f579780792bdf46b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:58 +0000
Subject: [PATCH 01/20] fix: encode request addresses little-endian

Request.to_bytes wrote the two-byte addresses big-endian while every decoder
(and Response.to_bytes) uses little-endian, so any address above 255 was sent
to the wrong device.
---
 elgas/frames.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elgas/frames.py b/elgas/frames.py
index f05abdd..3664b64 100644
--- a/elgas/frames.py
+++ b/elgas/frames.py
@@ -33,9 +33,9 @@ class Request:
         out.append(self.TYPE)
         out.append(self.service)
         out.extend(self.length.to_bytes(2, "little"))
-        out.extend(self.destination_address_1.to_bytes(2, "big"))
+        out.extend(self.destination_address_1.to_bytes(2, "little"))
         out.append(self.destination_address_2)
-        out.extend(self.source_address_1.to_bytes(2, "big"))
+        out.extend(self.source_address_1.to_bytes(2, "little"))
         out.append(self.source_address_2)
         out.extend(self.data)
         redundancy_source = out[1:]
-- 
2.43.0


From 9fb185092b31d7617d407ae34f4136c807bad998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 02/20] fix: refuse frames too short to hold a header and a
 trailer

A string of 10 to 15 bytes with a matching length field was decoded by reading
the same bytes as both address and redundancy codes.
---
 elgas/frames.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elgas/frames.py b/elgas/frames.py
index 3664b64..688ff72 100644
--- a/elgas/frames.py
+++ b/elgas/frames.py
@@ -52,6 +52,8 @@ class Request:
             raise ValueError("Not a Request frame")
         if not in_bytes.endswith(b"\x0d"):
             raise ValueError("Data does not end with end char")
+        if len(in_bytes) < 16:  # a frame without any data
+            raise ValueError("Data is too short to be a frame")
         service = constants.ServiceNumber(int.from_bytes(in_bytes[3:4], "little"))
         length = int.from_bytes(in_bytes[4:6], "little")
         if length != len(in_bytes) - 1:  # STX is not counted
@@ -134,6 +136,8 @@ class Response:
             raise ValueError("Not a Response frame")
         if not in_bytes.endswith(b"\x0d"):
             raise ValueError("Data does not end with end char")
+        if len(in_bytes) < 16:  # a frame without any data
+            raise ValueError("Data is too short to be a frame")
         service = constants.ServiceNumber(int.from_bytes(in_bytes[3:4], "little"))
         length = int.from_bytes(in_bytes[4:6], "little")
         if length != len(in_bytes) - 1:  # STX is not counted
-- 
2.43.0


From dceec67a0e43c4347c3336731d52e6808e117188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:07 +0000
Subject: [PATCH 03/20] fix: raise the device error when several error bits are
 set

raise_error compared the whole byte with each single bit, so a byte with two
or more bits set raised nothing and was decoded as a normal response.
---
 elgas/connection.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/elgas/connection.py b/elgas/connection.py
index 3dffd59..d8aafca 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -47,21 +47,21 @@ def create_cipher_context(
 
 def raise_error(data: bytes):
     error = data[0]
-    if error == 0b00000001:
+    if error & 0b00000001:
         raise exceptions.WrongPasswordError()
-    elif error == 0b00000010:
+    elif error & 0b00000010:
         raise exceptions.SettingArchiveFull()
-    elif error == 0b00000100:
+    elif error & 0b00000100:
         raise exceptions.SwitchOff()
-    elif error == 0b00001000:
+    elif error & 0b00001000:
         raise exceptions.BlockedBuffer()
-    elif error == 0b00010000:
+    elif error & 0b00010000:
         raise exceptions.DataError()
-    elif error == 0b00100000:
+    elif error & 0b00100000:
         raise exceptions.CipherKeyError()
-    elif error == 0b01000000:
+    elif error & 0b01000000:
         raise exceptions.WrongEncryptionKeysError()
-    elif error == 0b10000000:
+    elif error & 0b10000000:
         raise exceptions.WriteError()
 
 
-- 
2.43.0


From cdf41b00aafab5a54511f5d600aa2e4531112f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 04/20] fix: drop a frame from the receive buffer once it has
 been looked at

Bytes ending with an end char that are not a valid frame, and frames that
raised, stayed first in the buffer, so next_event saw them again for ever and
no response received after them was delivered.
---
 elgas/connection.py | 65 ++++++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 28 deletions(-)

diff --git a/elgas/connection.py b/elgas/connection.py
index d8aafca..ecf6965 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -159,34 +159,43 @@ class ElgasConnection:
 
     def next_event(self) -> bytes:
 
-        if not self.buffer:
-            LOG.debug("Buffer empty. Need more data")
-            return state.NEED_DATA
-
-        # do we have an end char?
-        try:
-            end_char_index = self.buffer.index(b"\x0d") + 1
-        except ValueError:
-            # No end char in buffer and we need more data.
-            LOG.debug("No end char in data. Need more data")
-            return state.NEED_DATA
-
-        data = self.buffer[:end_char_index]
-        try:
-            response = frames.ResponseFactory.from_bytes(utils.return_characters(data))
-
-            LOG.debug("Received ELGAS response", response=response)
-
-            if isinstance(response, frames.EncryptedResponse):
-                response.data = self.cipher_context.decrypt(response.data)
-                LOG.debug("Decrypted ELGAS response", decrypted=response)
-
-            if len(response.data) == 1:
-                raise_error(response.data)
-
-        except ValueError:
-            LOG.debug("Cannot interpret data as frame. Need more data")
-            return state.NEED_DATA
+        while True:
+
+            if not self.buffer:
+                LOG.debug("Buffer empty. Need more data")
+                return state.NEED_DATA
+
+            # do we have an end char?
+            try:
+                end_char_index = self.buffer.index(b"\x0d") + 1
+            except ValueError:
+                # No end char in buffer and we need more data.
+                LOG.debug("No end char in data. Need more data")
+                return state.NEED_DATA
+
+            data = self.buffer[:end_char_index]
+            # An end char always ends a frame, so no later data can make it valid.
+            self.buffer = self.buffer[end_char_index:]
+
+            try:
+                response = frames.ResponseFactory.from_bytes(
+                    utils.return_characters(data)
+                )
+
+                LOG.debug("Received ELGAS response", response=response)
+
+                if isinstance(response, frames.EncryptedResponse):
+                    response.data = self.cipher_context.decrypt(response.data)
+                    LOG.debug("Decrypted ELGAS response", decrypted=response)
+
+                if len(response.data) == 1:
+                    raise_error(response.data)
+
+            except ValueError:
+                LOG.debug("Cannot interpret data as frame. Ignoring it")
+                continue
+
+            break
 
         pdu = ResponsePduFactory.from_response(response)
         LOG.info("Received PDU", pdu=pdu)
-- 
2.43.0


From 88da5e0ac3f10ff1821856ca5dba6c5818300dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:36 +0000
Subject: [PATCH 05/20] fix: finish the exchange when the device answers with
 an error

The state kept waiting for a response after a device error was raised, so the
connection refused every later request.
---
 elgas/connection.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/elgas/connection.py b/elgas/connection.py
index ecf6965..9373663 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -189,7 +189,12 @@ class ElgasConnection:
                     LOG.debug("Decrypted ELGAS response", decrypted=response)
 
                 if len(response.data) == 1:
-                    raise_error(response.data)
+                    try:
+                        raise_error(response.data)
+                    except exceptions.ElgasError:
+                        # The error is the answer to the request.
+                        self.elgas_state.current_state = state.IDLE
+                        raise
 
             except ValueError:
                 LOG.debug("Cannot interpret data as frame. Ignoring it")
-- 
2.43.0


From 55a6905d57b324e2f314e9c60f5540d7d7f5d174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:50 +0000
Subject: [PATCH 06/20] fix: leave the state alone when a request cannot be
 encoded

send() moved to the awaiting state before encoding, so a request that failed to
encode (nothing was sent) left the connection waiting for a response for ever.
---
 elgas/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elgas/connection.py b/elgas/connection.py
index 9373663..8ae472d 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -108,7 +108,6 @@ class ElgasConnection:
     def send(self, event) -> bytes:
 
         LOG.debug("Sending request PDU", pdu=event)
-        self.elgas_state.process_event(event)
         application_data = event.to_bytes()
 
         if self.cipher_context:
@@ -136,6 +135,7 @@ class ElgasConnection:
         LOG.debug("Sending ELGAS request", request=request)
         frame_data = request.to_bytes()
         escaped_data = utils.escape_characters(frame_data)
+        self.elgas_state.process_event(event)
         return escaped_data
 
     def receive_data(self, data: bytes):
-- 
2.43.0


From 1df91913fa6456da645df49e0e1101ec52da59ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:51 +0000
Subject: [PATCH 07/20] fix: decode all four bytes of the record id of archive
 responses

Only the first three bytes were decoded and the fourth was dropped.
---
 elgas/application.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elgas/application.py b/elgas/application.py
index 6c84247..d10f0cf 100644
--- a/elgas/application.py
+++ b/elgas/application.py
@@ -253,7 +253,7 @@ class ReadArchiveByTimeResponse:
     @classmethod
     def from_bytes(cls, in_bytes: bytes):
         archive = constants.Archive(in_bytes[0])
-        oldest_record_id = int.from_bytes(in_bytes[1:4], "little")
+        oldest_record_id = int.from_bytes(in_bytes[1:5], "little")
         data = in_bytes[5:]
         return cls(
             archive=archive,
@@ -296,7 +296,7 @@ class ReadArchiveResponse:
     @classmethod
     def from_bytes(cls, in_bytes: bytes):
         archive = constants.Archive(in_bytes[0])
-        oldest_record_id = int.from_bytes(in_bytes[1:4], "little")
+        oldest_record_id = int.from_bytes(in_bytes[1:5], "little")
         data = in_bytes[5:]
         return cls(
             archive=archive,
-- 
2.43.0


From 083f6f213052892e2f0f8e110199f61cf71de620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:15 +0000
Subject: [PATCH 08/20] fix: refuse time and archive responses that are too
 short

A truncated payload was decoded to a wrong record id or an empty data access
byte instead of being refused.
---
 elgas/application.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/elgas/application.py b/elgas/application.py
index d10f0cf..3b5c5fc 100644
--- a/elgas/application.py
+++ b/elgas/application.py
@@ -110,6 +110,8 @@ class ReadTimeResponse:
 
     @classmethod
     def from_bytes(cls, in_bytes: bytes):
+        if len(in_bytes) < 7:
+            raise ValueError("Time response is too short")
         time_data = in_bytes[:6]
         data_access_result = in_bytes[6:7]
         extra_data = in_bytes[7:-2]
@@ -252,6 +254,8 @@ class ReadArchiveByTimeResponse:
 
     @classmethod
     def from_bytes(cls, in_bytes: bytes):
+        if len(in_bytes) < 5:
+            raise ValueError("Archive response is too short")
         archive = constants.Archive(in_bytes[0])
         oldest_record_id = int.from_bytes(in_bytes[1:5], "little")
         data = in_bytes[5:]
@@ -295,6 +299,8 @@ class ReadArchiveResponse:
 
     @classmethod
     def from_bytes(cls, in_bytes: bytes):
+        if len(in_bytes) < 5:
+            raise ValueError("Archive response is too short")
         archive = constants.Archive(in_bytes[0])
         oldest_record_id = int.from_bytes(in_bytes[1:5], "little")
         data = in_bytes[5:]
-- 
2.43.0


From 30284a4c790ac94f8d1534a956a9f7ca01ec433b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 09/20] fix: refuse to encode timestamps the device cannot
 represent

Years before 2000 or after 2099 gave seven bytes (or a failure deep in hex
parsing), shifting everything after the timestamp in the request.
---
 elgas/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elgas/utils.py b/elgas/utils.py
index 7845e6b..adbd99b 100644
--- a/elgas/utils.py
+++ b/elgas/utils.py
@@ -212,6 +212,8 @@ def datetime_to_bytes(timestamp: datetime) -> bytes:
     """
     Packs a datetime into a BCD encoded format
     """
+    if not 2000 <= timestamp.year <= 2099:
+        raise ValueError(f"{timestamp} cannot be encoded, year is not 2000 to 2099")
     out = bytearray()
     out.extend(to_bdc(timestamp.second))
     out.extend(to_bdc(timestamp.minute))
-- 
2.43.0


From d514c846e4341fca9d9f2baa4855079d024cff7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:17 +0000
Subject: [PATCH 10/20] fix: do not loop for ever when a read returns nothing

A closed TCP connection and a serial read that times out both return no bytes,
and _recv_bytes kept asking.
---
 elgas/transport.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/elgas/transport.py b/elgas/transport.py
index 3c76404..fede8eb 100644
--- a/elgas/transport.py
+++ b/elgas/transport.py
@@ -147,7 +147,10 @@ class BlockingTcpTransport:
 
         data = b""
         while len(data) < amount:
-            data += self.tcp_socket.recv(amount - len(data))
+            received = self.tcp_socket.recv(amount - len(data))
+            if not received:
+                raise exceptions.CommunicationError("Connection closed by peer")
+            data += received
 
         return data
 
@@ -250,7 +253,10 @@ class SerialTransport:
 
         data = b""
         while len(data) < amount:
-            data += self.serial_port.read(amount - len(data))
+            received = self.serial_port.read(amount - len(data))
+            if not received:
+                raise exceptions.CommunicationError("Timed out reading serial port")
+            data += received
 
         return data
 
-- 
2.43.0


From f8b832ef7dda080f6ab212745ee4979030d47564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:18 +0000
Subject: [PATCH 11/20] fix: close the socket even when shutting it down fails

Shutdown fails when the peer is gone already, and the socket was then dropped
without being closed.
---
 elgas/transport.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/elgas/transport.py b/elgas/transport.py
index fede8eb..8d59eec 100644
--- a/elgas/transport.py
+++ b/elgas/transport.py
@@ -110,8 +110,10 @@ class BlockingTcpTransport:
         if self.tcp_socket:
             # only disconnect if there is a socket.
             try:
-                self.tcp_socket.shutdown(socket.SHUT_RDWR)
-                self.tcp_socket.close()
+                try:
+                    self.tcp_socket.shutdown(socket.SHUT_RDWR)
+                finally:
+                    self.tcp_socket.close()
             except (OSError, IOError, socket.timeout, socket.error) as e:
                 self.tcp_socket = None
                 raise exceptions.CommunicationError from e
-- 
2.43.0


From 1913d012184b720daff0c3bd487bfad94e658cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:56 +0000
Subject: [PATCH 12/20] fix: decode device error and sum of alarms objects

from_bytes left out three required attributes and raised TypeError for every
object of types 61 and 62. Their data does not hold those values, so they are
None.
---
 elgas/parameters/device_error.py  | 22 ++++++++++++++++------
 elgas/parameters/sum_of_alarms.py | 22 ++++++++++++++++------
 2 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/elgas/parameters/device_error.py b/elgas/parameters/device_error.py
index 19343ff..3b02f06 100644
--- a/elgas/parameters/device_error.py
+++ b/elgas/parameters/device_error.py
@@ -22,9 +22,9 @@ class DeviceError:
     in_binary_archive: bool
     in_data_archive: bool
     name: str
-    error_bit_order_in_actual_values: int
-    error_bit_order_in_binary_archive_record: int  # TODO: Are these switch . Seems weird to have them in reverse order further down in the structure.
-    error_bit_order_in_data_archive_record: int
+    error_bit_order_in_actual_values: Optional[int]
+    error_bit_order_in_binary_archive_record: Optional[int]  # TODO: Are these switch . Seems weird to have them in reverse order further down in the structure.
+    error_bit_order_in_data_archive_record: Optional[int]
     action_during_change: Optional[int]
     text_log_0: Optional[str]
     text_log_1: Optional[str]
@@ -63,6 +63,10 @@ class DeviceError:
             in_binary_archive=in_binary_archive,
             in_data_archive=in_data_archive,
             name=name,
+            # not part of the data of this object type
+            error_bit_order_in_actual_values=None,
+            error_bit_order_in_binary_archive_record=None,
+            error_bit_order_in_data_archive_record=None,
             action_during_change=action_during_change,
             text_log_0=text_log_0,
             text_log_1=text_log_1,
@@ -81,9 +85,15 @@ class DeviceErrorSchema(marshmallow.Schema):
     in_binary_archive = marshmallow.fields.Boolean(required=True)
     in_data_archive = marshmallow.fields.Boolean(required=True)
     name = marshmallow.fields.String(required=True)
-    error_bit_order_in_actual_values = marshmallow.fields.Integer(required=True)
-    error_bit_order_in_binary_archive_record = marshmallow.fields.Integer(required=True)
-    error_bit_order_in_data_archive_record = marshmallow.fields.Integer(required=True)
+    error_bit_order_in_actual_values = marshmallow.fields.Integer(
+        required=True, allow_none=True
+    )
+    error_bit_order_in_binary_archive_record = marshmallow.fields.Integer(
+        required=True, allow_none=True
+    )
+    error_bit_order_in_data_archive_record = marshmallow.fields.Integer(
+        required=True, allow_none=True
+    )
     action_during_change = marshmallow.fields.Integer(required=True, allow_none=True)
     text_log_0 = marshmallow.fields.Integer(required=True, allow_none=True)
     text_log_1 = marshmallow.fields.Integer(required=True, allow_none=True)
diff --git a/elgas/parameters/sum_of_alarms.py b/elgas/parameters/sum_of_alarms.py
index 4d4a1cc..d18fa1f 100644
--- a/elgas/parameters/sum_of_alarms.py
+++ b/elgas/parameters/sum_of_alarms.py
@@ -22,9 +22,9 @@ class SumOfAlarms:
     in_binary_archive: bool
     in_data_archive: bool
     name: str
-    error_bit_order_in_actual_values: int
-    error_bit_order_in_binary_archive_record: int  # TODO: Are these switch . Seems weird to have them in reverse order further down in the structure.
-    error_bit_order_in_data_archive_record: int
+    error_bit_order_in_actual_values: Optional[int]
+    error_bit_order_in_binary_archive_record: Optional[int]  # TODO: Are these switch . Seems weird to have them in reverse order further down in the structure.
+    error_bit_order_in_data_archive_record: Optional[int]
     action_during_change: Optional[int]
     text_log_0: Optional[str]
     text_log_1: Optional[str]
@@ -63,6 +63,10 @@ class SumOfAlarms:
             in_binary_archive=in_binary_archive,
             in_data_archive=in_data_archive,
             name=name,
+            # not part of the data of this object type
+            error_bit_order_in_actual_values=None,
+            error_bit_order_in_binary_archive_record=None,
+            error_bit_order_in_data_archive_record=None,
             action_during_change=action_during_change,
             text_log_0=text_log_0,
             text_log_1=text_log_1,
@@ -80,9 +84,15 @@ class SumOfAlarmsSchema(marshmallow.Schema):
     in_binary_archive = marshmallow.fields.Boolean(required=True)
     in_data_archive = marshmallow.fields.Boolean(required=True)
     name = marshmallow.fields.String(required=True)
-    error_bit_order_in_actual_values = marshmallow.fields.Integer(required=True)
-    error_bit_order_in_binary_archive_record = marshmallow.fields.Integer(required=True)
-    error_bit_order_in_data_archive_record = marshmallow.fields.Integer(required=True)
+    error_bit_order_in_actual_values = marshmallow.fields.Integer(
+        required=True, allow_none=True
+    )
+    error_bit_order_in_binary_archive_record = marshmallow.fields.Integer(
+        required=True, allow_none=True
+    )
+    error_bit_order_in_data_archive_record = marshmallow.fields.Integer(
+        required=True, allow_none=True
+    )
     action_during_change = marshmallow.fields.Integer(required=True, allow_none=True)
     text_log_0 = marshmallow.fields.String(required=True, allow_none=True)
     text_log_1 = marshmallow.fields.String(required=True, allow_none=True)
-- 
2.43.0


From 7f76239978b4c143dab3a2650beec6ef7b37cb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:57 +0000
Subject: [PATCH 13/20] fix: device error log texts are strings in the schema

They were declared as integers, so dumping a decoded object failed.
---
 elgas/parameters/device_error.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elgas/parameters/device_error.py b/elgas/parameters/device_error.py
index 3b02f06..2471da9 100644
--- a/elgas/parameters/device_error.py
+++ b/elgas/parameters/device_error.py
@@ -95,8 +95,8 @@ class DeviceErrorSchema(marshmallow.Schema):
         required=True, allow_none=True
     )
     action_during_change = marshmallow.fields.Integer(required=True, allow_none=True)
-    text_log_0 = marshmallow.fields.Integer(required=True, allow_none=True)
-    text_log_1 = marshmallow.fields.Integer(required=True, allow_none=True)
+    text_log_0 = marshmallow.fields.String(required=True, allow_none=True)
+    text_log_1 = marshmallow.fields.String(required=True, allow_none=True)
 
     @post_load
     def make_object(self, data, **kwargs):
-- 
2.43.0


From a4260d2c2f86f09c3185ac231b0fe8a05b471f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 14/20] fix: give DifferenceBaseCounter its attributes and
 decoder

The class had neither, so every object of type 73 failed to parse and to load.
---
 elgas/parameters/difference_counter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elgas/parameters/difference_counter.py b/elgas/parameters/difference_counter.py
index 3938125..df46928 100644
--- a/elgas/parameters/difference_counter.py
+++ b/elgas/parameters/difference_counter.py
@@ -83,7 +83,7 @@ class DifferenceCounter:
         )
 
 
-class DifferenceBaseCounter:
+class DifferenceBaseCounter(DifferenceCounter):
     object_type: ClassVar[
         ParameterObjectType
     ] = ParameterObjectType.DIFFERENCE_BASE_COUNTER
-- 
2.43.0


From 4735c99b05d3b243b5950d053b881b4fbe5325ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:59 +0000
Subject: [PATCH 15/20] fix: register the correction counter with its type
 number

Type 49 has a class and a schema, but the factories did not know them and any
parameter list holding one failed to parse.
---
 elgas/parameters/factory.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elgas/parameters/factory.py b/elgas/parameters/factory.py
index 6a86d73..6f456cf 100644
--- a/elgas/parameters/factory.py
+++ b/elgas/parameters/factory.py
@@ -33,6 +33,8 @@ from elgas.parameters.difference_counter import (
 from elgas.parameters.energy import Energy, EnergySchema, ErrorEnergy, ErrorEnergySchema
 from elgas.parameters.enumerations import ParameterObjectType
 from elgas.parameters.error_counter import (
+    CorrectionCounter,
+    CorrectionCounterSchema,
     DoubleErrorCounter,
     DoubleErrorCounterSchema,
     ErrorCounter,
@@ -95,6 +97,7 @@ class ParameterFactory:
         ParameterObjectType.ERROR_STANDARD_COUNTER: ErrorStandardCounter,
         ParameterObjectType.COMPRESSIBILITY: Compressibility,
         ParameterObjectType.TIME_WINDOW: TimeWindow,
+        ParameterObjectType.CORRECTION_COUNTER: CorrectionCounter,
         ParameterObjectType.DOUBLE_COUNTER: DoubleCounter,
         ParameterObjectType.DOUBLE_ERROR_COUNTER: DoubleErrorCounter,
         ParameterObjectType.DIAGNOSTICS: Diagnostics,
@@ -142,6 +145,7 @@ class ParameterSchemaFactory:
         ParameterObjectType.ERROR_STANDARD_COUNTER: ErrorStandardCounterSchema,
         ParameterObjectType.COMPRESSIBILITY: CompressibilitySchema,
         ParameterObjectType.TIME_WINDOW: TimeWindowSchema,
+        ParameterObjectType.CORRECTION_COUNTER: CorrectionCounterSchema,
         ParameterObjectType.DOUBLE_COUNTER: DoubleCounterSchema,
         ParameterObjectType.DOUBLE_ERROR_COUNTER: DoubleErrorCounterSchema,
         ParameterObjectType.DIAGNOSTICS: DiagnosticsSchema,
-- 
2.43.0


From 3b6f9384c9be31d46aac5b5a1a7c3571bba1e4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:00 +0000
Subject: [PATCH 16/20] fix: let the flow rate schema load objects without
 decimals

The attribute is optional and dumped as None, which the schema then refused.
---
 elgas/parameters/flow_rate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elgas/parameters/flow_rate.py b/elgas/parameters/flow_rate.py
index c227a4a..503e19f 100644
--- a/elgas/parameters/flow_rate.py
+++ b/elgas/parameters/flow_rate.py
@@ -98,7 +98,7 @@ class FlowRateSchema(marshmallow.Schema):
     error_bit_order_in_data_archive = marshmallow.fields.Integer(required=True)
     address_in_daily_archive_record = marshmallow.fields.Integer(required=True)
     address_in_monthly_archive_record = marshmallow.fields.Integer(required=True)
-    decimals = marshmallow.fields.Integer(required=True)
+    decimals = marshmallow.fields.Integer(required=True, allow_none=True)
 
     @post_load
     def make_object(self, data, **kwargs):
-- 
2.43.0


From b89af9bede6380e7485ee5bfb3eb0fbc9b71bb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 17/20] fix: load modem, set point and spare base counter
 objects

Their schemas had no post_load, so loading returned a dict instead of the
object.
---
 elgas/parameters/error_standard_counter.py | 5 +++++
 elgas/parameters/modem.py                  | 5 +++++
 elgas/parameters/setpoint.py               | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/elgas/parameters/error_standard_counter.py b/elgas/parameters/error_standard_counter.py
index 3609bbb..72a1df4 100644
--- a/elgas/parameters/error_standard_counter.py
+++ b/elgas/parameters/error_standard_counter.py
@@ -2,6 +2,7 @@ from typing import ClassVar, Optional
 
 import attr
 import marshmallow
+from marshmallow import post_load
 
 from elgas.parameters.enumerations import ParameterObjectType
 from elgas.utils import pop_many, pretty_text
@@ -98,3 +99,7 @@ class ErrorStandardCounterSchema(marshmallow.Schema):
     address_in_monthly_archive_record = marshmallow.fields.Integer(required=True)
     address_in_billing_archive_record = marshmallow.fields.Integer(required=True)
     decimals = marshmallow.fields.Integer(required=True, allow_none=True)
+
+    @post_load
+    def make_object(self, data, **kwargs):
+        return ErrorStandardCounter(**data)
diff --git a/elgas/parameters/modem.py b/elgas/parameters/modem.py
index ad12bb3..aa3041e 100644
--- a/elgas/parameters/modem.py
+++ b/elgas/parameters/modem.py
@@ -2,6 +2,7 @@ from typing import ClassVar, Optional
 
 import attr
 import marshmallow
+from marshmallow import post_load
 
 from elgas.parameters.enumerations import ParameterObjectType
 from elgas.utils import parse_ip_address, pop_many, pretty_text
@@ -116,3 +117,7 @@ class ModemSchema(marshmallow.Schema):
     transition_into_command_mode = marshmallow.fields.String(required=True)
     pin = marshmallow.fields.String(required=True)
     owner_sim_number = marshmallow.fields.String(required=True, allow_none=True)
+
+    @post_load
+    def make_object(self, data, **kwargs):
+        return Modem(**data)
diff --git a/elgas/parameters/setpoint.py b/elgas/parameters/setpoint.py
index 3bf8454..cce3f0a 100644
--- a/elgas/parameters/setpoint.py
+++ b/elgas/parameters/setpoint.py
@@ -3,6 +3,7 @@ from typing import ClassVar, Optional
 
 import attr
 import marshmallow
+from marshmallow import post_load
 
 from elgas.parameters.enumerations import ParameterObjectType
 from elgas.utils import pop_many, pretty_text
@@ -97,3 +98,7 @@ class SetPointSchema(marshmallow.Schema):
     action_during_change = marshmallow.fields.Integer(required=True, allow_none=True)
     text_log_0 = marshmallow.fields.String(required=True, allow_none=True)
     text_log_1 = marshmallow.fields.String(required=True, allow_none=True)
+
+    @post_load
+    def make_object(self, data, **kwargs):
+        return SetPoint(**data)
-- 
2.43.0


From d5330225fd2109422f6b642550467bfa0b6e09ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 18/20] fix: refuse parameter lists whose last object is cut
 off

The length prefix was not checked against the data, so a truncated object could
be decoded with its optional fields missing, and a length below three could
re-read or skip data.
---
 elgas/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elgas/parser.py b/elgas/parser.py
index 2c23eb5..c2fb1cb 100644
--- a/elgas/parser.py
+++ b/elgas/parser.py
@@ -34,6 +34,8 @@ class ScadaParameterParser:
             object_type = elgas.parameters.enumerations.ParameterObjectType(
                 working_data.pop(0)
             )
+            if length < 3 or length - 3 > len(working_data):
+                raise ValueError("Length of object does not correspond to its data")
             data = working_data[: length - 3]
             object_list.append(
                 elgas.parameters.factory.ParameterFactory.from_bytes(object_type, data)
-- 
2.43.0


From 1435cb37d83a3e1b9f126cdc1e2a6ce96be7dc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:21 +0000
Subject: [PATCH 19/20] fix: refuse passwords that do not fit the password
 field

A longer password gave a longer field and shifted everything after it in the
request. Requests that are used without a connection are not checked elsewhere.
---
 elgas/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elgas/utils.py b/elgas/utils.py
index adbd99b..00c83af 100644
--- a/elgas/utils.py
+++ b/elgas/utils.py
@@ -173,6 +173,8 @@ def pad_password(password: str):
     Passwords are 6 characters long. But are sent as 10 characters where the last
     4 characters are insignificant.
     """
+    if len(password) > 6:
+        raise ValueError("Passwords can be at most 6 characters long")
     possible_chars = "abcdefghijklmnopqrstuvxyzABCDEFGHIJKLMNOPQRSTUVXYZ0123456789"
     two_random = random.choices(possible_chars, k=2)
     # return password + "".join(four_random)
-- 
2.43.0


From cdcdcc6bc42f3d6d248ab760fd33767d9977ec94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:45 +0000
Subject: [PATCH 20/20] fix: start afresh when a client connects again

A failed operation (a read timeout, say) left its request outstanding for ever,
so that every later operation of the client was refused, even on a new link.
---
 elgas/client.py     | 2 ++
 elgas/connection.py | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/elgas/client.py b/elgas/client.py
index 5db6480..d9406bb 100644
--- a/elgas/client.py
+++ b/elgas/client.py
@@ -39,6 +39,8 @@ class ElgasClient:
 
     def connect(self):
         self.transport.connect()
+        # What was outstanding on an earlier link will never be answered on this one.
+        self.elgas_connection.reset()
 
     def disconnect(self):
         self.transport.disconnect()
diff --git a/elgas/connection.py b/elgas/connection.py
index 8ae472d..a349b2f 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -105,6 +105,13 @@ class ElgasConnection:
         default=attr.Factory(lambda self: create_cipher_context(self), takes_self=True)
     )
 
+    def reset(self):
+        """
+        Forget the outstanding request and all data that has been received.
+        """
+        self.buffer = bytearray()
+        self.elgas_state.current_state = state.IDLE
+
     def send(self, event) -> bytes:
 
         LOG.debug("Sending request PDU", pdu=event)
-- 
2.43.0

