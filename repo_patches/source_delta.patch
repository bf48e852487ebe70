From e1c21e61cfd09a217109d7c332cc7d9e8bd19238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:32 +0000
Subject: [PATCH 01/19] fix: keep conn_id of a received StartSessionResponse

conn_id was set before the slots were loaded, and slots which are already
set are not loaded, so every deserialized message had conn_id=None.
---
 golem_messages/message/tasks.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/golem_messages/message/tasks.py b/golem_messages/message/tasks.py
index 7ddc479..183b83b 100644
--- a/golem_messages/message/tasks.py
+++ b/golem_messages/message/tasks.py
@@ -723,8 +723,7 @@ class StartSessionResponse(base.Message):
            an answer for a request to start task session
         :param uuid conn_id: connection id for reference
         """
-        self.conn_id = conn_id
-        super().__init__(**kwargs)
+        super().__init__(conn_id=conn_id, **kwargs)
 
 
 @library.register(TASK_MSG_BASE + 26)
-- 
2.43.0


From 9337a037d03bce7fac2e84e1dba6e090b336ddf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:32 +0000
Subject: [PATCH 02/19] fix: report malformed promissory note signatures with
 TypeError

NamedTuple._field_types is gone since Python 3.9, so the error path itself
failed with AttributeError.
---
 golem_messages/datastructures/promissory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golem_messages/datastructures/promissory.py b/golem_messages/datastructures/promissory.py
index 1fd792b..c7c88ab 100644
--- a/golem_messages/datastructures/promissory.py
+++ b/golem_messages/datastructures/promissory.py
@@ -96,7 +96,7 @@ class PromissoryNote:
                 "The provided promissory note sig: `{}` has wrong type. "
                 "Must be a tuple with format: {}".format(
                     promissory_note_sig,
-                    PromissoryNoteSig._field_types,  # noqa pylint: disable=protected-access
+                    PromissoryNoteSig.__annotations__,
                 )
             ) from e
 
-- 
2.43.0


From 4da7e093af3c98ab5d073d9f53f6680a0d11728f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:32 +0000
Subject: [PATCH 03/19] fix: reject invalid FileInfo categories with FieldError

`value in EnumClass` raises TypeError for non-members since Python 3.8.
---
 golem_messages/message/concents.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golem_messages/message/concents.py b/golem_messages/message/concents.py
index e198544..5b56693 100644
--- a/golem_messages/message/concents.py
+++ b/golem_messages/message/concents.py
@@ -169,7 +169,7 @@ class FileTransferToken(base.Message):
         }
 
         def validate_category(self, value):
-            if value not in self.Category:
+            if not isinstance(value, self.Category):
                 raise exceptions.FieldError(
                     "`category` must be one of %s, got: " % [
                         c for c in self.Category],
-- 
2.43.0


From e9dbe0003d345f7f465ab672619638fae4e1f16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:32 +0000
Subject: [PATCH 04/19] fix: accept port 65535

It is a valid port, within the range which the error message names, and
Peer factory generates it.
---
 golem_messages/validators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golem_messages/validators.py b/golem_messages/validators.py
index 58129dc..72e414c 100644
--- a/golem_messages/validators.py
+++ b/golem_messages/validators.py
@@ -53,7 +53,7 @@ def validate_positive_integer(field_name, value):
 
 def validate_port(field_name, value):
     validate_integer(field_name, value)
-    if not 0 < value < (2**16-1):
+    if not 0 < value <= (2**16-1):
         raise exceptions.FieldError(
             "Port not in range 1, 2**16-1",
             field=field_name,
-- 
2.43.0


From 38086fb5fe2f51f7f6e3f41db0e0914cf5a9ef07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:32 +0000
Subject: [PATCH 05/19] fix: reject undefined reason for requestor with
 ValidationError

SubtaskResultsRejected.is_valid_for_requestor() failed with AttributeError
when there was no reason at all.
---
 golem_messages/message/tasks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golem_messages/message/tasks.py b/golem_messages/message/tasks.py
index 183b83b..73bdf01 100644
--- a/golem_messages/message/tasks.py
+++ b/golem_messages/message/tasks.py
@@ -681,7 +681,7 @@ class SubtaskResultsRejected(TaskMessage, base.AbstractReasonMessage):
 
         if self.reason not in allowed_reasons:
             raise exceptions.ValidationError(
-                f"{self.reason.value} is not allowed for a Requestor "
+                f"{self.reason} is not allowed for a Requestor "
                 f"when concent_enabled={concent}."
             )
 
-- 
2.43.0


From 0f1e224618cd80d26793110bf80c4e589c179197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:32 +0000
Subject: [PATCH 06/19] fix: encode_hex() of empty value

b[0] fails for an empty value. The check was comparing int with bytes
so it had no effect otherwise; stripping would also be wrong, since
a key may well begin with these two bytes.
---
 golem_messages/utils.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/golem_messages/utils.py b/golem_messages/utils.py
index 2e867d1..6c1e493 100644
--- a/golem_messages/utils.py
+++ b/golem_messages/utils.py
@@ -22,8 +22,6 @@ def encode_hex(b):
     if isinstance(b, str):
         b = bytes(b, 'utf-8')
     if isinstance(b, (bytes, bytearray)):
-        if b[0] == b'0' and b[1] == b'x':
-            b = b[2:]
         return str(binascii.hexlify(b), 'utf-8')
     raise TypeError('Value must be an instance of str or bytes')
 
-- 
2.43.0


From 4c4a09aa8a7757c74c1c8c2b31aa04f1c6fabfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:29 +0000
Subject: [PATCH 07/19] fix: rotate ephemeral keys of frequently used
 recipients

The timeout was checked only on a cache miss, so as long as all the
recipients were already cached their ephemeral keys never expired.
---
 golem_messages/cryptography.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/golem_messages/cryptography.py b/golem_messages/cryptography.py
index 20f3152..1d07428 100644
--- a/golem_messages/cryptography.py
+++ b/golem_messages/cryptography.py
@@ -254,7 +254,6 @@ class ECIESKeyManager:
 
         return enc_key, mac_key
 
-    @lru_cache(maxsize=1024)
     def get_ephem_key(self, raw_pubkey: bytes) -> Tuple[bytes, bytes, bytes]:
         """
         Get ephemeral elliptic curve key and derived keys for encryption and
@@ -266,9 +265,14 @@ class ECIESKeyManager:
             - public key with leading '\x04' byte (65 bytes)
         """
         if self.last_cleanup_time < time.time() - self.timeout:
-            ECIESKeyManager.get_ephem_key.cache_clear()
+            ECIESKeyManager._generate_ephem_key.cache_clear()
             self.last_cleanup_time = time.time()
 
+        return self._generate_ephem_key(raw_pubkey)
+
+    @lru_cache(maxsize=1024)
+    def _generate_ephem_key(
+            self, raw_pubkey: bytes) -> Tuple[bytes, bytes, bytes]:
         ephem = HashablePrivateKey()
         ephem_raw_pubkey = ephem.public_key.format(compressed=False)
         pubkey = PublicKey(b'\x04' + raw_pubkey)
-- 
2.43.0


From 10b42e54eb1bb4be666894481e5592af3da54d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:29 +0000
Subject: [PATCH 08/19] fix: accept stats objects in ProviderStats

Validators allow both dicts and instances of the proper class, but then
unpacking of an instance failed with MessageError.
---
 golem_messages/datastructures/stats.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/golem_messages/datastructures/stats.py b/golem_messages/datastructures/stats.py
index 7cb6001..8c639cc 100644
--- a/golem_messages/datastructures/stats.py
+++ b/golem_messages/datastructures/stats.py
@@ -179,18 +179,26 @@ class ProviderStats(datastructures.Container):
 
     @classmethod
     def deserialize_blkio_stats(cls, value: dict) -> Optional[BlockIoStats]:
+        if isinstance(value, BlockIoStats):
+            return value
         return BlockIoStats(**value) if value else None
 
     @classmethod
     def deserialize_cpu_stats(cls, value: dict) -> Optional[CpuStats]:
+        if isinstance(value, CpuStats):
+            return value
         return CpuStats(**value) if value else None
 
     @classmethod
     def deserialize_memory_stats(cls, value: dict) -> Optional[MemoryStats]:
+        if isinstance(value, MemoryStats):
+            return value
         return MemoryStats(**value) if value else None
 
     @classmethod
     def deserialize_pids_stats(cls, value: dict) -> Optional[PidStats]:
+        if isinstance(value, PidStats):
+            return value
         return PidStats(**value) if value else None
 
     @classmethod
-- 
2.43.0


From 1b2e8ef8dff9dca4d2790e608b302212836a170b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:29 +0000
Subject: [PATCH 09/19] fix: don't bypass key checks and validators in dict
 updates

update(), setdefault() and |= didn't use __setitem__, so FrozenDict accepted
unknown keys and ValidatingDict accepted invalid values.
---
 golem_messages/datastructures/__init__.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/golem_messages/datastructures/__init__.py b/golem_messages/datastructures/__init__.py
index aa2a811..c317802 100644
--- a/golem_messages/datastructures/__init__.py
+++ b/golem_messages/datastructures/__init__.py
@@ -24,6 +24,18 @@ class SetItemDict(dict):
 
     def __init__(self, *args, **kwargs):
         super().__init__()
+        self.update(*args, **kwargs)
+
+    def __ior__(self, other):
+        self.update(other)
+        return self
+
+    def setdefault(self, key, default=None):
+        if key not in self:
+            self[key] = default
+        return self[key]
+
+    def update(self, *args, **kwargs):
         if args:
             if isinstance(args[0], dict):
                 for key, value in args[0].items():
-- 
2.43.0


From 994d74848dd693492e178b141e627536c415a30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:29 +0000
Subject: [PATCH 10/19] fix: raise MessageError for every malformed message

Validation performed after loading of slots (ownership of ethereum address,
task ids, payment timestamps...) assumes that fields of a received message
are present and have proper types. Otherwise TypeError, AttributeError,
binascii.Error and others were raised to the caller of load().
---
 golem_messages/message/base.py | 1481 ++++++++++++++++----------------
 1 file changed, 743 insertions(+), 738 deletions(-)

diff --git a/golem_messages/message/base.py b/golem_messages/message/base.py
index e939d2b..a4893a6 100644
--- a/golem_messages/message/base.py
+++ b/golem_messages/message/base.py
@@ -1,738 +1,743 @@
-import calendar
-import collections
-import datetime
-import enum
-import hashlib
-import importlib
-import logging
-import struct
-import time
-import warnings
-import typing
-
-import semantic_version
-
-import golem_messages
-
-from golem_messages import cryptography
-from golem_messages import datastructures
-from golem_messages import exceptions
-from golem_messages import serializer
-from golem_messages import settings
-from golem_messages.datastructures import p2p as dt_p2p
-from golem_messages.register import library
-
-logger = logging.getLogger('golem.network.transport.message')
-
-
-def verify_time(timestamp):
-    """ Verify message timestamp. If message is to old or has timestamp from
-    distant future raise TimestampError.
-
-    NOTE: This method deliberately ignores microseconds - precision=1s
-    """
-    now = datetime.datetime.utcnow()
-    try:
-        msgdt = datetime.datetime.utcfromtimestamp(timestamp)
-    except (TypeError, OSError, OverflowError, ValueError) as e:
-        logger.debug('Error parsing timestamp: %r', timestamp, exc_info=True)
-        raise exceptions.TimestampError(str(e))
-    delta = now - msgdt
-    delta_future = msgdt - now
-    logger.debug('msgdt %s Δ %s Δfuture %s', msgdt, delta, delta_future)
-    if delta > settings.MSG_TTL:
-        raise exceptions.MessageTooOldError(
-            "delta {} > {}".format(delta, settings.MSG_TTL),
-        )
-    if delta_future > settings.FUTURE_TIME_TOLERANCE:
-        raise exceptions.MessageFromFutureError(
-            "delta_future {} > {}".format(
-                delta_future,
-                settings.FUTURE_TIME_TOLERANCE
-            ),
-        )
-
-
-def verify_version(msg_version):
-    try:
-        theirs_v = semantic_version.Version(msg_version)
-    except ValueError as e:
-        raise exceptions.VersionMismatchError(
-            "Invalid version received: {msg_version}".format(
-                msg_version=msg_version,
-            )
-        ) from e
-    ours_v = semantic_version.Version(golem_messages.__version__)
-    spec_str = '>={major}.{minor}.0,<{next_minor}'.format(
-        major=ours_v.major,
-        minor=ours_v.minor,
-        next_minor=ours_v.next_minor(),
-    )
-    spec = semantic_version.Spec(spec_str)
-    if theirs_v not in spec:
-        raise exceptions.VersionMismatchError(
-            "Incompatible version received:"
-            " {ours} (ours) != {theirs} (theirs)".format(
-                ours=ours_v,
-                theirs=theirs_v,
-            )
-        )
-
-
-class Message:
-    """ Communication message that is sent in all networks """
-
-    __slots__ = ['header', 'sig']
-
-    HDR_FORMAT = '!HQ?'
-    HDR_LEN = struct.calcsize(HDR_FORMAT)
-    SIG_LEN = 65
-
-    ENCRYPT = True
-    SIGN = True
-    ENUM_SLOTS = {}
-    MSG_SLOTS = {}
-
-    def __init__(self,
-                 header: datastructures.MessageHeader = None,
-                 sig=None,
-                 slots=None,
-                 deserialized=False,
-                 **kwargs):
-
-        """Create a new message
-        :param deserialized: was message created by .deserialize()?
-        """
-
-        # Child message slots
-        try:
-            self.load_slots(slots)
-        except exceptions.FieldError:
-            raise
-        except Exception as e:
-            raise exceptions.MessageError('Load slots failed') from e
-
-        # Set attributes
-        for key in kwargs:
-            if getattr(self, key, None) is None:
-                try:
-                    setattr(self, key, kwargs[key])
-                except AttributeError:
-                    raise AttributeError(
-                        "Can't set attribute `%s` on `%s`" % (
-                            key, self.__class__.__name__))
-
-        if deserialized and not (header and header.timestamp):
-            warnings.warn(
-                'Message without header {}'.format(self),
-                RuntimeWarning
-            )
-
-        # Header
-        if header is None:
-            header = datastructures.MessageHeader(
-                self._type,
-                # On AppVeyorCI time.time() returns unreliable values thus
-                # we use calendar.timegm() instead of time.time() to unify it.
-                calendar.timegm(time.gmtime()),
-                False,
-            )
-        self.header = header
-        self.sig = sig
-
-    def __eq__(self, obj):
-        """
-        for the equality check, we're concerned with the message type,
-        timestamp, and most importantly its content and signature
-
-        we're specifically ignoring the `encrypted` flag as it doesn't
-        pertain to the message's content but rather to its mode of transport
-        """
-
-        return (
-            self.__class__ is obj.__class__
-            and self.header.type_ == obj.header.type_
-            and self.timestamp == obj.timestamp
-            and self.sig == obj.sig
-            and self.slots() == obj.slots()
-        )
-
-    def __repr__(self):
-        try:
-            slots_ = self.slots()
-        except exceptions.FieldError:
-            slots_ = '<unserializable>'
-        template = "{name!r}(header={header!r}, sig={sig!r}, slots={slots!r})"
-        return template.format(
-            name=self.__class__.__name__,
-            header=getattr(self, 'header', None),
-            sig=getattr(self, 'sig', None),
-            slots=slots_,
-        )
-
-    @property
-    def _type(self):
-        return library.get_type(self.__class__)
-
-    @property
-    def timestamp(self):
-        return self.header.timestamp
-
-    @property
-    def encrypted(self):
-        return self.header.encrypted
-
-    @encrypted.setter
-    def encrypted(self, value):
-        self.header = datastructures.MessageHeader(
-            self.header.type_,
-            self.header.timestamp,
-            value,
-        )
-
-    def get_short_hash(self, payload=None) -> bytes:
-        """Return short message representation for signature
-        :return bytes: sha1(TYPE, timestamp, payload)
-        """
-        if payload is None:
-            payload = serializer.dumps(self.slots())
-        sha = hashlib.sha1()
-
-        # We can't use self.serialize_header() because it includes
-        # self.encrypted. And nested messages are decrypted, but they
-        # still need to have a valid signature.
-        # SEE: test_serializer.MessageTestCase.test_message_sig()
-        hash_header = serializer.dumps(
-            [self.header.type_, self.timestamp, ]
-        )
-        sha.update(hash_header)
-        sha.update(payload or b'')
-        return sha.digest()
-
-    def serialize(
-            self,
-            sign_as: typing.Optional[bytes] = None,
-            encrypt_func=None,
-    ) -> bytes:
-        """Returns serialized message"""
-
-        if sign_as and self.sig:
-            # If you wish to overwrite signature,
-            # first set it to None explicitly
-            raise exceptions.SignatureAlreadyExists()
-
-        self.encrypted = bool(self.ENCRYPT and encrypt_func)
-        payload = serializer.dumps(self.slots())
-
-        # When nesting one message inside another it's important
-        # not to overwrite original signature.
-        if self.sig is None:
-            if sign_as and self.SIGN:
-                self.sign_message(
-                    private_key=sign_as,
-                    msg_hash=self.get_short_hash(payload)
-                )
-            else:
-                self._fake_sign()
-
-        if self.encrypted:
-            payload = encrypt_func(payload)
-
-        return (
-            self.serialize_header() +
-            self.sig +
-            payload
-        )
-
-    def serialize_header(self):
-        """ Serialize message's header
-        H unsigned short (2 bytes) big-endian
-        Q unsigned long long (8 bytes) big-endian
-        ? bool (1 byte)
-
-        11 bytes in total
-
-        :return: serialized header
-        """
-        return struct.pack(
-            self.HDR_FORMAT,
-            self._type,
-            self.timestamp,
-            self.encrypted,
-        )
-
-    def serialize_slot(self, key, value):
-        if isinstance(value, enum.Enum):
-            return value.value
-        if key in self.MSG_SLOTS:
-            return self.serialize_message(key, value)
-        return value
-
-    def serialize_message(self, key, value):
-        slot_definition: MessageSlotDefinition = self.MSG_SLOTS[key]
-        if value is None:
-            if not slot_definition.allow_none:
-                raise exceptions.FieldError(
-                    "Disallowed None for message slot",
-                    field=key,
-                    value=value,
-                )
-            return False, None
-
-        if not isinstance(value, list):
-            return False, self.serialize_message_single(key, value)
-        return True, [self.serialize_message_single(key, msg) for msg in value]
-
-    def serialize_message_single(self, key, value):
-        slot_definition = self.MSG_SLOTS[key]
-        if not isinstance(value, slot_definition.get_class()):
-            raise exceptions.FieldError(
-                "Should be instance of {}".format(slot_definition.klass),
-                field=key,
-                value=value,
-            )
-        return value.header, value.sig, value.slots()
-
-    def deserialize_slot(self, key, value):
-        if (key in self.ENUM_SLOTS) and (value is not None):
-            try:
-                return self.ENUM_SLOTS[key](value)
-            except ValueError as e:
-                raise exceptions.FieldError(
-                    "Invalid value for enum slot",
-                    field=key,
-                    value=value,
-                ) from e
-        if key in self.MSG_SLOTS:
-            return self.deserialize_message(key, value)
-        return value
-
-    def deserialize_message(self, key, value):
-        slot_definition: MessageSlotDefinition = self.MSG_SLOTS[key]
-        try:
-            is_list, value = value
-        except (TypeError, ValueError):
-            raise exceptions.FieldError(
-                "Invalid nested message format",
-                field=key,
-                value=value,
-            )
-
-        if value and (is_list != slot_definition.is_list):
-            raise exceptions.FieldError(
-                "Invalid nested message format (is_list: {})".format(
-                    slot_definition.is_list,
-                ),
-                field=key,
-                value=value,
-            )
-        if value and is_list:
-            if not isinstance(value, list):
-                raise exceptions.FieldError(
-                    "Should be List[{}]".format(slot_definition.klass),
-                    field=key,
-                    value=value,
-                )
-            result = [
-                self.deserialize_message_single(key, serialized_msg)
-                for serialized_msg
-                in value
-            ]
-            return result
-
-        return self.deserialize_message_single(key, value)
-
-    def deserialize_message_single(self, key, value):
-        slot_definition: MessageSlotDefinition = self.MSG_SLOTS[key]
-        if value is None:
-            if not slot_definition.allow_none:
-                raise exceptions.FieldError(
-                    "Disallowed None for message slot",
-                    field=key,
-                    value=value,
-                )
-            return None
-        try:
-            nested = datastructures.NestedMessage(*value)
-        except TypeError:
-            raise exceptions.FieldError(
-                "Invalid nested message format",
-                field=key,
-                value=value,
-            )
-        try:
-            result = slot_definition.get_class()(
-                header=datastructures.MessageHeader(*nested.header),
-                sig=nested.sig,
-                slots=nested.slots,
-            )
-        except exceptions.FieldError:
-            raise
-        except Exception as e:
-            raise exceptions.FieldError(
-                "Invalid value for message slot",
-                field=key,
-                value=value,
-            ) from e
-        return result
-
-    @classmethod
-    def unpack_header(cls, data: bytes) -> datastructures.MessageHeader:
-        """Unpack message's header"""
-        try:
-            header = datastructures.MessageHeader(
-                *struct.unpack(cls.HDR_FORMAT, data),
-            )
-        except (struct.error, TypeError) as e:
-            raise exceptions.HeaderError() from e
-        return header
-
-    @classmethod
-    def deserialize_header(cls, data):
-        """ Deserialize message's header
-
-        :param data: bytes
-        :return: datastructures.MessageHeader
-        """
-
-        header = cls.unpack_header(data)
-        logger.debug("deserialize_header(): %r", header)
-        if not settings.MIN_TIMESTAMP < header.timestamp < \
-                settings.MAX_TIMESTAMP:
-            raise exceptions.HeaderError(
-                "Invalid timestamp {got}. Should be between {min_} and {max_}"
-                .format(
-                    got=header.timestamp,
-                    min_=settings.MIN_TIMESTAMP,
-                    max_=settings.MAX_TIMESTAMP,
-                )
-            )
-
-        if header.type_ not in library:
-            raise exceptions.HeaderError(
-                "Unknown message type {got}".format(got=header.type_),
-            )
-        return header
-
-    @classmethod
-    def deserialize(cls, msg,
-                    decrypt_func,
-                    check_time=True,
-                    sender_public_key: typing.Optional[bytes] = None):
-        """
-        Deserialize single message
-        :param str msg: serialized message
-        :param bool check_time: whether the message's timestamp
-                                should be validated
-        :param function(data) decrypt_func: decryption function
-        :param bytes sender_public_key: if specified, sender's public key
-                                against which the signature is verified
-        :return Message|None: deserialized message or none if this message
-                              type is unknown
-        """
-
-        if not msg or len(msg) <= cls.HDR_LEN + cls.SIG_LEN:
-            raise exceptions.MessageError("Message too short")
-
-        raw_header = msg[:cls.HDR_LEN]
-        data = msg[cls.HDR_LEN:]
-
-        header = cls.deserialize_header(raw_header)
-        if check_time:
-            verify_time(header.timestamp)
-
-        class_ = library[header.type_]
-        logger.debug('Deserialization class found. class=%r', class_)
-        return class_.deserialize_with_header(
-            header,
-            data,
-            decrypt_func,
-            sender_public_key=sender_public_key,
-        )
-
-    @classmethod
-    def deserialize_with_header(
-            cls, header, data,
-            decrypt_func, sender_public_key: typing.Optional[bytes] = None,
-            **kwargs):
-        sig = data[:cls.SIG_LEN]
-        payload = data[cls.SIG_LEN:]
-
-        if header.encrypted:
-            try:
-                payload = decrypt_func(payload)
-                logger.debug("Decrypted. payload=%r", payload)
-            except exceptions.MessageError:
-                raise
-            except Exception as e:
-                raise exceptions.DecryptionError(
-                    "Unknown decryption problem"
-                ) from e
-        slots = serializer.loads(payload)
-
-        instance = cls(
-            header=header,
-            sig=sig,
-            slots=slots,
-            deserialized=True,
-            **kwargs,
-        )
-
-        if sender_public_key and cls.SIGN:
-            instance.verify_signature(
-                sender_public_key, msg_hash=instance.get_short_hash(payload))
-        return instance
-
-    def load_slots(self, slots):
-        try:
-            slots_dict = dict(slots)
-        except (TypeError, ValueError):
-            slots_dict = {}
-
-        for name in self.__slots__:
-            if hasattr(self, name):
-                continue
-            if not self.valid_slot(name):
-                continue
-
-            try:
-                value = slots_dict[name]
-            except KeyError:
-                value = None
-            else:
-                value = self.deserialize_slot(name, value)
-            setattr(self, name, value)
-
-    def slots(self):
-        """Returns a list representation of any subclass message"""
-        processed_slots = []
-        for key in self.__slots__:
-            if not self.valid_slot(key):
-                continue
-            value = getattr(self, key, None)
-            value = self.serialize_slot(key, value)
-            processed_slots.append([key, value])
-        return processed_slots
-
-    def valid_slot(self, name):
-        return (not name.startswith('_')) \
-            and (name not in Message.__slots__) \
-            and (name in self.__slots__)
-
-    def _verify_signature(
-            self, signature: bytes, public_key: bytes,
-            msg_hash: typing.Optional[bytes] = None
-    ) -> bool:
-        """
-        Verify a signature against the provided public key and message hash.
-
-        :param public_key: the public key of the expected signer
-        :param msg_hash: if provided, a call to `get_short_hash()`
-                         will be skipped and the provided hash used instead
-        :return: `True` if the signature is correct.
-        :raises: `exceptions.InvalidSignature` if the signature is corrupted
-        """
-        return cryptography.ecdsa_verify(
-            pubkey=public_key,
-            signature=signature,
-            message=msg_hash or self.get_short_hash()
-        )
-
-    def verify_signature(
-            self,
-            public_key: bytes,
-            msg_hash: typing.Optional[bytes] = None
-    ) -> bool:
-        """
-        Verify the message's signature using the provided public key.
-        Ensures that the message's content is intact and that it has been
-        indeed signed by the expected party.
-
-        :param public_key: the public key of the expected sender
-        :param msg_hash: maybe optionally provided to skip generation
-                         of the message hash during the verification
-        :return: `True` if the signature is correct.
-        :raises: `exceptions.InvalidSignature` if the signature is corrupted
-        """
-        return self._verify_signature(self.sig, public_key, msg_hash)
-
-    def _get_signature(
-            self,
-            private_key: bytes,
-            msg_hash: typing.Optional[bytes] = None
-    ) -> bytes:
-        """
-        Calculate message signature using the provided private key.
-
-        :param private_key: th private key used to generate the signature
-        :param msg_hash: if given, a call to `get_short_hash()`
-                         will be skipped and the provided hash used instead
-        """
-        return cryptography.ecdsa_sign(
-            privkey=private_key,
-            msghash=msg_hash or self.get_short_hash()
-        )
-
-    def sign_message(
-            self,
-            private_key: bytes,
-            msg_hash: typing.Optional[bytes] = None
-    ) -> None:
-        """
-        Calculate and set message signature using the provided private key.
-
-        :param private_key: sender's private key
-        :param msg_hash: may be optionally provided to skip generation
-                         of the message hash while signing
-        """
-        self.sig = self._get_signature(private_key, msg_hash)
-
-    def _fake_sign(self):
-        self.sig = b'\0' * Message.SIG_LEN
-
-
-class MessageSlotDefinition(collections.namedtuple(
-        "MessageSlotDefinition", ["klass", "allow_none", "is_list"])):
-    """
-    defines a slot that needs to be an instance of the specified Message class
-
-    to alleviate issues resulting from potential circular imports among
-    messages, `klass` can be specified as a dot-separated module path
-    to the message class in question
-    """
-
-    def __new__(cls, klass, allow_none=False, is_list=False):
-        return super().__new__(
-            cls, klass, allow_none=allow_none, is_list=is_list
-        )
-
-    def get_class(self):
-        if isinstance(self.klass, str):
-            m, c = self.klass.rsplit('.', 1)
-            module = importlib.import_module(m)
-            return getattr(module, c)
-        return self.klass
-
-
-class AbstractReasonMessage(Message):
-    __slots__ = [
-        'reason',
-    ] + Message.__slots__
-
-    @property
-    def ENUM_SLOTS(self):
-        return {
-            'reason': self.REASON,
-        }
-
-
-##################
-# Basic Messages #
-##################
-
-
-@library.register(0)
-class Hello(dt_p2p.NodeSlotMixin, Message):
-    ENCRYPT = False
-    VERSION_FORMAT = '!32p'
-    VERSION_LENGTH = struct.calcsize(VERSION_FORMAT)
-    NODE_SLOTS = (
-        'node_info',
-    )
-
-    __slots__ = [
-        'rand_val',
-        'proto_id',
-        'node_info',
-        'port',
-        'client_ver',
-        'solve_challenge',
-        'challenge',
-        'difficulty',
-        'metadata',
-        '_version',
-    ] + Message.__slots__
-
-    @classmethod
-    def deserialize_with_header(cls, header, data, *args, **kwargs):  # noqa pylint: disable=arguments-differ
-        raw_version = data[-cls.VERSION_LENGTH:]
-        data = data[:-cls.VERSION_LENGTH]
-        try:
-            str_version = struct.unpack(cls.VERSION_FORMAT, raw_version)[0] \
-                .decode('ascii', 'replace')
-        except struct.error as e:
-            raise exceptions.VersionMismatchError(
-                "Unreadable version {raw_version}".format(
-                    raw_version=raw_version,
-                )
-            ) from e
-        verify_version(str_version)
-        instance = super().deserialize_with_header(
-            header,
-            data,
-            _version=str_version,
-            *args,
-            **kwargs,
-        )
-        return instance
-
-    def serialize(self, *args, **kwargs):  # pylint: disable=arguments-differ
-        serialized = super().serialize(*args, **kwargs)
-        version = struct.pack(
-            self.VERSION_FORMAT,
-            self._version.encode('ascii', 'replace')
-        )
-        return serialized + version
-
-    def get_short_hash(self, *args, **kwargs):  # noqa pylint: disable=arguments-differ
-        return super().get_short_hash(*args, **kwargs) \
-            + self._version.encode('ascii', 'replace')
-
-    def __init__(self, **kwargs):
-        super().__init__(**kwargs)
-        deserialized = kwargs.pop('deserialized', False)
-        if not deserialized and not hasattr(self, '_version'):
-            self._version = golem_messages.__version__
-
-    def __repr__(self):
-        return "<{} _version:{}>".format(
-            super().__repr__(),
-            getattr(self, '_version', '<undefined>'),
-        )
-
-    def __eq__(self, obj):
-        if not self._version == getattr(obj, '_version', None):
-            return False
-        return super().__eq__(obj)
-
-
-@library.register(1)
-class RandVal(Message):
-    """Message with signed random value"""
-    __slots__ = ['rand_val'] + Message.__slots__
-
-
-@library.register(2)
-class Disconnect(AbstractReasonMessage):
-    ENCRYPT = False
-
-    __slots__ = AbstractReasonMessage.__slots__
-
-    class REASON(enum.Enum):
-        DuplicatePeers = 'duplicate_peers'
-        TooManyPeers = 'too_many_peers'
-        Refresh = 'refresh'
-        Unverified = 'unverified'
-        ProtocolVersion = 'protocol_version'
-        BadProtocol = 'bad_protocol'
-        Timeout = 'timeout'
-        NoMoreMessages = 'no_more_messages'
-        WrongEncryption = 'wrong_encryption'
-        ResourceHandshakeFailure = 'resource_handshake'
-        KeyNotDifficult = 'key_not_difficult'
-        Bootstrap = 'bootstrap'
-
-
-@library.register(3)
-class ChallengeSolution(Message):
-    __slots__ = ['solution'] + Message.__slots__
+import calendar
+import collections
+import datetime
+import enum
+import hashlib
+import importlib
+import logging
+import struct
+import time
+import warnings
+import typing
+
+import semantic_version
+
+import golem_messages
+
+from golem_messages import cryptography
+from golem_messages import datastructures
+from golem_messages import exceptions
+from golem_messages import serializer
+from golem_messages import settings
+from golem_messages.datastructures import p2p as dt_p2p
+from golem_messages.register import library
+
+logger = logging.getLogger('golem.network.transport.message')
+
+
+def verify_time(timestamp):
+    """ Verify message timestamp. If message is to old or has timestamp from
+    distant future raise TimestampError.
+
+    NOTE: This method deliberately ignores microseconds - precision=1s
+    """
+    now = datetime.datetime.utcnow()
+    try:
+        msgdt = datetime.datetime.utcfromtimestamp(timestamp)
+    except (TypeError, OSError, OverflowError, ValueError) as e:
+        logger.debug('Error parsing timestamp: %r', timestamp, exc_info=True)
+        raise exceptions.TimestampError(str(e))
+    delta = now - msgdt
+    delta_future = msgdt - now
+    logger.debug('msgdt %s Δ %s Δfuture %s', msgdt, delta, delta_future)
+    if delta > settings.MSG_TTL:
+        raise exceptions.MessageTooOldError(
+            "delta {} > {}".format(delta, settings.MSG_TTL),
+        )
+    if delta_future > settings.FUTURE_TIME_TOLERANCE:
+        raise exceptions.MessageFromFutureError(
+            "delta_future {} > {}".format(
+                delta_future,
+                settings.FUTURE_TIME_TOLERANCE
+            ),
+        )
+
+
+def verify_version(msg_version):
+    try:
+        theirs_v = semantic_version.Version(msg_version)
+    except ValueError as e:
+        raise exceptions.VersionMismatchError(
+            "Invalid version received: {msg_version}".format(
+                msg_version=msg_version,
+            )
+        ) from e
+    ours_v = semantic_version.Version(golem_messages.__version__)
+    spec_str = '>={major}.{minor}.0,<{next_minor}'.format(
+        major=ours_v.major,
+        minor=ours_v.minor,
+        next_minor=ours_v.next_minor(),
+    )
+    spec = semantic_version.Spec(spec_str)
+    if theirs_v not in spec:
+        raise exceptions.VersionMismatchError(
+            "Incompatible version received:"
+            " {ours} (ours) != {theirs} (theirs)".format(
+                ours=ours_v,
+                theirs=theirs_v,
+            )
+        )
+
+
+class Message:
+    """ Communication message that is sent in all networks """
+
+    __slots__ = ['header', 'sig']
+
+    HDR_FORMAT = '!HQ?'
+    HDR_LEN = struct.calcsize(HDR_FORMAT)
+    SIG_LEN = 65
+
+    ENCRYPT = True
+    SIGN = True
+    ENUM_SLOTS = {}
+    MSG_SLOTS = {}
+
+    def __init__(self,
+                 header: datastructures.MessageHeader = None,
+                 sig=None,
+                 slots=None,
+                 deserialized=False,
+                 **kwargs):
+
+        """Create a new message
+        :param deserialized: was message created by .deserialize()?
+        """
+
+        # Child message slots
+        try:
+            self.load_slots(slots)
+        except exceptions.FieldError:
+            raise
+        except Exception as e:
+            raise exceptions.MessageError('Load slots failed') from e
+
+        # Set attributes
+        for key in kwargs:
+            if getattr(self, key, None) is None:
+                try:
+                    setattr(self, key, kwargs[key])
+                except AttributeError:
+                    raise AttributeError(
+                        "Can't set attribute `%s` on `%s`" % (
+                            key, self.__class__.__name__))
+
+        if deserialized and not (header and header.timestamp):
+            warnings.warn(
+                'Message without header {}'.format(self),
+                RuntimeWarning
+            )
+
+        # Header
+        if header is None:
+            header = datastructures.MessageHeader(
+                self._type,
+                # On AppVeyorCI time.time() returns unreliable values thus
+                # we use calendar.timegm() instead of time.time() to unify it.
+                calendar.timegm(time.gmtime()),
+                False,
+            )
+        self.header = header
+        self.sig = sig
+
+    def __eq__(self, obj):
+        """
+        for the equality check, we're concerned with the message type,
+        timestamp, and most importantly its content and signature
+
+        we're specifically ignoring the `encrypted` flag as it doesn't
+        pertain to the message's content but rather to its mode of transport
+        """
+
+        return (
+            self.__class__ is obj.__class__
+            and self.header.type_ == obj.header.type_
+            and self.timestamp == obj.timestamp
+            and self.sig == obj.sig
+            and self.slots() == obj.slots()
+        )
+
+    def __repr__(self):
+        try:
+            slots_ = self.slots()
+        except exceptions.FieldError:
+            slots_ = '<unserializable>'
+        template = "{name!r}(header={header!r}, sig={sig!r}, slots={slots!r})"
+        return template.format(
+            name=self.__class__.__name__,
+            header=getattr(self, 'header', None),
+            sig=getattr(self, 'sig', None),
+            slots=slots_,
+        )
+
+    @property
+    def _type(self):
+        return library.get_type(self.__class__)
+
+    @property
+    def timestamp(self):
+        return self.header.timestamp
+
+    @property
+    def encrypted(self):
+        return self.header.encrypted
+
+    @encrypted.setter
+    def encrypted(self, value):
+        self.header = datastructures.MessageHeader(
+            self.header.type_,
+            self.header.timestamp,
+            value,
+        )
+
+    def get_short_hash(self, payload=None) -> bytes:
+        """Return short message representation for signature
+        :return bytes: sha1(TYPE, timestamp, payload)
+        """
+        if payload is None:
+            payload = serializer.dumps(self.slots())
+        sha = hashlib.sha1()
+
+        # We can't use self.serialize_header() because it includes
+        # self.encrypted. And nested messages are decrypted, but they
+        # still need to have a valid signature.
+        # SEE: test_serializer.MessageTestCase.test_message_sig()
+        hash_header = serializer.dumps(
+            [self.header.type_, self.timestamp, ]
+        )
+        sha.update(hash_header)
+        sha.update(payload or b'')
+        return sha.digest()
+
+    def serialize(
+            self,
+            sign_as: typing.Optional[bytes] = None,
+            encrypt_func=None,
+    ) -> bytes:
+        """Returns serialized message"""
+
+        if sign_as and self.sig:
+            # If you wish to overwrite signature,
+            # first set it to None explicitly
+            raise exceptions.SignatureAlreadyExists()
+
+        self.encrypted = bool(self.ENCRYPT and encrypt_func)
+        payload = serializer.dumps(self.slots())
+
+        # When nesting one message inside another it's important
+        # not to overwrite original signature.
+        if self.sig is None:
+            if sign_as and self.SIGN:
+                self.sign_message(
+                    private_key=sign_as,
+                    msg_hash=self.get_short_hash(payload)
+                )
+            else:
+                self._fake_sign()
+
+        if self.encrypted:
+            payload = encrypt_func(payload)
+
+        return (
+            self.serialize_header() +
+            self.sig +
+            payload
+        )
+
+    def serialize_header(self):
+        """ Serialize message's header
+        H unsigned short (2 bytes) big-endian
+        Q unsigned long long (8 bytes) big-endian
+        ? bool (1 byte)
+
+        11 bytes in total
+
+        :return: serialized header
+        """
+        return struct.pack(
+            self.HDR_FORMAT,
+            self._type,
+            self.timestamp,
+            self.encrypted,
+        )
+
+    def serialize_slot(self, key, value):
+        if isinstance(value, enum.Enum):
+            return value.value
+        if key in self.MSG_SLOTS:
+            return self.serialize_message(key, value)
+        return value
+
+    def serialize_message(self, key, value):
+        slot_definition: MessageSlotDefinition = self.MSG_SLOTS[key]
+        if value is None:
+            if not slot_definition.allow_none:
+                raise exceptions.FieldError(
+                    "Disallowed None for message slot",
+                    field=key,
+                    value=value,
+                )
+            return False, None
+
+        if not isinstance(value, list):
+            return False, self.serialize_message_single(key, value)
+        return True, [self.serialize_message_single(key, msg) for msg in value]
+
+    def serialize_message_single(self, key, value):
+        slot_definition = self.MSG_SLOTS[key]
+        if not isinstance(value, slot_definition.get_class()):
+            raise exceptions.FieldError(
+                "Should be instance of {}".format(slot_definition.klass),
+                field=key,
+                value=value,
+            )
+        return value.header, value.sig, value.slots()
+
+    def deserialize_slot(self, key, value):
+        if (key in self.ENUM_SLOTS) and (value is not None):
+            try:
+                return self.ENUM_SLOTS[key](value)
+            except ValueError as e:
+                raise exceptions.FieldError(
+                    "Invalid value for enum slot",
+                    field=key,
+                    value=value,
+                ) from e
+        if key in self.MSG_SLOTS:
+            return self.deserialize_message(key, value)
+        return value
+
+    def deserialize_message(self, key, value):
+        slot_definition: MessageSlotDefinition = self.MSG_SLOTS[key]
+        try:
+            is_list, value = value
+        except (TypeError, ValueError):
+            raise exceptions.FieldError(
+                "Invalid nested message format",
+                field=key,
+                value=value,
+            )
+
+        if value and (is_list != slot_definition.is_list):
+            raise exceptions.FieldError(
+                "Invalid nested message format (is_list: {})".format(
+                    slot_definition.is_list,
+                ),
+                field=key,
+                value=value,
+            )
+        if value and is_list:
+            if not isinstance(value, list):
+                raise exceptions.FieldError(
+                    "Should be List[{}]".format(slot_definition.klass),
+                    field=key,
+                    value=value,
+                )
+            result = [
+                self.deserialize_message_single(key, serialized_msg)
+                for serialized_msg
+                in value
+            ]
+            return result
+
+        return self.deserialize_message_single(key, value)
+
+    def deserialize_message_single(self, key, value):
+        slot_definition: MessageSlotDefinition = self.MSG_SLOTS[key]
+        if value is None:
+            if not slot_definition.allow_none:
+                raise exceptions.FieldError(
+                    "Disallowed None for message slot",
+                    field=key,
+                    value=value,
+                )
+            return None
+        try:
+            nested = datastructures.NestedMessage(*value)
+        except TypeError:
+            raise exceptions.FieldError(
+                "Invalid nested message format",
+                field=key,
+                value=value,
+            )
+        try:
+            result = slot_definition.get_class()(
+                header=datastructures.MessageHeader(*nested.header),
+                sig=nested.sig,
+                slots=nested.slots,
+            )
+        except exceptions.FieldError:
+            raise
+        except Exception as e:
+            raise exceptions.FieldError(
+                "Invalid value for message slot",
+                field=key,
+                value=value,
+            ) from e
+        return result
+
+    @classmethod
+    def unpack_header(cls, data: bytes) -> datastructures.MessageHeader:
+        """Unpack message's header"""
+        try:
+            header = datastructures.MessageHeader(
+                *struct.unpack(cls.HDR_FORMAT, data),
+            )
+        except (struct.error, TypeError) as e:
+            raise exceptions.HeaderError() from e
+        return header
+
+    @classmethod
+    def deserialize_header(cls, data):
+        """ Deserialize message's header
+
+        :param data: bytes
+        :return: datastructures.MessageHeader
+        """
+
+        header = cls.unpack_header(data)
+        logger.debug("deserialize_header(): %r", header)
+        if not settings.MIN_TIMESTAMP < header.timestamp < \
+                settings.MAX_TIMESTAMP:
+            raise exceptions.HeaderError(
+                "Invalid timestamp {got}. Should be between {min_} and {max_}"
+                .format(
+                    got=header.timestamp,
+                    min_=settings.MIN_TIMESTAMP,
+                    max_=settings.MAX_TIMESTAMP,
+                )
+            )
+
+        if header.type_ not in library:
+            raise exceptions.HeaderError(
+                "Unknown message type {got}".format(got=header.type_),
+            )
+        return header
+
+    @classmethod
+    def deserialize(cls, msg,
+                    decrypt_func,
+                    check_time=True,
+                    sender_public_key: typing.Optional[bytes] = None):
+        """
+        Deserialize single message
+        :param str msg: serialized message
+        :param bool check_time: whether the message's timestamp
+                                should be validated
+        :param function(data) decrypt_func: decryption function
+        :param bytes sender_public_key: if specified, sender's public key
+                                against which the signature is verified
+        :return Message|None: deserialized message or none if this message
+                              type is unknown
+        """
+
+        if not msg or len(msg) <= cls.HDR_LEN + cls.SIG_LEN:
+            raise exceptions.MessageError("Message too short")
+
+        raw_header = msg[:cls.HDR_LEN]
+        data = msg[cls.HDR_LEN:]
+
+        header = cls.deserialize_header(raw_header)
+        if check_time:
+            verify_time(header.timestamp)
+
+        class_ = library[header.type_]
+        logger.debug('Deserialization class found. class=%r', class_)
+        try:
+            return class_.deserialize_with_header(
+                header,
+                data,
+                decrypt_func,
+                sender_public_key=sender_public_key,
+            )
+        except exceptions.MessageError:
+            raise
+        except Exception as e:
+            raise exceptions.MessageError('Deserialization failed') from e
+
+    @classmethod
+    def deserialize_with_header(
+            cls, header, data,
+            decrypt_func, sender_public_key: typing.Optional[bytes] = None,
+            **kwargs):
+        sig = data[:cls.SIG_LEN]
+        payload = data[cls.SIG_LEN:]
+
+        if header.encrypted:
+            try:
+                payload = decrypt_func(payload)
+                logger.debug("Decrypted. payload=%r", payload)
+            except exceptions.MessageError:
+                raise
+            except Exception as e:
+                raise exceptions.DecryptionError(
+                    "Unknown decryption problem"
+                ) from e
+        slots = serializer.loads(payload)
+
+        instance = cls(
+            header=header,
+            sig=sig,
+            slots=slots,
+            deserialized=True,
+            **kwargs,
+        )
+
+        if sender_public_key and cls.SIGN:
+            instance.verify_signature(
+                sender_public_key, msg_hash=instance.get_short_hash(payload))
+        return instance
+
+    def load_slots(self, slots):
+        try:
+            slots_dict = dict(slots)
+        except (TypeError, ValueError):
+            slots_dict = {}
+
+        for name in self.__slots__:
+            if hasattr(self, name):
+                continue
+            if not self.valid_slot(name):
+                continue
+
+            try:
+                value = slots_dict[name]
+            except KeyError:
+                value = None
+            else:
+                value = self.deserialize_slot(name, value)
+            setattr(self, name, value)
+
+    def slots(self):
+        """Returns a list representation of any subclass message"""
+        processed_slots = []
+        for key in self.__slots__:
+            if not self.valid_slot(key):
+                continue
+            value = getattr(self, key, None)
+            value = self.serialize_slot(key, value)
+            processed_slots.append([key, value])
+        return processed_slots
+
+    def valid_slot(self, name):
+        return (not name.startswith('_')) \
+            and (name not in Message.__slots__) \
+            and (name in self.__slots__)
+
+    def _verify_signature(
+            self, signature: bytes, public_key: bytes,
+            msg_hash: typing.Optional[bytes] = None
+    ) -> bool:
+        """
+        Verify a signature against the provided public key and message hash.
+
+        :param public_key: the public key of the expected signer
+        :param msg_hash: if provided, a call to `get_short_hash()`
+                         will be skipped and the provided hash used instead
+        :return: `True` if the signature is correct.
+        :raises: `exceptions.InvalidSignature` if the signature is corrupted
+        """
+        return cryptography.ecdsa_verify(
+            pubkey=public_key,
+            signature=signature,
+            message=msg_hash or self.get_short_hash()
+        )
+
+    def verify_signature(
+            self,
+            public_key: bytes,
+            msg_hash: typing.Optional[bytes] = None
+    ) -> bool:
+        """
+        Verify the message's signature using the provided public key.
+        Ensures that the message's content is intact and that it has been
+        indeed signed by the expected party.
+
+        :param public_key: the public key of the expected sender
+        :param msg_hash: maybe optionally provided to skip generation
+                         of the message hash during the verification
+        :return: `True` if the signature is correct.
+        :raises: `exceptions.InvalidSignature` if the signature is corrupted
+        """
+        return self._verify_signature(self.sig, public_key, msg_hash)
+
+    def _get_signature(
+            self,
+            private_key: bytes,
+            msg_hash: typing.Optional[bytes] = None
+    ) -> bytes:
+        """
+        Calculate message signature using the provided private key.
+
+        :param private_key: th private key used to generate the signature
+        :param msg_hash: if given, a call to `get_short_hash()`
+                         will be skipped and the provided hash used instead
+        """
+        return cryptography.ecdsa_sign(
+            privkey=private_key,
+            msghash=msg_hash or self.get_short_hash()
+        )
+
+    def sign_message(
+            self,
+            private_key: bytes,
+            msg_hash: typing.Optional[bytes] = None
+    ) -> None:
+        """
+        Calculate and set message signature using the provided private key.
+
+        :param private_key: sender's private key
+        :param msg_hash: may be optionally provided to skip generation
+                         of the message hash while signing
+        """
+        self.sig = self._get_signature(private_key, msg_hash)
+
+    def _fake_sign(self):
+        self.sig = b'\0' * Message.SIG_LEN
+
+
+class MessageSlotDefinition(collections.namedtuple(
+        "MessageSlotDefinition", ["klass", "allow_none", "is_list"])):
+    """
+    defines a slot that needs to be an instance of the specified Message class
+
+    to alleviate issues resulting from potential circular imports among
+    messages, `klass` can be specified as a dot-separated module path
+    to the message class in question
+    """
+
+    def __new__(cls, klass, allow_none=False, is_list=False):
+        return super().__new__(
+            cls, klass, allow_none=allow_none, is_list=is_list
+        )
+
+    def get_class(self):
+        if isinstance(self.klass, str):
+            m, c = self.klass.rsplit('.', 1)
+            module = importlib.import_module(m)
+            return getattr(module, c)
+        return self.klass
+
+
+class AbstractReasonMessage(Message):
+    __slots__ = [
+        'reason',
+    ] + Message.__slots__
+
+    @property
+    def ENUM_SLOTS(self):
+        return {
+            'reason': self.REASON,
+        }
+
+
+##################
+# Basic Messages #
+##################
+
+
+@library.register(0)
+class Hello(dt_p2p.NodeSlotMixin, Message):
+    ENCRYPT = False
+    VERSION_FORMAT = '!32p'
+    VERSION_LENGTH = struct.calcsize(VERSION_FORMAT)
+    NODE_SLOTS = (
+        'node_info',
+    )
+
+    __slots__ = [
+        'rand_val',
+        'proto_id',
+        'node_info',
+        'port',
+        'client_ver',
+        'solve_challenge',
+        'challenge',
+        'difficulty',
+        'metadata',
+        '_version',
+    ] + Message.__slots__
+
+    @classmethod
+    def deserialize_with_header(cls, header, data, *args, **kwargs):  # noqa pylint: disable=arguments-differ
+        raw_version = data[-cls.VERSION_LENGTH:]
+        data = data[:-cls.VERSION_LENGTH]
+        try:
+            str_version = struct.unpack(cls.VERSION_FORMAT, raw_version)[0] \
+                .decode('ascii', 'replace')
+        except struct.error as e:
+            raise exceptions.VersionMismatchError(
+                "Unreadable version {raw_version}".format(
+                    raw_version=raw_version,
+                )
+            ) from e
+        verify_version(str_version)
+        instance = super().deserialize_with_header(
+            header,
+            data,
+            _version=str_version,
+            *args,
+            **kwargs,
+        )
+        return instance
+
+    def serialize(self, *args, **kwargs):  # pylint: disable=arguments-differ
+        serialized = super().serialize(*args, **kwargs)
+        version = struct.pack(
+            self.VERSION_FORMAT,
+            self._version.encode('ascii', 'replace')
+        )
+        return serialized + version
+
+    def get_short_hash(self, *args, **kwargs):  # noqa pylint: disable=arguments-differ
+        return super().get_short_hash(*args, **kwargs) \
+            + self._version.encode('ascii', 'replace')
+
+    def __init__(self, **kwargs):
+        super().__init__(**kwargs)
+        deserialized = kwargs.pop('deserialized', False)
+        if not deserialized and not hasattr(self, '_version'):
+            self._version = golem_messages.__version__
+
+    def __repr__(self):
+        return "<{} _version:{}>".format(
+            super().__repr__(),
+            getattr(self, '_version', '<undefined>'),
+        )
+
+    def __eq__(self, obj):
+        if not self._version == getattr(obj, '_version', None):
+            return False
+        return super().__eq__(obj)
+
+
+@library.register(1)
+class RandVal(Message):
+    """Message with signed random value"""
+    __slots__ = ['rand_val'] + Message.__slots__
+
+
+@library.register(2)
+class Disconnect(AbstractReasonMessage):
+    ENCRYPT = False
+
+    __slots__ = AbstractReasonMessage.__slots__
+
+    class REASON(enum.Enum):
+        DuplicatePeers = 'duplicate_peers'
+        TooManyPeers = 'too_many_peers'
+        Refresh = 'refresh'
+        Unverified = 'unverified'
+        ProtocolVersion = 'protocol_version'
+        BadProtocol = 'bad_protocol'
+        Timeout = 'timeout'
+        NoMoreMessages = 'no_more_messages'
+        WrongEncryption = 'wrong_encryption'
+        ResourceHandshakeFailure = 'resource_handshake'
+        KeyNotDifficult = 'key_not_difficult'
+        Bootstrap = 'bootstrap'
+
+
+@library.register(3)
+class ChallengeSolution(Message):
+    __slots__ = ['solution'] + Message.__slots__
-- 
2.43.0


From 1a57bb5cbd438de06c5fd7a4bb7f844ae0c36808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:29 +0000
Subject: [PATCH 11/19] fix: equality of deserialized messages with promissory
 notes

A signature of a promissory note is a named tuple, but it's a list after
deserialization, so a received message was never equal to the sent one.
---
 golem_messages/message/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/golem_messages/message/base.py b/golem_messages/message/base.py
index a4893a6..93ee5e0 100644
--- a/golem_messages/message/base.py
+++ b/golem_messages/message/base.py
@@ -266,6 +266,10 @@ class Message:
             return value.value
         if key in self.MSG_SLOTS:
             return self.serialize_message(key, value)
+        if isinstance(value, tuple):
+            # There are no tuples in CBOR. Without this a deserialized message
+            # would differ from the original one.
+            return list(value)
         return value
 
     def serialize_message(self, key, value):
-- 
2.43.0


From 475182f2085c0a2cb5d877a1df2d08fddfb4ae84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:29 +0000
Subject: [PATCH 12/19] fix: verify promissory notes from addresses in lower
 case

Case of letters isn't significant in a hexadecimal address, other than as
a checksum, but notes from addresses without it were always rejected.
---
 golem_messages/datastructures/promissory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/golem_messages/datastructures/promissory.py b/golem_messages/datastructures/promissory.py
index c7c88ab..44ec290 100644
--- a/golem_messages/datastructures/promissory.py
+++ b/golem_messages/datastructures/promissory.py
@@ -104,7 +104,8 @@ class PromissoryNote:
             message_hash=self.hash,
             vrs=promissory_note_sig
         )
-        return self.address_from == address_from
+        # addresses don't have to be checksummed
+        return self.address_from.lower() == address_from.lower()
 
 
 class PromissorySlotMixin:
-- 
2.43.0


From b0f901ed8b900a4c8fbe8f1fce6cfc3086d2bee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:36 +0000
Subject: [PATCH 13/19] fix: make factories sign messages after all other
 changes

---
 golem_messages/factories/helpers.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/golem_messages/factories/helpers.py b/golem_messages/factories/helpers.py
index 4d2670f..3bafa3f 100644
--- a/golem_messages/factories/helpers.py
+++ b/golem_messages/factories/helpers.py
@@ -115,7 +115,15 @@ class MessageFactory(factory.Factory):
     # pylint: disable=no-self-argument
 
     @factory.post_generation
-    def sign(msg: 'Message', _, __, **kwargs):
-        MessageFactory.sign_message(msg, _, __, **kwargs)
+    def sign(_msg: 'Message', _, __, **kwargs):
+        # the signature has to cover the effects of all the other hooks,
+        # SEE: _after_postgeneration
+        return kwargs
 
     # pylint: enable=no-self-argument
+
+    @classmethod
+    def _after_postgeneration(cls, instance, create, results=None):
+        kwargs = (results or {}).get('sign') or {}
+        MessageFactory.sign_message(instance, create, None, **kwargs)
+        super()._after_postgeneration(instance, create, results)
-- 
2.43.0


From 213aa91788ab375056bc840d8b30f2817be0d92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:51 +0000
Subject: [PATCH 14/19] fix: reason in
 ForceReportComputedTaskResponseFactory.with_reject_*

---
 golem_messages/factories/concents.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golem_messages/factories/concents.py b/golem_messages/factories/concents.py
index f78924c..499b77a 100644
--- a/golem_messages/factories/concents.py
+++ b/golem_messages/factories/concents.py
@@ -328,7 +328,7 @@ class ForceReportComputedTaskResponseFactory(helpers.MessageFactory):
 
     @classmethod
     def with_reject_report_computed_task(cls, *args, **kwargs):
-        if 'reason' in kwargs:
+        if 'reason' not in kwargs:
             kwargs.update({
                 'reason': cls._meta.model.REASON.RejectFromRequestor
             })
-- 
2.43.0


From 07330d4d88323c70f135023db54d2e69bb83886f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 15/19] fix: sign the final content of the ack in
 VerdictReportComputedTaskFactory

---
 golem_messages/factories/concents.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/golem_messages/factories/concents.py b/golem_messages/factories/concents.py
index 499b77a..8415b3e 100644
--- a/golem_messages/factories/concents.py
+++ b/golem_messages/factories/concents.py
@@ -347,6 +347,9 @@ class VerdictReportComputedTaskFactory(helpers.MessageFactory):
         ForceReportComputedTaskFactory)
     ack_report_computed_task = factory.SubFactory(
         'golem_messages.factories.tasks.AckReportComputedTaskFactory',
+        # what is going to be signed; SEE: arct_report_computed_task
+        report_computed_task=factory.SelfAttribute(
+            '..force_report_computed_task.report_computed_task'),
     )
 
     # pylint: disable=no-self-argument
-- 
2.43.0


From 57d42501df257a296f05f429dab2333635000fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:40 +0000
Subject: [PATCH 16/19] fix: make ForcePaymentRejectedFactory produce
 serializable messages

---
 golem_messages/factories/concents.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/golem_messages/factories/concents.py b/golem_messages/factories/concents.py
index 8415b3e..aa11231 100644
--- a/golem_messages/factories/concents.py
+++ b/golem_messages/factories/concents.py
@@ -297,7 +297,8 @@ class ForcePaymentRejectedFactory(helpers.MessageFactory):
     class Meta:
         model = concents.ForcePaymentRejected
 
-    force_payment = factory.SubFactory(ForcePaymentFactory)
+    force_payment = factory.SubFactory(
+        ForcePaymentFactory, subtask_results_accepted_list__generate=1)
     reason = concents.ForcePaymentRejected.REASON.NoUnsettledTasksFound
 
 
-- 
2.43.0


From 42d796f7eb286d706b5619bbdb4bf9a01d51301f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:33 +0000
Subject: [PATCH 17/19] fix: refuse a private key of a wrong length instead of
 looping forever

ECCx(raw_privkey) retries while the private key does not have 32 bytes,
which is right for generated keys, but with a given key it never ends.
---
 golem_messages/cryptography.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/golem_messages/cryptography.py b/golem_messages/cryptography.py
index 1d07428..593263f 100644
--- a/golem_messages/cryptography.py
+++ b/golem_messages/cryptography.py
@@ -138,6 +138,8 @@ class ECCx(pyelliptic.ECC):
 
     def __init__(self, raw_privkey):
         if raw_privkey is not None:
+            if len(raw_privkey) != 32:
+                raise exceptions.InvalidKeys('Invalid privkey length')
             raw_pubkey = privtopub(raw_privkey)
             verify_pubkey(raw_pubkey)
             _, pubkey_x, pubkey_y, _ = self._decode_pubkey(raw_pubkey)
-- 
2.43.0


From 34c862e37bc705b183a92d09c3202314d4d0256b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:04 +0000
Subject: [PATCH 18/19] fix: restore the line endings of message/base.py

The repair of 994d748 changed them by mistake.
---
 golem_messages/message/base.py | 1494 ++++++++++++++++----------------
 1 file changed, 747 insertions(+), 747 deletions(-)

diff --git a/golem_messages/message/base.py b/golem_messages/message/base.py
index 93ee5e0..8263b6c 100644
--- a/golem_messages/message/base.py
+++ b/golem_messages/message/base.py
@@ -1,747 +1,747 @@
-import calendar
-import collections
-import datetime
-import enum
-import hashlib
-import importlib
-import logging
-import struct
-import time
-import warnings
-import typing
-
-import semantic_version
-
-import golem_messages
-
-from golem_messages import cryptography
-from golem_messages import datastructures
-from golem_messages import exceptions
-from golem_messages import serializer
-from golem_messages import settings
-from golem_messages.datastructures import p2p as dt_p2p
-from golem_messages.register import library
-
-logger = logging.getLogger('golem.network.transport.message')
-
-
-def verify_time(timestamp):
-    """ Verify message timestamp. If message is to old or has timestamp from
-    distant future raise TimestampError.
-
-    NOTE: This method deliberately ignores microseconds - precision=1s
-    """
-    now = datetime.datetime.utcnow()
-    try:
-        msgdt = datetime.datetime.utcfromtimestamp(timestamp)
-    except (TypeError, OSError, OverflowError, ValueError) as e:
-        logger.debug('Error parsing timestamp: %r', timestamp, exc_info=True)
-        raise exceptions.TimestampError(str(e))
-    delta = now - msgdt
-    delta_future = msgdt - now
-    logger.debug('msgdt %s Δ %s Δfuture %s', msgdt, delta, delta_future)
-    if delta > settings.MSG_TTL:
-        raise exceptions.MessageTooOldError(
-            "delta {} > {}".format(delta, settings.MSG_TTL),
-        )
-    if delta_future > settings.FUTURE_TIME_TOLERANCE:
-        raise exceptions.MessageFromFutureError(
-            "delta_future {} > {}".format(
-                delta_future,
-                settings.FUTURE_TIME_TOLERANCE
-            ),
-        )
-
-
-def verify_version(msg_version):
-    try:
-        theirs_v = semantic_version.Version(msg_version)
-    except ValueError as e:
-        raise exceptions.VersionMismatchError(
-            "Invalid version received: {msg_version}".format(
-                msg_version=msg_version,
-            )
-        ) from e
-    ours_v = semantic_version.Version(golem_messages.__version__)
-    spec_str = '>={major}.{minor}.0,<{next_minor}'.format(
-        major=ours_v.major,
-        minor=ours_v.minor,
-        next_minor=ours_v.next_minor(),
-    )
-    spec = semantic_version.Spec(spec_str)
-    if theirs_v not in spec:
-        raise exceptions.VersionMismatchError(
-            "Incompatible version received:"
-            " {ours} (ours) != {theirs} (theirs)".format(
-                ours=ours_v,
-                theirs=theirs_v,
-            )
-        )
-
-
-class Message:
-    """ Communication message that is sent in all networks """
-
-    __slots__ = ['header', 'sig']
-
-    HDR_FORMAT = '!HQ?'
-    HDR_LEN = struct.calcsize(HDR_FORMAT)
-    SIG_LEN = 65
-
-    ENCRYPT = True
-    SIGN = True
-    ENUM_SLOTS = {}
-    MSG_SLOTS = {}
-
-    def __init__(self,
-                 header: datastructures.MessageHeader = None,
-                 sig=None,
-                 slots=None,
-                 deserialized=False,
-                 **kwargs):
-
-        """Create a new message
-        :param deserialized: was message created by .deserialize()?
-        """
-
-        # Child message slots
-        try:
-            self.load_slots(slots)
-        except exceptions.FieldError:
-            raise
-        except Exception as e:
-            raise exceptions.MessageError('Load slots failed') from e
-
-        # Set attributes
-        for key in kwargs:
-            if getattr(self, key, None) is None:
-                try:
-                    setattr(self, key, kwargs[key])
-                except AttributeError:
-                    raise AttributeError(
-                        "Can't set attribute `%s` on `%s`" % (
-                            key, self.__class__.__name__))
-
-        if deserialized and not (header and header.timestamp):
-            warnings.warn(
-                'Message without header {}'.format(self),
-                RuntimeWarning
-            )
-
-        # Header
-        if header is None:
-            header = datastructures.MessageHeader(
-                self._type,
-                # On AppVeyorCI time.time() returns unreliable values thus
-                # we use calendar.timegm() instead of time.time() to unify it.
-                calendar.timegm(time.gmtime()),
-                False,
-            )
-        self.header = header
-        self.sig = sig
-
-    def __eq__(self, obj):
-        """
-        for the equality check, we're concerned with the message type,
-        timestamp, and most importantly its content and signature
-
-        we're specifically ignoring the `encrypted` flag as it doesn't
-        pertain to the message's content but rather to its mode of transport
-        """
-
-        return (
-            self.__class__ is obj.__class__
-            and self.header.type_ == obj.header.type_
-            and self.timestamp == obj.timestamp
-            and self.sig == obj.sig
-            and self.slots() == obj.slots()
-        )
-
-    def __repr__(self):
-        try:
-            slots_ = self.slots()
-        except exceptions.FieldError:
-            slots_ = '<unserializable>'
-        template = "{name!r}(header={header!r}, sig={sig!r}, slots={slots!r})"
-        return template.format(
-            name=self.__class__.__name__,
-            header=getattr(self, 'header', None),
-            sig=getattr(self, 'sig', None),
-            slots=slots_,
-        )
-
-    @property
-    def _type(self):
-        return library.get_type(self.__class__)
-
-    @property
-    def timestamp(self):
-        return self.header.timestamp
-
-    @property
-    def encrypted(self):
-        return self.header.encrypted
-
-    @encrypted.setter
-    def encrypted(self, value):
-        self.header = datastructures.MessageHeader(
-            self.header.type_,
-            self.header.timestamp,
-            value,
-        )
-
-    def get_short_hash(self, payload=None) -> bytes:
-        """Return short message representation for signature
-        :return bytes: sha1(TYPE, timestamp, payload)
-        """
-        if payload is None:
-            payload = serializer.dumps(self.slots())
-        sha = hashlib.sha1()
-
-        # We can't use self.serialize_header() because it includes
-        # self.encrypted. And nested messages are decrypted, but they
-        # still need to have a valid signature.
-        # SEE: test_serializer.MessageTestCase.test_message_sig()
-        hash_header = serializer.dumps(
-            [self.header.type_, self.timestamp, ]
-        )
-        sha.update(hash_header)
-        sha.update(payload or b'')
-        return sha.digest()
-
-    def serialize(
-            self,
-            sign_as: typing.Optional[bytes] = None,
-            encrypt_func=None,
-    ) -> bytes:
-        """Returns serialized message"""
-
-        if sign_as and self.sig:
-            # If you wish to overwrite signature,
-            # first set it to None explicitly
-            raise exceptions.SignatureAlreadyExists()
-
-        self.encrypted = bool(self.ENCRYPT and encrypt_func)
-        payload = serializer.dumps(self.slots())
-
-        # When nesting one message inside another it's important
-        # not to overwrite original signature.
-        if self.sig is None:
-            if sign_as and self.SIGN:
-                self.sign_message(
-                    private_key=sign_as,
-                    msg_hash=self.get_short_hash(payload)
-                )
-            else:
-                self._fake_sign()
-
-        if self.encrypted:
-            payload = encrypt_func(payload)
-
-        return (
-            self.serialize_header() +
-            self.sig +
-            payload
-        )
-
-    def serialize_header(self):
-        """ Serialize message's header
-        H unsigned short (2 bytes) big-endian
-        Q unsigned long long (8 bytes) big-endian
-        ? bool (1 byte)
-
-        11 bytes in total
-
-        :return: serialized header
-        """
-        return struct.pack(
-            self.HDR_FORMAT,
-            self._type,
-            self.timestamp,
-            self.encrypted,
-        )
-
-    def serialize_slot(self, key, value):
-        if isinstance(value, enum.Enum):
-            return value.value
-        if key in self.MSG_SLOTS:
-            return self.serialize_message(key, value)
-        if isinstance(value, tuple):
-            # There are no tuples in CBOR. Without this a deserialized message
-            # would differ from the original one.
-            return list(value)
-        return value
-
-    def serialize_message(self, key, value):
-        slot_definition: MessageSlotDefinition = self.MSG_SLOTS[key]
-        if value is None:
-            if not slot_definition.allow_none:
-                raise exceptions.FieldError(
-                    "Disallowed None for message slot",
-                    field=key,
-                    value=value,
-                )
-            return False, None
-
-        if not isinstance(value, list):
-            return False, self.serialize_message_single(key, value)
-        return True, [self.serialize_message_single(key, msg) for msg in value]
-
-    def serialize_message_single(self, key, value):
-        slot_definition = self.MSG_SLOTS[key]
-        if not isinstance(value, slot_definition.get_class()):
-            raise exceptions.FieldError(
-                "Should be instance of {}".format(slot_definition.klass),
-                field=key,
-                value=value,
-            )
-        return value.header, value.sig, value.slots()
-
-    def deserialize_slot(self, key, value):
-        if (key in self.ENUM_SLOTS) and (value is not None):
-            try:
-                return self.ENUM_SLOTS[key](value)
-            except ValueError as e:
-                raise exceptions.FieldError(
-                    "Invalid value for enum slot",
-                    field=key,
-                    value=value,
-                ) from e
-        if key in self.MSG_SLOTS:
-            return self.deserialize_message(key, value)
-        return value
-
-    def deserialize_message(self, key, value):
-        slot_definition: MessageSlotDefinition = self.MSG_SLOTS[key]
-        try:
-            is_list, value = value
-        except (TypeError, ValueError):
-            raise exceptions.FieldError(
-                "Invalid nested message format",
-                field=key,
-                value=value,
-            )
-
-        if value and (is_list != slot_definition.is_list):
-            raise exceptions.FieldError(
-                "Invalid nested message format (is_list: {})".format(
-                    slot_definition.is_list,
-                ),
-                field=key,
-                value=value,
-            )
-        if value and is_list:
-            if not isinstance(value, list):
-                raise exceptions.FieldError(
-                    "Should be List[{}]".format(slot_definition.klass),
-                    field=key,
-                    value=value,
-                )
-            result = [
-                self.deserialize_message_single(key, serialized_msg)
-                for serialized_msg
-                in value
-            ]
-            return result
-
-        return self.deserialize_message_single(key, value)
-
-    def deserialize_message_single(self, key, value):
-        slot_definition: MessageSlotDefinition = self.MSG_SLOTS[key]
-        if value is None:
-            if not slot_definition.allow_none:
-                raise exceptions.FieldError(
-                    "Disallowed None for message slot",
-                    field=key,
-                    value=value,
-                )
-            return None
-        try:
-            nested = datastructures.NestedMessage(*value)
-        except TypeError:
-            raise exceptions.FieldError(
-                "Invalid nested message format",
-                field=key,
-                value=value,
-            )
-        try:
-            result = slot_definition.get_class()(
-                header=datastructures.MessageHeader(*nested.header),
-                sig=nested.sig,
-                slots=nested.slots,
-            )
-        except exceptions.FieldError:
-            raise
-        except Exception as e:
-            raise exceptions.FieldError(
-                "Invalid value for message slot",
-                field=key,
-                value=value,
-            ) from e
-        return result
-
-    @classmethod
-    def unpack_header(cls, data: bytes) -> datastructures.MessageHeader:
-        """Unpack message's header"""
-        try:
-            header = datastructures.MessageHeader(
-                *struct.unpack(cls.HDR_FORMAT, data),
-            )
-        except (struct.error, TypeError) as e:
-            raise exceptions.HeaderError() from e
-        return header
-
-    @classmethod
-    def deserialize_header(cls, data):
-        """ Deserialize message's header
-
-        :param data: bytes
-        :return: datastructures.MessageHeader
-        """
-
-        header = cls.unpack_header(data)
-        logger.debug("deserialize_header(): %r", header)
-        if not settings.MIN_TIMESTAMP < header.timestamp < \
-                settings.MAX_TIMESTAMP:
-            raise exceptions.HeaderError(
-                "Invalid timestamp {got}. Should be between {min_} and {max_}"
-                .format(
-                    got=header.timestamp,
-                    min_=settings.MIN_TIMESTAMP,
-                    max_=settings.MAX_TIMESTAMP,
-                )
-            )
-
-        if header.type_ not in library:
-            raise exceptions.HeaderError(
-                "Unknown message type {got}".format(got=header.type_),
-            )
-        return header
-
-    @classmethod
-    def deserialize(cls, msg,
-                    decrypt_func,
-                    check_time=True,
-                    sender_public_key: typing.Optional[bytes] = None):
-        """
-        Deserialize single message
-        :param str msg: serialized message
-        :param bool check_time: whether the message's timestamp
-                                should be validated
-        :param function(data) decrypt_func: decryption function
-        :param bytes sender_public_key: if specified, sender's public key
-                                against which the signature is verified
-        :return Message|None: deserialized message or none if this message
-                              type is unknown
-        """
-
-        if not msg or len(msg) <= cls.HDR_LEN + cls.SIG_LEN:
-            raise exceptions.MessageError("Message too short")
-
-        raw_header = msg[:cls.HDR_LEN]
-        data = msg[cls.HDR_LEN:]
-
-        header = cls.deserialize_header(raw_header)
-        if check_time:
-            verify_time(header.timestamp)
-
-        class_ = library[header.type_]
-        logger.debug('Deserialization class found. class=%r', class_)
-        try:
-            return class_.deserialize_with_header(
-                header,
-                data,
-                decrypt_func,
-                sender_public_key=sender_public_key,
-            )
-        except exceptions.MessageError:
-            raise
-        except Exception as e:
-            raise exceptions.MessageError('Deserialization failed') from e
-
-    @classmethod
-    def deserialize_with_header(
-            cls, header, data,
-            decrypt_func, sender_public_key: typing.Optional[bytes] = None,
-            **kwargs):
-        sig = data[:cls.SIG_LEN]
-        payload = data[cls.SIG_LEN:]
-
-        if header.encrypted:
-            try:
-                payload = decrypt_func(payload)
-                logger.debug("Decrypted. payload=%r", payload)
-            except exceptions.MessageError:
-                raise
-            except Exception as e:
-                raise exceptions.DecryptionError(
-                    "Unknown decryption problem"
-                ) from e
-        slots = serializer.loads(payload)
-
-        instance = cls(
-            header=header,
-            sig=sig,
-            slots=slots,
-            deserialized=True,
-            **kwargs,
-        )
-
-        if sender_public_key and cls.SIGN:
-            instance.verify_signature(
-                sender_public_key, msg_hash=instance.get_short_hash(payload))
-        return instance
-
-    def load_slots(self, slots):
-        try:
-            slots_dict = dict(slots)
-        except (TypeError, ValueError):
-            slots_dict = {}
-
-        for name in self.__slots__:
-            if hasattr(self, name):
-                continue
-            if not self.valid_slot(name):
-                continue
-
-            try:
-                value = slots_dict[name]
-            except KeyError:
-                value = None
-            else:
-                value = self.deserialize_slot(name, value)
-            setattr(self, name, value)
-
-    def slots(self):
-        """Returns a list representation of any subclass message"""
-        processed_slots = []
-        for key in self.__slots__:
-            if not self.valid_slot(key):
-                continue
-            value = getattr(self, key, None)
-            value = self.serialize_slot(key, value)
-            processed_slots.append([key, value])
-        return processed_slots
-
-    def valid_slot(self, name):
-        return (not name.startswith('_')) \
-            and (name not in Message.__slots__) \
-            and (name in self.__slots__)
-
-    def _verify_signature(
-            self, signature: bytes, public_key: bytes,
-            msg_hash: typing.Optional[bytes] = None
-    ) -> bool:
-        """
-        Verify a signature against the provided public key and message hash.
-
-        :param public_key: the public key of the expected signer
-        :param msg_hash: if provided, a call to `get_short_hash()`
-                         will be skipped and the provided hash used instead
-        :return: `True` if the signature is correct.
-        :raises: `exceptions.InvalidSignature` if the signature is corrupted
-        """
-        return cryptography.ecdsa_verify(
-            pubkey=public_key,
-            signature=signature,
-            message=msg_hash or self.get_short_hash()
-        )
-
-    def verify_signature(
-            self,
-            public_key: bytes,
-            msg_hash: typing.Optional[bytes] = None
-    ) -> bool:
-        """
-        Verify the message's signature using the provided public key.
-        Ensures that the message's content is intact and that it has been
-        indeed signed by the expected party.
-
-        :param public_key: the public key of the expected sender
-        :param msg_hash: maybe optionally provided to skip generation
-                         of the message hash during the verification
-        :return: `True` if the signature is correct.
-        :raises: `exceptions.InvalidSignature` if the signature is corrupted
-        """
-        return self._verify_signature(self.sig, public_key, msg_hash)
-
-    def _get_signature(
-            self,
-            private_key: bytes,
-            msg_hash: typing.Optional[bytes] = None
-    ) -> bytes:
-        """
-        Calculate message signature using the provided private key.
-
-        :param private_key: th private key used to generate the signature
-        :param msg_hash: if given, a call to `get_short_hash()`
-                         will be skipped and the provided hash used instead
-        """
-        return cryptography.ecdsa_sign(
-            privkey=private_key,
-            msghash=msg_hash or self.get_short_hash()
-        )
-
-    def sign_message(
-            self,
-            private_key: bytes,
-            msg_hash: typing.Optional[bytes] = None
-    ) -> None:
-        """
-        Calculate and set message signature using the provided private key.
-
-        :param private_key: sender's private key
-        :param msg_hash: may be optionally provided to skip generation
-                         of the message hash while signing
-        """
-        self.sig = self._get_signature(private_key, msg_hash)
-
-    def _fake_sign(self):
-        self.sig = b'\0' * Message.SIG_LEN
-
-
-class MessageSlotDefinition(collections.namedtuple(
-        "MessageSlotDefinition", ["klass", "allow_none", "is_list"])):
-    """
-    defines a slot that needs to be an instance of the specified Message class
-
-    to alleviate issues resulting from potential circular imports among
-    messages, `klass` can be specified as a dot-separated module path
-    to the message class in question
-    """
-
-    def __new__(cls, klass, allow_none=False, is_list=False):
-        return super().__new__(
-            cls, klass, allow_none=allow_none, is_list=is_list
-        )
-
-    def get_class(self):
-        if isinstance(self.klass, str):
-            m, c = self.klass.rsplit('.', 1)
-            module = importlib.import_module(m)
-            return getattr(module, c)
-        return self.klass
-
-
-class AbstractReasonMessage(Message):
-    __slots__ = [
-        'reason',
-    ] + Message.__slots__
-
-    @property
-    def ENUM_SLOTS(self):
-        return {
-            'reason': self.REASON,
-        }
-
-
-##################
-# Basic Messages #
-##################
-
-
-@library.register(0)
-class Hello(dt_p2p.NodeSlotMixin, Message):
-    ENCRYPT = False
-    VERSION_FORMAT = '!32p'
-    VERSION_LENGTH = struct.calcsize(VERSION_FORMAT)
-    NODE_SLOTS = (
-        'node_info',
-    )
-
-    __slots__ = [
-        'rand_val',
-        'proto_id',
-        'node_info',
-        'port',
-        'client_ver',
-        'solve_challenge',
-        'challenge',
-        'difficulty',
-        'metadata',
-        '_version',
-    ] + Message.__slots__
-
-    @classmethod
-    def deserialize_with_header(cls, header, data, *args, **kwargs):  # noqa pylint: disable=arguments-differ
-        raw_version = data[-cls.VERSION_LENGTH:]
-        data = data[:-cls.VERSION_LENGTH]
-        try:
-            str_version = struct.unpack(cls.VERSION_FORMAT, raw_version)[0] \
-                .decode('ascii', 'replace')
-        except struct.error as e:
-            raise exceptions.VersionMismatchError(
-                "Unreadable version {raw_version}".format(
-                    raw_version=raw_version,
-                )
-            ) from e
-        verify_version(str_version)
-        instance = super().deserialize_with_header(
-            header,
-            data,
-            _version=str_version,
-            *args,
-            **kwargs,
-        )
-        return instance
-
-    def serialize(self, *args, **kwargs):  # pylint: disable=arguments-differ
-        serialized = super().serialize(*args, **kwargs)
-        version = struct.pack(
-            self.VERSION_FORMAT,
-            self._version.encode('ascii', 'replace')
-        )
-        return serialized + version
-
-    def get_short_hash(self, *args, **kwargs):  # noqa pylint: disable=arguments-differ
-        return super().get_short_hash(*args, **kwargs) \
-            + self._version.encode('ascii', 'replace')
-
-    def __init__(self, **kwargs):
-        super().__init__(**kwargs)
-        deserialized = kwargs.pop('deserialized', False)
-        if not deserialized and not hasattr(self, '_version'):
-            self._version = golem_messages.__version__
-
-    def __repr__(self):
-        return "<{} _version:{}>".format(
-            super().__repr__(),
-            getattr(self, '_version', '<undefined>'),
-        )
-
-    def __eq__(self, obj):
-        if not self._version == getattr(obj, '_version', None):
-            return False
-        return super().__eq__(obj)
-
-
-@library.register(1)
-class RandVal(Message):
-    """Message with signed random value"""
-    __slots__ = ['rand_val'] + Message.__slots__
-
-
-@library.register(2)
-class Disconnect(AbstractReasonMessage):
-    ENCRYPT = False
-
-    __slots__ = AbstractReasonMessage.__slots__
-
-    class REASON(enum.Enum):
-        DuplicatePeers = 'duplicate_peers'
-        TooManyPeers = 'too_many_peers'
-        Refresh = 'refresh'
-        Unverified = 'unverified'
-        ProtocolVersion = 'protocol_version'
-        BadProtocol = 'bad_protocol'
-        Timeout = 'timeout'
-        NoMoreMessages = 'no_more_messages'
-        WrongEncryption = 'wrong_encryption'
-        ResourceHandshakeFailure = 'resource_handshake'
-        KeyNotDifficult = 'key_not_difficult'
-        Bootstrap = 'bootstrap'
-
-
-@library.register(3)
-class ChallengeSolution(Message):
-    __slots__ = ['solution'] + Message.__slots__
+import calendar
+import collections
+import datetime
+import enum
+import hashlib
+import importlib
+import logging
+import struct
+import time
+import warnings
+import typing
+
+import semantic_version
+
+import golem_messages
+
+from golem_messages import cryptography
+from golem_messages import datastructures
+from golem_messages import exceptions
+from golem_messages import serializer
+from golem_messages import settings
+from golem_messages.datastructures import p2p as dt_p2p
+from golem_messages.register import library
+
+logger = logging.getLogger('golem.network.transport.message')
+
+
+def verify_time(timestamp):
+    """ Verify message timestamp. If message is to old or has timestamp from
+    distant future raise TimestampError.
+
+    NOTE: This method deliberately ignores microseconds - precision=1s
+    """
+    now = datetime.datetime.utcnow()
+    try:
+        msgdt = datetime.datetime.utcfromtimestamp(timestamp)
+    except (TypeError, OSError, OverflowError, ValueError) as e:
+        logger.debug('Error parsing timestamp: %r', timestamp, exc_info=True)
+        raise exceptions.TimestampError(str(e))
+    delta = now - msgdt
+    delta_future = msgdt - now
+    logger.debug('msgdt %s Δ %s Δfuture %s', msgdt, delta, delta_future)
+    if delta > settings.MSG_TTL:
+        raise exceptions.MessageTooOldError(
+            "delta {} > {}".format(delta, settings.MSG_TTL),
+        )
+    if delta_future > settings.FUTURE_TIME_TOLERANCE:
+        raise exceptions.MessageFromFutureError(
+            "delta_future {} > {}".format(
+                delta_future,
+                settings.FUTURE_TIME_TOLERANCE
+            ),
+        )
+
+
+def verify_version(msg_version):
+    try:
+        theirs_v = semantic_version.Version(msg_version)
+    except ValueError as e:
+        raise exceptions.VersionMismatchError(
+            "Invalid version received: {msg_version}".format(
+                msg_version=msg_version,
+            )
+        ) from e
+    ours_v = semantic_version.Version(golem_messages.__version__)
+    spec_str = '>={major}.{minor}.0,<{next_minor}'.format(
+        major=ours_v.major,
+        minor=ours_v.minor,
+        next_minor=ours_v.next_minor(),
+    )
+    spec = semantic_version.Spec(spec_str)
+    if theirs_v not in spec:
+        raise exceptions.VersionMismatchError(
+            "Incompatible version received:"
+            " {ours} (ours) != {theirs} (theirs)".format(
+                ours=ours_v,
+                theirs=theirs_v,
+            )
+        )
+
+
+class Message:
+    """ Communication message that is sent in all networks """
+
+    __slots__ = ['header', 'sig']
+
+    HDR_FORMAT = '!HQ?'
+    HDR_LEN = struct.calcsize(HDR_FORMAT)
+    SIG_LEN = 65
+
+    ENCRYPT = True
+    SIGN = True
+    ENUM_SLOTS = {}
+    MSG_SLOTS = {}
+
+    def __init__(self,
+                 header: datastructures.MessageHeader = None,
+                 sig=None,
+                 slots=None,
+                 deserialized=False,
+                 **kwargs):
+
+        """Create a new message
+        :param deserialized: was message created by .deserialize()?
+        """
+
+        # Child message slots
+        try:
+            self.load_slots(slots)
+        except exceptions.FieldError:
+            raise
+        except Exception as e:
+            raise exceptions.MessageError('Load slots failed') from e
+
+        # Set attributes
+        for key in kwargs:
+            if getattr(self, key, None) is None:
+                try:
+                    setattr(self, key, kwargs[key])
+                except AttributeError:
+                    raise AttributeError(
+                        "Can't set attribute `%s` on `%s`" % (
+                            key, self.__class__.__name__))
+
+        if deserialized and not (header and header.timestamp):
+            warnings.warn(
+                'Message without header {}'.format(self),
+                RuntimeWarning
+            )
+
+        # Header
+        if header is None:
+            header = datastructures.MessageHeader(
+                self._type,
+                # On AppVeyorCI time.time() returns unreliable values thus
+                # we use calendar.timegm() instead of time.time() to unify it.
+                calendar.timegm(time.gmtime()),
+                False,
+            )
+        self.header = header
+        self.sig = sig
+
+    def __eq__(self, obj):
+        """
+        for the equality check, we're concerned with the message type,
+        timestamp, and most importantly its content and signature
+
+        we're specifically ignoring the `encrypted` flag as it doesn't
+        pertain to the message's content but rather to its mode of transport
+        """
+
+        return (
+            self.__class__ is obj.__class__
+            and self.header.type_ == obj.header.type_
+            and self.timestamp == obj.timestamp
+            and self.sig == obj.sig
+            and self.slots() == obj.slots()
+        )
+
+    def __repr__(self):
+        try:
+            slots_ = self.slots()
+        except exceptions.FieldError:
+            slots_ = '<unserializable>'
+        template = "{name!r}(header={header!r}, sig={sig!r}, slots={slots!r})"
+        return template.format(
+            name=self.__class__.__name__,
+            header=getattr(self, 'header', None),
+            sig=getattr(self, 'sig', None),
+            slots=slots_,
+        )
+
+    @property
+    def _type(self):
+        return library.get_type(self.__class__)
+
+    @property
+    def timestamp(self):
+        return self.header.timestamp
+
+    @property
+    def encrypted(self):
+        return self.header.encrypted
+
+    @encrypted.setter
+    def encrypted(self, value):
+        self.header = datastructures.MessageHeader(
+            self.header.type_,
+            self.header.timestamp,
+            value,
+        )
+
+    def get_short_hash(self, payload=None) -> bytes:
+        """Return short message representation for signature
+        :return bytes: sha1(TYPE, timestamp, payload)
+        """
+        if payload is None:
+            payload = serializer.dumps(self.slots())
+        sha = hashlib.sha1()
+
+        # We can't use self.serialize_header() because it includes
+        # self.encrypted. And nested messages are decrypted, but they
+        # still need to have a valid signature.
+        # SEE: test_serializer.MessageTestCase.test_message_sig()
+        hash_header = serializer.dumps(
+            [self.header.type_, self.timestamp, ]
+        )
+        sha.update(hash_header)
+        sha.update(payload or b'')
+        return sha.digest()
+
+    def serialize(
+            self,
+            sign_as: typing.Optional[bytes] = None,
+            encrypt_func=None,
+    ) -> bytes:
+        """Returns serialized message"""
+
+        if sign_as and self.sig:
+            # If you wish to overwrite signature,
+            # first set it to None explicitly
+            raise exceptions.SignatureAlreadyExists()
+
+        self.encrypted = bool(self.ENCRYPT and encrypt_func)
+        payload = serializer.dumps(self.slots())
+
+        # When nesting one message inside another it's important
+        # not to overwrite original signature.
+        if self.sig is None:
+            if sign_as and self.SIGN:
+                self.sign_message(
+                    private_key=sign_as,
+                    msg_hash=self.get_short_hash(payload)
+                )
+            else:
+                self._fake_sign()
+
+        if self.encrypted:
+            payload = encrypt_func(payload)
+
+        return (
+            self.serialize_header() +
+            self.sig +
+            payload
+        )
+
+    def serialize_header(self):
+        """ Serialize message's header
+        H unsigned short (2 bytes) big-endian
+        Q unsigned long long (8 bytes) big-endian
+        ? bool (1 byte)
+
+        11 bytes in total
+
+        :return: serialized header
+        """
+        return struct.pack(
+            self.HDR_FORMAT,
+            self._type,
+            self.timestamp,
+            self.encrypted,
+        )
+
+    def serialize_slot(self, key, value):
+        if isinstance(value, enum.Enum):
+            return value.value
+        if key in self.MSG_SLOTS:
+            return self.serialize_message(key, value)
+        if isinstance(value, tuple):
+            # There are no tuples in CBOR. Without this a deserialized message
+            # would differ from the original one.
+            return list(value)
+        return value
+
+    def serialize_message(self, key, value):
+        slot_definition: MessageSlotDefinition = self.MSG_SLOTS[key]
+        if value is None:
+            if not slot_definition.allow_none:
+                raise exceptions.FieldError(
+                    "Disallowed None for message slot",
+                    field=key,
+                    value=value,
+                )
+            return False, None
+
+        if not isinstance(value, list):
+            return False, self.serialize_message_single(key, value)
+        return True, [self.serialize_message_single(key, msg) for msg in value]
+
+    def serialize_message_single(self, key, value):
+        slot_definition = self.MSG_SLOTS[key]
+        if not isinstance(value, slot_definition.get_class()):
+            raise exceptions.FieldError(
+                "Should be instance of {}".format(slot_definition.klass),
+                field=key,
+                value=value,
+            )
+        return value.header, value.sig, value.slots()
+
+    def deserialize_slot(self, key, value):
+        if (key in self.ENUM_SLOTS) and (value is not None):
+            try:
+                return self.ENUM_SLOTS[key](value)
+            except ValueError as e:
+                raise exceptions.FieldError(
+                    "Invalid value for enum slot",
+                    field=key,
+                    value=value,
+                ) from e
+        if key in self.MSG_SLOTS:
+            return self.deserialize_message(key, value)
+        return value
+
+    def deserialize_message(self, key, value):
+        slot_definition: MessageSlotDefinition = self.MSG_SLOTS[key]
+        try:
+            is_list, value = value
+        except (TypeError, ValueError):
+            raise exceptions.FieldError(
+                "Invalid nested message format",
+                field=key,
+                value=value,
+            )
+
+        if value and (is_list != slot_definition.is_list):
+            raise exceptions.FieldError(
+                "Invalid nested message format (is_list: {})".format(
+                    slot_definition.is_list,
+                ),
+                field=key,
+                value=value,
+            )
+        if value and is_list:
+            if not isinstance(value, list):
+                raise exceptions.FieldError(
+                    "Should be List[{}]".format(slot_definition.klass),
+                    field=key,
+                    value=value,
+                )
+            result = [
+                self.deserialize_message_single(key, serialized_msg)
+                for serialized_msg
+                in value
+            ]
+            return result
+
+        return self.deserialize_message_single(key, value)
+
+    def deserialize_message_single(self, key, value):
+        slot_definition: MessageSlotDefinition = self.MSG_SLOTS[key]
+        if value is None:
+            if not slot_definition.allow_none:
+                raise exceptions.FieldError(
+                    "Disallowed None for message slot",
+                    field=key,
+                    value=value,
+                )
+            return None
+        try:
+            nested = datastructures.NestedMessage(*value)
+        except TypeError:
+            raise exceptions.FieldError(
+                "Invalid nested message format",
+                field=key,
+                value=value,
+            )
+        try:
+            result = slot_definition.get_class()(
+                header=datastructures.MessageHeader(*nested.header),
+                sig=nested.sig,
+                slots=nested.slots,
+            )
+        except exceptions.FieldError:
+            raise
+        except Exception as e:
+            raise exceptions.FieldError(
+                "Invalid value for message slot",
+                field=key,
+                value=value,
+            ) from e
+        return result
+
+    @classmethod
+    def unpack_header(cls, data: bytes) -> datastructures.MessageHeader:
+        """Unpack message's header"""
+        try:
+            header = datastructures.MessageHeader(
+                *struct.unpack(cls.HDR_FORMAT, data),
+            )
+        except (struct.error, TypeError) as e:
+            raise exceptions.HeaderError() from e
+        return header
+
+    @classmethod
+    def deserialize_header(cls, data):
+        """ Deserialize message's header
+
+        :param data: bytes
+        :return: datastructures.MessageHeader
+        """
+
+        header = cls.unpack_header(data)
+        logger.debug("deserialize_header(): %r", header)
+        if not settings.MIN_TIMESTAMP < header.timestamp < \
+                settings.MAX_TIMESTAMP:
+            raise exceptions.HeaderError(
+                "Invalid timestamp {got}. Should be between {min_} and {max_}"
+                .format(
+                    got=header.timestamp,
+                    min_=settings.MIN_TIMESTAMP,
+                    max_=settings.MAX_TIMESTAMP,
+                )
+            )
+
+        if header.type_ not in library:
+            raise exceptions.HeaderError(
+                "Unknown message type {got}".format(got=header.type_),
+            )
+        return header
+
+    @classmethod
+    def deserialize(cls, msg,
+                    decrypt_func,
+                    check_time=True,
+                    sender_public_key: typing.Optional[bytes] = None):
+        """
+        Deserialize single message
+        :param str msg: serialized message
+        :param bool check_time: whether the message's timestamp
+                                should be validated
+        :param function(data) decrypt_func: decryption function
+        :param bytes sender_public_key: if specified, sender's public key
+                                against which the signature is verified
+        :return Message|None: deserialized message or none if this message
+                              type is unknown
+        """
+
+        if not msg or len(msg) <= cls.HDR_LEN + cls.SIG_LEN:
+            raise exceptions.MessageError("Message too short")
+
+        raw_header = msg[:cls.HDR_LEN]
+        data = msg[cls.HDR_LEN:]
+
+        header = cls.deserialize_header(raw_header)
+        if check_time:
+            verify_time(header.timestamp)
+
+        class_ = library[header.type_]
+        logger.debug('Deserialization class found. class=%r', class_)
+        try:
+            return class_.deserialize_with_header(
+                header,
+                data,
+                decrypt_func,
+                sender_public_key=sender_public_key,
+            )
+        except exceptions.MessageError:
+            raise
+        except Exception as e:
+            raise exceptions.MessageError('Deserialization failed') from e
+
+    @classmethod
+    def deserialize_with_header(
+            cls, header, data,
+            decrypt_func, sender_public_key: typing.Optional[bytes] = None,
+            **kwargs):
+        sig = data[:cls.SIG_LEN]
+        payload = data[cls.SIG_LEN:]
+
+        if header.encrypted:
+            try:
+                payload = decrypt_func(payload)
+                logger.debug("Decrypted. payload=%r", payload)
+            except exceptions.MessageError:
+                raise
+            except Exception as e:
+                raise exceptions.DecryptionError(
+                    "Unknown decryption problem"
+                ) from e
+        slots = serializer.loads(payload)
+
+        instance = cls(
+            header=header,
+            sig=sig,
+            slots=slots,
+            deserialized=True,
+            **kwargs,
+        )
+
+        if sender_public_key and cls.SIGN:
+            instance.verify_signature(
+                sender_public_key, msg_hash=instance.get_short_hash(payload))
+        return instance
+
+    def load_slots(self, slots):
+        try:
+            slots_dict = dict(slots)
+        except (TypeError, ValueError):
+            slots_dict = {}
+
+        for name in self.__slots__:
+            if hasattr(self, name):
+                continue
+            if not self.valid_slot(name):
+                continue
+
+            try:
+                value = slots_dict[name]
+            except KeyError:
+                value = None
+            else:
+                value = self.deserialize_slot(name, value)
+            setattr(self, name, value)
+
+    def slots(self):
+        """Returns a list representation of any subclass message"""
+        processed_slots = []
+        for key in self.__slots__:
+            if not self.valid_slot(key):
+                continue
+            value = getattr(self, key, None)
+            value = self.serialize_slot(key, value)
+            processed_slots.append([key, value])
+        return processed_slots
+
+    def valid_slot(self, name):
+        return (not name.startswith('_')) \
+            and (name not in Message.__slots__) \
+            and (name in self.__slots__)
+
+    def _verify_signature(
+            self, signature: bytes, public_key: bytes,
+            msg_hash: typing.Optional[bytes] = None
+    ) -> bool:
+        """
+        Verify a signature against the provided public key and message hash.
+
+        :param public_key: the public key of the expected signer
+        :param msg_hash: if provided, a call to `get_short_hash()`
+                         will be skipped and the provided hash used instead
+        :return: `True` if the signature is correct.
+        :raises: `exceptions.InvalidSignature` if the signature is corrupted
+        """
+        return cryptography.ecdsa_verify(
+            pubkey=public_key,
+            signature=signature,
+            message=msg_hash or self.get_short_hash()
+        )
+
+    def verify_signature(
+            self,
+            public_key: bytes,
+            msg_hash: typing.Optional[bytes] = None
+    ) -> bool:
+        """
+        Verify the message's signature using the provided public key.
+        Ensures that the message's content is intact and that it has been
+        indeed signed by the expected party.
+
+        :param public_key: the public key of the expected sender
+        :param msg_hash: maybe optionally provided to skip generation
+                         of the message hash during the verification
+        :return: `True` if the signature is correct.
+        :raises: `exceptions.InvalidSignature` if the signature is corrupted
+        """
+        return self._verify_signature(self.sig, public_key, msg_hash)
+
+    def _get_signature(
+            self,
+            private_key: bytes,
+            msg_hash: typing.Optional[bytes] = None
+    ) -> bytes:
+        """
+        Calculate message signature using the provided private key.
+
+        :param private_key: th private key used to generate the signature
+        :param msg_hash: if given, a call to `get_short_hash()`
+                         will be skipped and the provided hash used instead
+        """
+        return cryptography.ecdsa_sign(
+            privkey=private_key,
+            msghash=msg_hash or self.get_short_hash()
+        )
+
+    def sign_message(
+            self,
+            private_key: bytes,
+            msg_hash: typing.Optional[bytes] = None
+    ) -> None:
+        """
+        Calculate and set message signature using the provided private key.
+
+        :param private_key: sender's private key
+        :param msg_hash: may be optionally provided to skip generation
+                         of the message hash while signing
+        """
+        self.sig = self._get_signature(private_key, msg_hash)
+
+    def _fake_sign(self):
+        self.sig = b'\0' * Message.SIG_LEN
+
+
+class MessageSlotDefinition(collections.namedtuple(
+        "MessageSlotDefinition", ["klass", "allow_none", "is_list"])):
+    """
+    defines a slot that needs to be an instance of the specified Message class
+
+    to alleviate issues resulting from potential circular imports among
+    messages, `klass` can be specified as a dot-separated module path
+    to the message class in question
+    """
+
+    def __new__(cls, klass, allow_none=False, is_list=False):
+        return super().__new__(
+            cls, klass, allow_none=allow_none, is_list=is_list
+        )
+
+    def get_class(self):
+        if isinstance(self.klass, str):
+            m, c = self.klass.rsplit('.', 1)
+            module = importlib.import_module(m)
+            return getattr(module, c)
+        return self.klass
+
+
+class AbstractReasonMessage(Message):
+    __slots__ = [
+        'reason',
+    ] + Message.__slots__
+
+    @property
+    def ENUM_SLOTS(self):
+        return {
+            'reason': self.REASON,
+        }
+
+
+##################
+# Basic Messages #
+##################
+
+
+@library.register(0)
+class Hello(dt_p2p.NodeSlotMixin, Message):
+    ENCRYPT = False
+    VERSION_FORMAT = '!32p'
+    VERSION_LENGTH = struct.calcsize(VERSION_FORMAT)
+    NODE_SLOTS = (
+        'node_info',
+    )
+
+    __slots__ = [
+        'rand_val',
+        'proto_id',
+        'node_info',
+        'port',
+        'client_ver',
+        'solve_challenge',
+        'challenge',
+        'difficulty',
+        'metadata',
+        '_version',
+    ] + Message.__slots__
+
+    @classmethod
+    def deserialize_with_header(cls, header, data, *args, **kwargs):  # noqa pylint: disable=arguments-differ
+        raw_version = data[-cls.VERSION_LENGTH:]
+        data = data[:-cls.VERSION_LENGTH]
+        try:
+            str_version = struct.unpack(cls.VERSION_FORMAT, raw_version)[0] \
+                .decode('ascii', 'replace')
+        except struct.error as e:
+            raise exceptions.VersionMismatchError(
+                "Unreadable version {raw_version}".format(
+                    raw_version=raw_version,
+                )
+            ) from e
+        verify_version(str_version)
+        instance = super().deserialize_with_header(
+            header,
+            data,
+            _version=str_version,
+            *args,
+            **kwargs,
+        )
+        return instance
+
+    def serialize(self, *args, **kwargs):  # pylint: disable=arguments-differ
+        serialized = super().serialize(*args, **kwargs)
+        version = struct.pack(
+            self.VERSION_FORMAT,
+            self._version.encode('ascii', 'replace')
+        )
+        return serialized + version
+
+    def get_short_hash(self, *args, **kwargs):  # noqa pylint: disable=arguments-differ
+        return super().get_short_hash(*args, **kwargs) \
+            + self._version.encode('ascii', 'replace')
+
+    def __init__(self, **kwargs):
+        super().__init__(**kwargs)
+        deserialized = kwargs.pop('deserialized', False)
+        if not deserialized and not hasattr(self, '_version'):
+            self._version = golem_messages.__version__
+
+    def __repr__(self):
+        return "<{} _version:{}>".format(
+            super().__repr__(),
+            getattr(self, '_version', '<undefined>'),
+        )
+
+    def __eq__(self, obj):
+        if not self._version == getattr(obj, '_version', None):
+            return False
+        return super().__eq__(obj)
+
+
+@library.register(1)
+class RandVal(Message):
+    """Message with signed random value"""
+    __slots__ = ['rand_val'] + Message.__slots__
+
+
+@library.register(2)
+class Disconnect(AbstractReasonMessage):
+    ENCRYPT = False
+
+    __slots__ = AbstractReasonMessage.__slots__
+
+    class REASON(enum.Enum):
+        DuplicatePeers = 'duplicate_peers'
+        TooManyPeers = 'too_many_peers'
+        Refresh = 'refresh'
+        Unverified = 'unverified'
+        ProtocolVersion = 'protocol_version'
+        BadProtocol = 'bad_protocol'
+        Timeout = 'timeout'
+        NoMoreMessages = 'no_more_messages'
+        WrongEncryption = 'wrong_encryption'
+        ResourceHandshakeFailure = 'resource_handshake'
+        KeyNotDifficult = 'key_not_difficult'
+        Bootstrap = 'bootstrap'
+
+
+@library.register(3)
+class ChallengeSolution(Message):
+    __slots__ = ['solution'] + Message.__slots__
-- 
2.43.0


From 22e9d1e8d980b19c7c318e8f070ad85169c921f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:31 +0000
Subject: [PATCH 19/19] fix: give each made message its own list of frames

The factory used one list for all the extra data it made, so a change of
the frames in one message changed them in every other one.
---
 golem_messages/factories/tasks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golem_messages/factories/tasks.py b/golem_messages/factories/tasks.py
index f16144f..aa931be 100644
--- a/golem_messages/factories/tasks.py
+++ b/golem_messages/factories/tasks.py
@@ -47,7 +47,7 @@ class CTDBlenderExtraDataFactory(factory.DictFactory):
     outfilebasename = 'test task'
     scene_file = '/golem/resources/look_to_windward.blend'
     script_src = 'pass'
-    frames = [1]
+    frames = factory.List([1])
     output_format = 'PNG'
 
 
-- 
2.43.0

