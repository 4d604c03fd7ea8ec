From 531ee796b40e6acf05d3b6a2a3c31d62e343677f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:22 +0000
Subject: [PATCH 01/23] fix: marshal args and kwargs of ABORT

---
 wampproto/messages/abort.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/wampproto/messages/abort.py b/wampproto/messages/abort.py
index 1c27e59..0c511d2 100644
--- a/wampproto/messages/abort.py
+++ b/wampproto/messages/abort.py
@@ -92,4 +92,14 @@ class Abort(Message):
         return Abort(AbortFields(f.details, f.reason, f.args, f.kwargs))
 
     def marshal(self) -> list[Any]:
-        return [self.TYPE, self.details, self.reason]
+        message = [self.TYPE, self.details, self.reason]
+        if self.args is not None:
+            message.append(self.args)
+
+        if self.kwargs is not None:
+            if self.args is None:
+                message.append([])
+
+            message.append(self.kwargs)
+
+        return message
-- 
2.43.0


From 376724a5e9cd0a1ad7fa2b994fc614eea35f7b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:25 +0000
Subject: [PATCH 02/23] fix: reject an empty wire message with ValueError

---
 wampproto/serializers/serializer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wampproto/serializers/serializer.py b/wampproto/serializers/serializer.py
index 2faba44..d23feb2 100644
--- a/wampproto/serializers/serializer.py
+++ b/wampproto/serializers/serializer.py
@@ -18,6 +18,9 @@ def to_message(message: list) -> messages.Message:
     if not isinstance(message, list):
         raise TypeError(f"invalid type '{type(message)}', expected a list")
 
+    if len(message) == 0:
+        raise ValueError("invalid message, expected a non-empty list")
+
     message_type = message[0]
     if not isinstance(message_type, int):
         raise TypeError(f"invalid message type '{type(message[0])}', expected an integer")
-- 
2.43.0


From f5b8efe7ebd26529fe3e91b5723e90e3258c0120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:27 +0000
Subject: [PATCH 03/23] fix: reject a payload that is not a list with TypeError

---
 wampproto/serializers/payload.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wampproto/serializers/payload.py b/wampproto/serializers/payload.py
index dc0bbf8..9b9e370 100644
--- a/wampproto/serializers/payload.py
+++ b/wampproto/serializers/payload.py
@@ -8,6 +8,9 @@ from wampproto import serializers
 
 
 def decode(arr: list) -> Tuple[list[Any] | None, dict[Any, Any] | None]:
+    if not isinstance(arr, list):
+        raise TypeError("payload is not a list")
+
     if len(arr) == 0:
         return None, None
 
-- 
2.43.0


From 9b3d36644c3cbb8fda99ac4c8c8367972ea59c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:29 +0000
Subject: [PATCH 04/23] fix: reject a rawsocket handshake when either reserved
 byte is set

---
 wampproto/transports/rawsocket.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wampproto/transports/rawsocket.py b/wampproto/transports/rawsocket.py
index bc073df..3bfa35b 100644
--- a/wampproto/transports/rawsocket.py
+++ b/wampproto/transports/rawsocket.py
@@ -87,7 +87,7 @@ def receive_handshake(data: bytes) -> Handshake:
     if data[0] != MAGIC:
         raise ValueError("Expected MAGIC, got %d" % data[0])
 
-    if data[2] != 0x00 and data[3] != 0x00:
+    if data[2] != 0x00 or data[3] != 0x00:
         raise ValueError(f"Expected 0x00 for third and fourth byte of handshake response, got {data[2]} and {data[3]}")
 
     return Handshake(data[1] & 0x0F, 1 << ((data[1] >> 4) + 9))
-- 
2.43.0


From f3606c82507998f960ed834faff3270148f9f9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:31 +0000
Subject: [PATCH 05/23] fix: refuse to truncate a rawsocket message length over
 24 bits

---
 wampproto/transports/rawsocket.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wampproto/transports/rawsocket.py b/wampproto/transports/rawsocket.py
index 3bfa35b..9248cd1 100644
--- a/wampproto/transports/rawsocket.py
+++ b/wampproto/transports/rawsocket.py
@@ -51,6 +51,9 @@ class MessageHeader:
         return self._length
 
     def to_bytes(self) -> bytes:
+        if self._length < 0 or self._length >= PROTOCOL_MAX_MSG_SIZE:
+            raise ValueError(f"message length must be less than {PROTOCOL_MAX_MSG_SIZE}, got {self._length}")
+
         data = int_to_bytes(self._length)
         return bytes(
             [
-- 
2.43.0


From 213d0f351d0683675029505107875d357ef8eb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:33 +0000
Subject: [PATCH 06/23] fix: only the callee may fail an invocation, and the
 failed call is forgotten

---
 wampproto/dealer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/wampproto/dealer.py b/wampproto/dealer.py
index 4724bb7..65efca3 100644
--- a/wampproto/dealer.py
+++ b/wampproto/dealer.py
@@ -180,10 +180,16 @@ class Dealer:
             if message.message_type != messages.Invocation.TYPE:
                 raise ValueError("dealer: only expected to receive error in response to invocation")
 
-            pending = self.pending_calls.pop(message.request_id, None)
+            pending = self.pending_calls.get(message.request_id)
             if pending is None:
                 raise ValueError(f"dealer: no pending invocation for {message.request_id}")
 
+            if session_id != pending.callee_id:
+                raise ValueError(f"dealer: received unexpected error from session={session_id}")
+
+            del self.pending_calls[message.request_id]
+            del self.call_to_invocation_id[(pending.caller_id, pending.request_id)]
+
             err_msg = messages.Error(
                 messages.ErrorFields(
                     messages.Call.TYPE, pending.request_id, message.uri, message.args, message.kwargs, message.details
-- 
2.43.0


From 71b8dfef026bcd66c854ab92f9f2392815a5f39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:35 +0000
Subject: [PATCH 07/23] fix: the last CALL of a progressive call continues its
 invocation

---
 wampproto/dealer.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/wampproto/dealer.py b/wampproto/dealer.py
index 65efca3..7cd4b81 100644
--- a/wampproto/dealer.py
+++ b/wampproto/dealer.py
@@ -80,14 +80,12 @@ class Dealer:
 
             receive_progress = message.options.get(OPTION_RECEIVE_PROGRESS, False)
             progress = message.options.get(OPTION_PROGRESS, False)
-            if progress:
-                invocation_id = self.call_to_invocation_id.get((session_id, message.request_id))
-                if invocation_id is None:
-                    invocation_id = self.idgen.next()
-                    self._add_call(message.request_id, invocation_id, session_id, callee_id, progress, receive_progress)
-            else:
+            invocation_id = self.call_to_invocation_id.get((session_id, message.request_id))
+            if invocation_id is None:
                 invocation_id = self.idgen.next()
                 self._add_call(message.request_id, invocation_id, session_id, callee_id, progress, receive_progress)
+            else:
+                callee_id = self.pending_calls[invocation_id].callee_id
 
             details = {}
             if receive_progress:
-- 
2.43.0


From 173030ae59d4ffa9622085f6fb9afa1f1c994853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:37 +0000
Subject: [PATCH 08/23] fix: forget the pending calls of a removed session

---
 wampproto/dealer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wampproto/dealer.py b/wampproto/dealer.py
index 7cd4b81..5232cbc 100644
--- a/wampproto/dealer.py
+++ b/wampproto/dealer.py
@@ -53,6 +53,11 @@ class Dealer:
             if len(registration.registrants) == 0:
                 del self.registrations_by_procedure[registration.procedure]
 
+        for invocation_id, pending in list(self.pending_calls.items()):
+            if sid in (pending.caller_id, pending.callee_id):
+                del self.pending_calls[invocation_id]
+                del self.call_to_invocation_id[(pending.caller_id, pending.request_id)]
+
         del self.sessions[sid]
 
     def has_registration(self, procedure: str) -> bool:
-- 
2.43.0


From fcb5ed91a249ce435acc9a3033135fbf2e6b2e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:39 +0000
Subject: [PATCH 09/23] fix: endless recursion in WAMPCRASaltedResponse.salt

---
 wampproto/auth/auth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wampproto/auth/auth.py b/wampproto/auth/auth.py
index 1b61f01..721c4b1 100644
--- a/wampproto/auth/auth.py
+++ b/wampproto/auth/auth.py
@@ -116,7 +116,7 @@ class WAMPCRASaltedResponse(WAMPCRAResponse):
 
     @property
     def salt(self) -> str:
-        return self.salt
+        return self._salt
 
     @property
     def iterations(self) -> int:
-- 
2.43.0


From 65afb1d9630e1fe8f0c18b140c0524100d0b4f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:41 +0000
Subject: [PATCH 10/23] fix: a wampcra signature that is not ASCII is invalid,
 not an error

---
 wampproto/auth/wampcra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wampproto/auth/wampcra.py b/wampproto/auth/wampcra.py
index 05a0ac5..4f5850b 100644
--- a/wampproto/auth/wampcra.py
+++ b/wampproto/auth/wampcra.py
@@ -75,8 +75,8 @@ def sign_wampcra_challenge(challenge: str, key: bytes) -> str:
 def verify_wampcra_signature(signature: str, challenge: str, key: bytes) -> bool:
     try:
         sig_bytes = base64.b64decode(signature)
-        local_signature = sign_wampcra_challenge(challenge, key)
-    except binascii.Error:
+    except ValueError:
         return False
 
+    local_signature = sign_wampcra_challenge(challenge, key)
     return hmac.compare_digest(sig_bytes, base64.b64decode(local_signature))
-- 
2.43.0


From 9c19c98a362242f4746311c53a01767d9760a63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:44 +0000
Subject: [PATCH 11/23] fix: a malformed cryptosign signature is invalid, not
 an error

---
 wampproto/auth/cryptosign.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wampproto/auth/cryptosign.py b/wampproto/auth/cryptosign.py
index 244432b..42418ce 100644
--- a/wampproto/auth/cryptosign.py
+++ b/wampproto/auth/cryptosign.py
@@ -44,7 +44,7 @@ def verify_cryptosign_signature(signature: str, public_key: bytes) -> bool:
     try:
         verifying_key = nacl.signing.VerifyKey(public_key)
         verifying_key.verify(binascii.unhexlify(signature))
-    except BadSignatureError:
+    except (BadSignatureError, ValueError):
         return False
 
     return True
-- 
2.43.0


From d7ae937f950ef73515e2cdc718037bfde82dbb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:47 +0000
Subject: [PATCH 12/23] fix: a cryptosign signature must sign the challenge
 that was sent

---
 wampproto/acceptor.py        | 5 ++++-
 wampproto/auth/cryptosign.py | 6 +++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index b948d29..876ebaf 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -112,6 +112,7 @@ class Acceptor:
 
                     challenge = auth.generate_cryptosign_challenge()
                     self._state = Acceptor.STATE_CHALLENGE_SENT
+                    self._challenge = challenge
 
                     return messages.Challenge(messages.ChallengeFields(method, {"challenge": challenge}))
                 case Acceptor.WAMPCRA:
@@ -145,7 +146,9 @@ class Acceptor:
 
             match self._auth_method:
                 case Acceptor.CRYPTOSIGN:
-                    if not auth.verify_cryptosign_signature(msg.signature, binascii.unhexlify(self._public_key)):
+                    if not auth.verify_cryptosign_signature(
+                        msg.signature, binascii.unhexlify(self._public_key), self._challenge
+                    ):
                         self._state = Acceptor.STATE_ABORTED
                         return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED))
 
diff --git a/wampproto/auth/cryptosign.py b/wampproto/auth/cryptosign.py
index 42418ce..8e8301e 100644
--- a/wampproto/auth/cryptosign.py
+++ b/wampproto/auth/cryptosign.py
@@ -40,14 +40,14 @@ def sign_cryptosign_challenge(challenge: str, private_key: nacl.signing.SigningK
     return private_key.sign(raw_challenge, HexEncoder).signature.decode() + challenge
 
 
-def verify_cryptosign_signature(signature: str, public_key: bytes) -> bool:
+def verify_cryptosign_signature(signature: str, public_key: bytes, challenge: str | None = None) -> bool:
     try:
         verifying_key = nacl.signing.VerifyKey(public_key)
-        verifying_key.verify(binascii.unhexlify(signature))
+        signed = verifying_key.verify(binascii.unhexlify(signature))
     except (BadSignatureError, ValueError):
         return False
 
-    return True
+    return challenge is None or signed == binascii.unhexlify(challenge)
 
 
 def generate_cryptosign_keypair() -> tuple[str, str]:
-- 
2.43.0


From 476b8ac5c0c87d232981daa428c4f2811273541c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:49 +0000
Subject: [PATCH 13/23] fix: an ABORT for failed authentication ends the
 handshake

---
 wampproto/acceptor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index 876ebaf..23b72e9 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -83,6 +83,7 @@ class Acceptor:
                     try:
                         response = self._authenticator.authenticate(request)
                     except Exception as e:
+                        self._state = Acceptor.STATE_ABORTED
                         return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=list(e.args)))
 
                     self._state = Acceptor.STATE_WELCOME_SENT
@@ -106,6 +107,7 @@ class Acceptor:
                     try:
                         self._response = self._authenticator.authenticate(request)
                     except Exception as e:
+                        self._state = Acceptor.STATE_ABORTED
                         return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=list(e.args)))
 
                     self._public_key = public_key
@@ -120,6 +122,7 @@ class Acceptor:
                     try:
                         response = self._authenticator.authenticate(request)
                     except Exception as e:
+                        self._state = Acceptor.STATE_ABORTED
                         return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=list(e.args)))
 
                     if not isinstance(response, auth.WAMPCRAResponse):
@@ -190,6 +193,7 @@ class Acceptor:
                     try:
                         response = self._authenticator.authenticate(request)
                     except Exception as e:
+                        self._state = Acceptor.STATE_ABORTED
                         return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=list(e.args)))
 
                     self._state = Acceptor.STATE_WELCOME_SENT
-- 
2.43.0


From 0850ffcd089732755e977474ed54982bb6cc34b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:51 +0000
Subject: [PATCH 14/23] fix: a cryptosign HELLO without authextra is a
 ValueError

---
 wampproto/acceptor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index 23b72e9..4c1eaf8 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -99,7 +99,7 @@ class Acceptor:
 
                     return welcome
                 case Acceptor.CRYPTOSIGN:
-                    public_key = msg.authextra.get("pubkey")
+                    public_key = (msg.authextra or {}).get("pubkey")
                     if public_key is None:
                         raise ValueError("authextra must contain pubkey for cryptosign")
 
-- 
2.43.0


From 55078261578aff4247d50109ceff3915e61b1654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:53 +0000
Subject: [PATCH 15/23] fix: Acceptor.receive no longer fails on ABORT and
 unexpected messages

---
 wampproto/acceptor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index 4c1eaf8..767fe22 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -47,6 +47,8 @@ class Acceptor:
     def receive(self, data: bytes) -> (bytes, bool):
         received_message = self._serializer.deserialize(data)
         to_send = self.receive_message(received_message)
+        if to_send is None:
+            return None, True
 
         return self._serializer.serialize(to_send), isinstance(to_send, messages.Welcome) or isinstance(
             to_send, messages.Abort
@@ -209,6 +211,8 @@ class Acceptor:
                     return welcome
         elif isinstance(msg, messages.Abort):
             self._state = Acceptor.STATE_ABORTED
+        else:
+            raise ValueError("received unknown message")
 
     def is_aborted(self) -> bool:
         return self._state == Acceptor.STATE_ABORTED
-- 
2.43.0


From db491768ff21afd6201a91414c3e7dd6f5f19be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:54 +0000
Subject: [PATCH 16/23] fix: a progressive RESULT or YIELD leaves the call open

---
 wampproto/session.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/wampproto/session.py b/wampproto/session.py
index 3031ed7..2f2453a 100644
--- a/wampproto/session.py
+++ b/wampproto/session.py
@@ -28,7 +28,8 @@ class WAMPSession:
             if msg.request_id not in self._invocation_requests:
                 raise ValueError("cannot yield for unknown invocation request")
 
-            self._invocation_requests.remove(msg.request_id)
+            if not msg.options.get("progress", False):
+                self._invocation_requests.remove(msg.request_id)
         elif isinstance(msg, messages.Publish):
             if msg.options.get("acknowledge", False):
                 self._publish_requests.add(msg.request_id)
@@ -54,10 +55,11 @@ class WAMPSession:
 
     def receive_message(self, msg: messages.Message) -> messages.Message:
         if isinstance(msg, messages.Result):
-            try:
-                self._call_requests.remove(msg.request_id)
-            except KeyError:
+            if msg.request_id not in self._call_requests:
                 raise ValueError("received RESULT for invalid request_id")
+
+            if not msg.details.get("progress", False):
+                self._call_requests.remove(msg.request_id)
         elif isinstance(msg, messages.Registered):
             try:
                 self._register_requests.remove(msg.request_id)
-- 
2.43.0


From e45cf96c4dc9522b91b3c2a570faa0b430f15103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:56 +0000
Subject: [PATCH 17/23] fix: an ABORT ends the handshake of a Joiner

---
 wampproto/joiner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wampproto/joiner.py b/wampproto/joiner.py
index c84a347..d6473c4 100644
--- a/wampproto/joiner.py
+++ b/wampproto/joiner.py
@@ -71,6 +71,7 @@ class Joiner:
             self._state = Joiner.STATE_AUTHENTICATE_SENT
             return authenticate
         elif isinstance(msg, messages.Abort):
+            self._state = Joiner.STATE_NONE
             raise ApplicationError(msg.reason, msg.args, msg.kwargs)
         else:
             raise ValueError("received unknown message")
-- 
2.43.0


From dca87fd788f59dcc5beb88c3a6d3b9125c9b4db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:21 +0000
Subject: [PATCH 18/23] fix: ApplicationError without args reported its
 constructor arguments as args

---
 wampproto/exception.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/wampproto/exception.py b/wampproto/exception.py
index 9bc7546..7a175bd 100644
--- a/wampproto/exception.py
+++ b/wampproto/exception.py
@@ -3,8 +3,7 @@ from typing import Any
 
 class ApplicationError(RuntimeError):
     def __init__(self, message: str, args: list[Any], kwargs: dict[str, Any]):
-        if args is not None:
-            super().__init__(*args)
+        super().__init__(*(args or []))
         self.message = message
         self._args = args
         self.kwargs = kwargs
-- 
2.43.0


From 6793a730a7f6ff75ed8e167fa7d65c17b5c50deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:55 +0000
Subject: [PATCH 19/23] fix: send salt, iterations and keylen with the WAMP-CRA
 challenge for a salted secret

---
 wampproto/acceptor.py      | 8 +++++++-
 wampproto/auth/__init__.py | 2 ++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index 767fe22..8728bd1 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -139,7 +139,13 @@ class Acceptor:
                     self._state = Acceptor.STATE_CHALLENGE_SENT
                     self._challenge = challenge
 
-                    return messages.Challenge(messages.ChallengeFields(method, {"challenge": challenge}))
+                    extra = {"challenge": challenge}
+                    if isinstance(response, auth.WAMPCRASaltedResponse):
+                        extra["salt"] = response.salt
+                        extra["iterations"] = response.iterations
+                        extra["keylen"] = response.keylen
+
+                    return messages.Challenge(messages.ChallengeFields(method, extra))
                 case Acceptor.TICKET:
                     self._state = Acceptor.STATE_CHALLENGE_SENT
                     return messages.Challenge(messages.ChallengeFields(method, {}))
diff --git a/wampproto/auth/__init__.py b/wampproto/auth/__init__.py
index 18597c3..11d66b9 100644
--- a/wampproto/auth/__init__.py
+++ b/wampproto/auth/__init__.py
@@ -8,6 +8,7 @@ from wampproto.auth.auth import (
     TicketRequest,
     Response,
     WAMPCRAResponse,
+    WAMPCRASaltedResponse,
 )
 from wampproto.auth.anonymous import AnonymousAuthenticator
 from wampproto.auth.cryptosign import (
@@ -38,6 +39,7 @@ __all__ = (
     "TicketRequest",
     "Response",
     "WAMPCRAResponse",
+    "WAMPCRASaltedResponse",
     "generate_cryptosign_challenge",
     "sign_cryptosign_challenge",
     "verify_cryptosign_signature",
-- 
2.43.0


From 190c7fe19f78bc5ecd9ce05aa7a2d501f3743b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:31 +0000
Subject: [PATCH 20/23] fix: announce the payload serializer without writing it
 into the caller's options

---
 wampproto/messages/call.py       | 2 +-
 wampproto/messages/invocation.py | 2 +-
 wampproto/messages/result.py     | 2 +-
 wampproto/messages/yield_.py     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/wampproto/messages/call.py b/wampproto/messages/call.py
index 496044d..8eab000 100644
--- a/wampproto/messages/call.py
+++ b/wampproto/messages/call.py
@@ -125,7 +125,7 @@ class Call(Message):
     @property
     def options(self) -> dict[str, Any]:
         if self.payload_serializer is not None:
-            self._fields.options["x_payload_serializer"] = self._fields.payload_serializer
+            return {**self._fields.options, "x_payload_serializer": self._fields.payload_serializer}
 
         return self._fields.options
 
diff --git a/wampproto/messages/invocation.py b/wampproto/messages/invocation.py
index 43bb418..c4949bf 100644
--- a/wampproto/messages/invocation.py
+++ b/wampproto/messages/invocation.py
@@ -124,7 +124,7 @@ class Invocation(Message):
     @property
     def details(self) -> dict[str, Any]:
         if self.payload_serializer is not None:
-            self._fields.details["x_payload_serializer"] = self._fields.payload_serializer
+            return {**self._fields.details, "x_payload_serializer": self._fields.payload_serializer}
 
         return self._fields.details
 
diff --git a/wampproto/messages/result.py b/wampproto/messages/result.py
index 63d557e..7b117ff 100644
--- a/wampproto/messages/result.py
+++ b/wampproto/messages/result.py
@@ -101,7 +101,7 @@ class Result(Message):
     @property
     def details(self) -> dict[str, Any]:
         if self.payload_serializer is not None:
-            self._fields.details["x_payload_serializer"] = self._fields.payload_serializer
+            return {**self._fields.details, "x_payload_serializer": self._fields.payload_serializer}
 
         return self._fields.details
 
diff --git a/wampproto/messages/yield_.py b/wampproto/messages/yield_.py
index 518d3ed..3ac20e9 100644
--- a/wampproto/messages/yield_.py
+++ b/wampproto/messages/yield_.py
@@ -101,7 +101,7 @@ class Yield(Message):
     @property
     def options(self) -> dict[str, Any]:
         if self.payload_serializer is not None:
-            self._fields.options["x_payload_serializer"] = self._fields.payload_serializer
+            return {**self._fields.options, "x_payload_serializer": self._fields.payload_serializer}
 
         return self._fields.options
 
-- 
2.43.0


From 7b4d6c91f58455f86ab835eec32229dbcb88930f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:32 +0000
Subject: [PATCH 21/23] fix: hand the opaque payload of a CALL or YIELD on
 whole

---
 wampproto/dealer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/wampproto/dealer.py b/wampproto/dealer.py
index 5232cbc..136d9b6 100644
--- a/wampproto/dealer.py
+++ b/wampproto/dealer.py
@@ -108,6 +108,7 @@ class Dealer:
                     details=details,
                     payload=message.payload,
                     serializer=message.payload_serializer,
+                    binary=message.payload_is_binary(),
                 )
             )
 
@@ -131,7 +132,13 @@ class Dealer:
 
             result = messages.Result(
                 messages.ResultFields(
-                    request_id=invocation.request_id, args=message.args, kwargs=message.kwargs, details=details
+                    request_id=invocation.request_id,
+                    args=message.args,
+                    kwargs=message.kwargs,
+                    details=details,
+                    payload=message.payload,
+                    serializer=message.payload_serializer,
+                    binary=message.payload_is_binary(),
                 )
             )
             return types.MessageWithRecipient(result, invocation.caller_id)
-- 
2.43.0


From 30cb28ad70b2d8a1ce32d7477d561519cede12d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:28 +0000
Subject: [PATCH 22/23] fix: a message that can't be serialized is not recorded
 as sent

---
 wampproto/session.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wampproto/session.py b/wampproto/session.py
index 2f2453a..2fc64c7 100644
--- a/wampproto/session.py
+++ b/wampproto/session.py
@@ -18,6 +18,9 @@ class WAMPSession:
         self._unsubscribe_requests: dict[int, int] = {}
 
     def send_message(self, msg: messages.Message) -> bytes:
+        # a message that can't be serialized isn't sent, so nothing may be recorded for it
+        data = self._serializer.serialize(msg)
+
         if isinstance(msg, messages.Call):
             self._call_requests.add(msg.request_id)
         elif isinstance(msg, messages.Register):
@@ -47,7 +50,7 @@ class WAMPSession:
         else:
             raise ValueError(f"unknown message type {type(msg)}")
 
-        return self._serializer.serialize(msg)
+        return data
 
     def receive(self, data: bytes) -> messages.Message:
         msg = self._serializer.deserialize(data)
-- 
2.43.0


From 31ee1f63a452b690b97efafd45bb773a2085c405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:17 +0000
Subject: [PATCH 23/23] fix: a cryptosign client writes its public key into a
 copy of the extra it was given

---
 wampproto/auth/cryptosign.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wampproto/auth/cryptosign.py b/wampproto/auth/cryptosign.py
index 8e8301e..4488ac3 100644
--- a/wampproto/auth/cryptosign.py
+++ b/wampproto/auth/cryptosign.py
@@ -18,7 +18,7 @@ class CryptoSignAuthenticator(auth.IClientAuthenticator):
 
         if "pubkey" not in self._auth_extra:
             public_key = self._private_key.verify_key.encode(HexEncoder).decode()
-            self._auth_extra["pubkey"] = public_key
+            self._auth_extra = {**self._auth_extra, "pubkey": public_key}
 
     def authenticate(self, challenge: messages.Challenge) -> messages.Authenticate:
         challenge_hex = challenge.extra.get("challenge")
-- 
2.43.0

