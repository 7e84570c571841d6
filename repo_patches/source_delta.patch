From 55ce9851c0926f0422467d00d7469fcc4cf7310d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:24 +0000
Subject: [PATCH 01/49] fix: mutating a defaulted list of one message no longer
 changes the class defaults

---
 src/oidcmsg/message.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index f2991ed..ccd783e 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -36,7 +36,7 @@ class Message(MutableMapping):
 
     def __init__(self, set_defaults=True, **kwargs):
         if set_defaults:
-            self._dict = self.c_default.copy()
+            self._dict = copy.deepcopy(self.c_default)
         else:
             self._dict = {}
         self.lax = False
@@ -75,7 +75,8 @@ class Message(MutableMapping):
         Based on specification set a parameters value to the default value.
         """
         for key, val in self.c_default.items():
-            self._dict.setdefault(key, val)
+            if key not in self._dict:
+                self._dict[key] = copy.deepcopy(val)
 
     def to_urlencoded(self, lev=0):
         """
-- 
2.43.0


From 7c35ec64bd7d8fca9690b58a52a9981f8bb2b996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:28 +0000
Subject: [PATCH 02/49] fix: OIDC authorization error codes no longer leak into
 the OAuth2 error response

---
 src/oidcmsg/oidc/__init__.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index e21a7cb..c1dea28 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -390,15 +390,16 @@ class AuthorizationResponse(oauth2.AuthorizationResponse,
 class AuthorizationErrorResponse(oauth2.AuthorizationErrorResponse):
     c_allowed_values = oauth2.AuthorizationErrorResponse.c_allowed_values \
         .copy()
-    c_allowed_values["error"].extend(["interaction_required",
-                                      "login_required",
-                                      "session_selection_required",
-                                      "consent_required",
-                                      "invalid_request_uri",
-                                      "invalid_request_object",
-                                      "registration_not_supported",
-                                      "request_not_supported",
-                                      "request_uri_not_supported"])
+    c_allowed_values["error"] = c_allowed_values["error"] + [
+        "interaction_required",
+        "login_required",
+        "session_selection_required",
+        "consent_required",
+        "invalid_request_uri",
+        "invalid_request_object",
+        "registration_not_supported",
+        "request_not_supported",
+        "request_uri_not_supported"]
 
 
 class AuthorizationRequest(oauth2.AuthorizationRequest):
-- 
2.43.0


From 51b97f49c002c038cf11b0f926e0acb560109441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:31 +0000
Subject: [PATCH 03/49] fix: clock skew widens, not narrows, the not-before
 window of a JWT

---
 src/oidcmsg/oidc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index c1dea28..fe20f3f 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -984,7 +984,7 @@ class JsonWebToken(Message):
         except KeyError:
             pass
         else:
-            if _nbf > (_now - _skew):
+            if _nbf > (_now + _skew):
                 raise EXPError('Not valid yet')
 
         try:
-- 
2.43.0


From 5b414c77e4267601333cc509575c1e3fdce3f8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:35 +0000
Subject: [PATCH 04/49] fix: the exclamation mark is a legal scope character

---
 src/oidcmsg/oidc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index fe20f3f..fb42378 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -227,7 +227,7 @@ for char in ['\x21', ('\x23', '\x5b'), ('\x5d', '\x7E')]:
             SCOPE_CHARSET.append(c)
             c = chr(ord(c) + 1)
     else:
-        SCOPE_CHARSET.append(set)
+        SCOPE_CHARSET.append(char)
 
 
 def check_char_set(string, allowed):
-- 
2.43.0


From 73f234decfb37c7f10e6923160ae4c6324cdca67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:40 +0000
Subject: [PATCH 05/49] fix: error descriptions may contain all characters RFC
 6749 allows

---
 src/oidcmsg/oauth2/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/oauth2/__init__.py b/src/oidcmsg/oauth2/__init__.py
index 30f65b0..687b083 100755
--- a/src/oidcmsg/oauth2/__init__.py
+++ b/src/oidcmsg/oauth2/__init__.py
@@ -1,6 +1,5 @@
 import inspect
 import logging
-import string
 import sys
 
 from oidcmsg import verified_claim_name
@@ -28,7 +27,8 @@ def is_error_message(msg):
         return False
 
 
-error_chars = set(string.ascii_uppercase + string.ascii_lowercase + " " + "!")
+# %x20-21 / %x23-5B / %x5D-7E
+error_chars = set(chr(c) for c in range(0x20, 0x7F)) - set('"\\')
 
 
 class ResponseMessage(Message):
-- 
2.43.0


From d51f3bd7b0095dd9fcaf9bb08362b22bd280dbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:43 +0000
Subject: [PATCH 06/49] fix: proper_path keeps names starting with a dot below
 the current directory

---
 src/oidcmsg/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcmsg/__init__.py b/src/oidcmsg/__init__.py
index 6c54ecc..8cd8ae2 100755
--- a/src/oidcmsg/__init__.py
+++ b/src/oidcmsg/__init__.py
@@ -22,6 +22,8 @@ def proper_path(path):
             path = path[1:]
         if path.startswith("/"):
             path = ".%s" % path
+        else:
+            path = "./%s" % path
     else:
         path = "./%s" % path
 
-- 
2.43.0


From 2f5709b6639538125959a26e33fadb53b2c0f2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:47 +0000
Subject: [PATCH 07/49] fix: add_base_path raised NameError for every relative
 path

---
 src/oidcmsg/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcmsg/__init__.py b/src/oidcmsg/__init__.py
index 8cd8ae2..87ed2c5 100755
--- a/src/oidcmsg/__init__.py
+++ b/src/oidcmsg/__init__.py
@@ -1,3 +1,5 @@
+import os
+
 __author__ = 'Roland Hedberg'
 __version__ = '1.1.3'
 
-- 
2.43.0


From c7582ebaa8d911c4abff3a06d17b290fa5d47534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:51 +0000
Subject: [PATCH 08/49] fix: verify() of device token request and identity
 assurance messages returns True on success

---
 src/oidcmsg/oauth2/device_authorization.py | 2 ++
 src/oidcmsg/oidc/identity_assurance.py     | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/src/oidcmsg/oauth2/device_authorization.py b/src/oidcmsg/oauth2/device_authorization.py
index 4cb4e4f..c8a1aad 100644
--- a/src/oidcmsg/oauth2/device_authorization.py
+++ b/src/oidcmsg/oauth2/device_authorization.py
@@ -34,3 +34,5 @@ class AccessTokenRequest(oidc.AccessTokenRequest):
             for claim in ["grant_type", "client_id"]:
                 if claim not in self:
                     raise MissingRequiredAttribute(claim)
+
+        return True
diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index cff6eb2..b222b10 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -256,6 +256,8 @@ class Evidence(Message):
             else:
                 raise ValueError("Unknown object")
 
+        return True
+
 
 def evidence_deser(val, sformat="urlencoded"):
     return deserialize_from_one_of(val, Evidence, sformat)
@@ -481,6 +483,7 @@ class VerificationElementRequest(Message):
     def verify(self, **kwargs):
         super(VerificationElementRequest, self).verify(**kwargs)
         verify_claims_request(self, VerificationElement())
+        return True
 
 
 def verification_element_request_deser(val, sformat="urlencoded"):
@@ -500,6 +503,7 @@ class VerifiedClaimsRequest(Message):
     def verify(self, **kwargs):
         super(VerifiedClaimsRequest, self).verify(**kwargs)
         verify_claims_request(self, VerifiedClaims())
+        return True
 
 
 class IDAClaimsRequest(ClaimsRequest):
@@ -511,6 +515,8 @@ class IDAClaimsRequest(ClaimsRequest):
             _vci.verify()
             self["verified_claims"] = _vci
 
+        return True
+
 
 class ClaimsConstructor:
     def __init__(self, base_class=Message):
-- 
2.43.0


From bcab799827e0ab69e4ac0c71681aabe40c157c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:16 +0000
Subject: [PATCH 09/49] fix: verifying typed identity evidence no longer
 recurses forever, untyped evidence is recognised

---
 src/oidcmsg/oidc/identity_assurance.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index b222b10..ecf0b78 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -231,27 +231,27 @@ class Evidence(Message):
         if _type:
             if _type == "id_document":
                 _doc = IdDocument(**self.to_dict())
-                _doc.verify(**kwargs)
+                Message.verify(_doc, **kwargs)
             elif _type == "utility_bill":
                 _bill = UtilityBill(**self.to_dict())
-                _bill.verify(**kwargs)
+                Message.verify(_bill, **kwargs)
             elif _type == "qes":
                 _qes = QES(**self.to_dict())
-                _qes.verify(**kwargs)
+                Message.verify(_qes, **kwargs)
             else:
                 raise ValueError("Unknown type")
         else:  # let the guessing begin
-            if all(x in self.keys() for x in IdDocument.c_param.keys()):
+            if all(x in self.keys() for x in IdDocument.c_param.keys() if x != "type"):
                 _doc = IdDocument(**self.to_dict())
-                _doc.verify(**kwargs)
+                Message.verify(_doc, **kwargs)
                 self["type"] = "id_document"
-            elif all(x in self.keys() for x in UtilityBill.c_param.keys()):
+            elif all(x in self.keys() for x in UtilityBill.c_param.keys() if x != "type"):
                 _bill = UtilityBill(**self.to_dict())
-                _bill.verify(**kwargs)
+                Message.verify(_bill, **kwargs)
                 self["type"] = "utility_bill"
-            elif all(x in self.keys() for x in QES.c_param.keys()):
+            elif all(x in self.keys() for x in QES.c_param.keys() if x != "type"):
                 _qes = QES(**self.to_dict())
-                _qes.verify(**kwargs)
+                Message.verify(_qes, **kwargs)
                 self["type"] = "qes"
             else:
                 raise ValueError("Unknown object")
-- 
2.43.0


From 92a239cf17b59fc850063a2aff9f656538635210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:20 +0000
Subject: [PATCH 10/49] fix: messages with ISO 8601 time stamps can be
 serialised

---
 src/oidcmsg/oidc/identity_assurance.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index ecf0b78..cf4e155 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -107,7 +107,10 @@ def time_stamp_ser(val, sformat="", lev=0):
     elif isinstance(val, float):
         return to_iso8601_2004_time(int(val))
     elif isinstance(val, str):
-        return to_iso8601_2004_time(int(val))
+        try:
+            return to_iso8601_2004_time(int(val))
+        except ValueError:  # already in the right format
+            return val
     else:
         raise ValueError("Wrong type of value")
 
@@ -132,7 +135,10 @@ def date_ser(val, sformat="", lev=0):
     elif isinstance(val, float):
         return to_iso8601_2004_date(int(val))
     elif isinstance(val, str):
-        return to_iso8601_2004_date(int(val))
+        try:
+            return to_iso8601_2004_date(int(val))
+        except ValueError:  # already in the right format
+            return val
     else:
         raise ValueError("Wrong type of value")
 
-- 
2.43.0


From a60d71a0f9dd49eac722ae5ee846cb26b496ed3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:24 +0000
Subject: [PATCH 11/49] fix: ISO 8601 time stamps denote the instant they were
 made from, in any time zone

---
 src/oidcmsg/oidc/identity_assurance.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index cf4e155..568199b 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -51,16 +51,13 @@ TIME_FORMAT = "%Y-%m-%dT%H:%M:%S%z"
 DATE_FORMAT = "%Y-%m-%d"
 
 
-def to_iso8601_2004(val=0, format=TIME_FORMAT):
+def to_iso8601_2004(val=None, format=TIME_FORMAT):
     """
     :param val: integer/float/datetime.datetime
     :return: A string following the DATE_FORMAT format
     """
 
-    # Finds the local time zone
-    ltz = datetime.datetime.utcnow().astimezone().tzinfo
-
-    if val:
+    if val is not None:
         if isinstance(val, datetime.datetime):
             d = val
         elif isinstance(val, (int, float)):
@@ -70,7 +67,8 @@ def to_iso8601_2004(val=0, format=TIME_FORMAT):
     else:
         d = datetime.datetime.now()
 
-    return d.replace(tzinfo=ltz).strftime(format)
+    # In the local time zone, with the UTC offset valid at that point in time
+    return d.astimezone().strftime(format)
 
 
 def from_iso8601_2004(isotime, format=TIME_FORMAT):
@@ -82,11 +80,11 @@ def from_iso8601_2004(isotime, format=TIME_FORMAT):
     return d.timestamp()
 
 
-def to_iso8601_2004_time(val=0):
+def to_iso8601_2004_time(val=None):
     return to_iso8601_2004(val, format=TIME_FORMAT)
 
 
-def to_iso8601_2004_date(val=0):
+def to_iso8601_2004_date(val=None):
     return to_iso8601_2004(val, format=DATE_FORMAT)
 
 
-- 
2.43.0


From b4b7b0bd0b31e8db4f0fd2fcb18f97fa1bdd32de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:46 +0000
Subject: [PATCH 12/49] fix: integer and boolean parameters of URL-encoded
 messages get the declared type

---
 src/oidcmsg/message.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index ccd783e..9d5b5aa 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -225,8 +225,17 @@ class Message(MutableMapping):
                 if len(val) == 1:
                     if _deser:
                         self._dict[key] = _deser(val[0], "urlencoded")
-                    elif isinstance(val[0], typ):
-                        self._dict[key] = val[0]
+                    elif typ is int:
+                        try:
+                            self._dict[key] = int(val[0])
+                        except ValueError:
+                            raise ValueError('"{}", wrong type of value for "{}"'.format(
+                                val[0], key))
+                    elif typ is bool:
+                        if val[0].lower() not in ("true", "false"):
+                            raise ValueError('"{}", wrong type of value for "{}"'.format(
+                                val[0], key))
+                        self._dict[key] = val[0].lower() == "true"
                     else:
                         self._dict[key] = val[0]
                 else:
-- 
2.43.0


From 19412eb41cddf0abf681c33aa04bf470e8256a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:23 +0000
Subject: [PATCH 13/49] fix: parameters declared as JSON objects never hold
 anything else

---
 src/oidcmsg/message.py       | 5 ++++-
 src/oidcmsg/oidc/__init__.py | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index 9d5b5aa..6203216 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -910,7 +910,10 @@ def json_serializer(obj, sformat="urlencoded", lev=0):
 
 
 def json_deserializer(txt, sformat="urlencoded"):
-    return json.loads(txt)
+    res = json.loads(txt)
+    if not isinstance(res, dict):
+        raise ValueError("Expected a JSON object: %s" % txt)
+    return res
 
 
 def msg_deser(val, sformat="urlencoded"):
diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index fb42378..8517564 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -37,6 +37,7 @@ from oidcmsg.message import SINGLE_OPTIONAL_JSON
 from oidcmsg.message import SINGLE_OPTIONAL_STRING
 from oidcmsg.message import SINGLE_REQUIRED_STRING
 from oidcmsg.message import Message
+from oidcmsg.message import json_deserializer
 from oidcmsg.message import msg_ser
 from oidcmsg.oauth2 import ResponseMessage
 from oidcmsg.time_util import utc_time_sans_frac
@@ -214,7 +215,7 @@ SINGLE_OPTIONAL_REGISTRATION_REQUEST = (Message, False, msg_ser,
 SINGLE_OPTIONAL_CLAIMSREQ = (Message, False, msg_ser_json, claims_request_deser,
                              False)
 
-SINGLE_OPTIONAL_DICT = (dict, False, msg_ser_json, dict_deser, False)
+SINGLE_OPTIONAL_DICT = (dict, False, msg_ser_json, json_deserializer, False)
 
 # ----------------------------------------------------------------------------
 
-- 
2.43.0


From d91b3e1514efa12a2e1d217aec461ab446e9381d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:27 +0000
Subject: [PATCH 14/49] fix: a JSON object given for a list parameter is
 refused or becomes a one element list

---
 src/oidcmsg/message.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index 6203216..44e2fc6 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -394,8 +394,14 @@ class Message(MutableMapping):
                     val = _deser(val, sformat="dict")
                 except Exception as exc:
                     raise DecodeError(ERRTXT % (key, exc))
-                else:
-                    self._dict[skey] = val
+
+                if not isinstance(val, list):
+                    val = [val]
+                for v in val:
+                    if not isinstance(v, (vtype, Message)):
+                        raise DecodeError(
+                            ERRTXT % (key, "type != %s (%s)" % (vtype, type(v))))
+                self._dict[skey] = val
             else:
                 raise DecodeError(ERRTXT % (key, "type != %s" % vtype))
         else:
-- 
2.43.0


From 5162f269e3ee4c3ab3d8fecade4ca5f7326f29e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:58 +0000
Subject: [PATCH 15/49] fix: a single JRD link is always kept in a list

---
 src/oidcmsg/oidc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 8517564..bd68bf2 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -1071,7 +1071,7 @@ def link_deser(val, sformat="urlencoded"):
     if isinstance(val, list):
         return [_l_deser(v, sformat) for v in val]
     else:
-        return _l_deser(val, sformat)
+        return [_l_deser(val, sformat)]
 
 
 def link_ser(inst, sformat, lev=0):
-- 
2.43.0


From 83630ca702a05433ec117b58ce12fe8d3b0996ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:02 +0000
Subject: [PATCH 16/49] fix: a verified request object supplied by the sender
 is always dropped

---
 src/oidcmsg/oauth2/__init__.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/oidcmsg/oauth2/__init__.py b/src/oidcmsg/oauth2/__init__.py
index 687b083..9254ad8 100755
--- a/src/oidcmsg/oauth2/__init__.py
+++ b/src/oidcmsg/oauth2/__init__.py
@@ -329,11 +329,11 @@ class JWTSecuredAuthorizationRequest(AuthorizationRequest):
     })
 
     def verify(self, **kwargs):
-        if "request" in self:
-            _vc_name = verified_claim_name("request")
-            if _vc_name in self:
-                del self[_vc_name]
+        _vc_name = verified_claim_name("request")
+        if _vc_name in self:
+            del self[_vc_name]
 
+        if "request" in self:
             args = {}
             for arg in ["keyjar", "opponent_id", "sender", "alg", "encalg",
                         "encenc"]:
@@ -358,11 +358,11 @@ class PushedAuthorizationRequest(AuthorizationRequest):
     })
 
     def verify(self, **kwargs):
-        if "request" in self:
-            _vc_name = verified_claim_name("request")
-            if _vc_name in self:
-                del self[_vc_name]
+        _vc_name = verified_claim_name("request")
+        if _vc_name in self:
+            del self[_vc_name]
 
+        if "request" in self:
             args = {}
             for arg in ["keyjar", "opponent_id", "sender", "alg", "encalg",
                         "encenc"]:
-- 
2.43.0


From 10044ea0b6f5e8b6a517b39faf63a63b285f2e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:20 +0000
Subject: [PATCH 17/49] fix: only verification provides the verified ID Token
 hint of an authorization request

---
 src/oidcmsg/oidc/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index bd68bf2..17885df 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -475,14 +475,18 @@ class AuthorizationRequest(oauth2.AuthorizationRequest):
                         del self[key]
 
                 self.update(oidr)
+                # The request object must not provide verified claims
+                clear_verified_claims(self)
 
                 # replace the JWT with the parsed and verified instance
                 self[verified_claim_name("request")] = oidr
 
+        self._dict.pop("verified_id_token_hint", None)
         if "id_token_hint" in self:
             if isinstance(self["id_token_hint"], str):
                 idt = IdToken().from_jwt(str(self["id_token_hint"]), **args)
                 self["verified_id_token_hint"] = idt
+                self[verified_claim_name("id_token_hint")] = idt
 
         if "response_type" not in self:
             raise MissingRequiredAttribute("response_type missing", self)
-- 
2.43.0


From 58a87e72561227fba825a79346d5f82141b641da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:24 +0000
Subject: [PATCH 18/49] fix: the effective authorization request is checked
 when a request object is used

---
 src/oidcmsg/oidc/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 17885df..a1e67e1 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -481,6 +481,9 @@ class AuthorizationRequest(oauth2.AuthorizationRequest):
                 # replace the JWT with the parsed and verified instance
                 self[verified_claim_name("request")] = oidr
 
+                # The effective request must also be complete and correct
+                super(AuthorizationRequest, self).verify(**kwargs)
+
         self._dict.pop("verified_id_token_hint", None)
         if "id_token_hint" in self:
             if isinstance(self["id_token_hint"], str):
-- 
2.43.0


From 9355b5c7ec6f2c5b7c66e2495e498d31ab739294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:40 +0000
Subject: [PATCH 19/49] fix: JWT secured and pushed authorization requests are
 checked for completeness

---
 src/oidcmsg/oauth2/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oidcmsg/oauth2/__init__.py b/src/oidcmsg/oauth2/__init__.py
index 9254ad8..14d0d4e 100755
--- a/src/oidcmsg/oauth2/__init__.py
+++ b/src/oidcmsg/oauth2/__init__.py
@@ -345,6 +345,8 @@ class JWTSecuredAuthorizationRequest(AuthorizationRequest):
             _req = AuthorizationRequest().from_jwt(str(self["request"]), **args)
             self.merge(_req, 'strict')
             self[_vc_name] = _req
+            # The effective request must be complete
+            super(JWTSecuredAuthorizationRequest, self).verify(**kwargs)
         elif "request_uri" not in self:
             raise MissingAttribute("One of request or request_uri must be present")
 
@@ -375,6 +377,8 @@ class PushedAuthorizationRequest(AuthorizationRequest):
             self.merge(_req, "lax")
             self[_vc_name] = _req
 
+        # The effective request must be complete
+        super(PushedAuthorizationRequest, self).verify(**kwargs)
         return True
 
 
-- 
2.43.0


From 23dfcbc436ff55eed28f5b26d0b3a1b9846354b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:43 +0000
Subject: [PATCH 20/49] fix: an unsigned ID Token hint in an authorization
 request is refused unless allowed

---
 src/oidcmsg/oidc/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index a1e67e1..4ec7d83 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -488,6 +488,10 @@ class AuthorizationRequest(oauth2.AuthorizationRequest):
         if "id_token_hint" in self:
             if isinstance(self["id_token_hint"], str):
                 idt = IdToken().from_jwt(str(self["id_token_hint"]), **args)
+                if not idt.jws_header:
+                    raise ValueError('id_token_hint not a signed JWT')
+                if idt.jws_header['alg'] == 'none' and not kwargs.get('allow_sign_alg_none'):
+                    raise UnsupportedAlgorithm('Signing algorithm None not allowed')
                 self["verified_id_token_hint"] = idt
                 self[verified_claim_name("id_token_hint")] = idt
 
-- 
2.43.0


From d70dd73d00c2b4ecb3645faf1a04c618ee29599c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:46 +0000
Subject: [PATCH 21/49] fix: an unsigned logout token is refused unless allowed

---
 src/oidcmsg/oidc/session.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/oidcmsg/oidc/session.py b/src/oidcmsg/oidc/session.py
index 7a9550a..480e3f7 100644
--- a/src/oidcmsg/oidc/session.py
+++ b/src/oidcmsg/oidc/session.py
@@ -177,6 +177,11 @@ class BackChannelLogoutRequest(Message):
             except KeyError:
                 pass
         idt = LogoutToken().from_jwt(str(self["logout_token"]), **args)
+        if not idt.jws_header:
+            raise ValueError('logout_token not a signed JWT')
+        if idt.jws_header['alg'] == 'none':
+            if kwargs.get("sigalg") != "none" and not kwargs.get('allow_sign_alg_none'):
+                raise UnsupportedAlgorithm('Signing algorithm None not allowed')
         if not idt.verify(**kwargs):
             return False
 
-- 
2.43.0


From 833c4cd5600e801e5b16d22f2a22421c4fa66675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:06 +0000
Subject: [PATCH 22/49] fix: deleting a key removes the file that belongs to
 the key

---
 src/oidcmsg/storage/abfile.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index 248b99b..49fc437 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -126,16 +126,28 @@ class AbstractFileSystem(Storage):
         self.fmtime[_key] = self.get_mtime(fname)
 
     def __delitem__(self, key):
-        fname = os.path.join(self.fdir, key)
+        self._remove(self.key_conv.serialize(key))
+
+    def _remove(self, item):
+        """
+        Remove a file and everything that is known about it.
+
+        :param item: File name
+        """
+        fname = os.path.join(self.fdir, item)
         if os.path.isfile(fname):
             lock = FileLock('{}.lock'.format(fname))
             with lock:
-                os.unlink(fname)
+                try:
+                    os.unlink(fname)
+                except FileNotFoundError:  # someone else did it
+                    pass
 
-        try:
-            del self.storage[key]
-        except KeyError:
-            pass
+        self._forget(item)
+
+    def _forget(self, item):
+        self.storage.pop(item, None)
+        self.fmtime.pop(item, None)
 
     def keys(self):
         """
@@ -249,7 +261,8 @@ class AbstractFileSystem(Storage):
             return
 
         for f in os.listdir(self.fdir):
-            del self[f]
+            if not f.endswith('.lock'):
+                self._remove(f)
 
     def update(self, ava):
         """
-- 
2.43.0


From 6f0fc848887da6b10b61dfafd6671614d41ed4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:10 +0000
Subject: [PATCH 23/49] fix: failed or interrupted writes leave the stored
 value intact

---
 src/oidcmsg/storage/abfile.py | 37 ++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index 49fc437..e433335 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -1,6 +1,7 @@
 import logging
 import os
 import time
+import uuid
 
 from filelock import FileLock
 
@@ -115,15 +116,41 @@ class AbstractFileSystem(Storage):
         except KeyError:
             _key = key
 
+        _value = self.value_conv.serialize(value)
+
         fname = os.path.join(self.fdir, _key)
         lock = FileLock('{}.lock'.format(fname))
         with lock:
-            with open(fname, 'w') as fp:
-                fp.write(self.value_conv.serialize(value))
-
-        self.storage[_key] = value
+            self._write(fname, _value)
+            self.storage[_key] = value
+            self.fmtime[_key] = self.get_mtime(fname)
         logger.debug('Wrote to "%s"', key)
-        self.fmtime[_key] = self.get_mtime(fname)
+
+    def _write(self, fname, info):
+        """
+        Set the content of a file. An interrupted or failed write never leaves
+        the file with partial content. Must be called with the file locked.
+
+        :param fname: File name
+        :param info: The content
+        """
+        # Files ending with .lock are never regarded as values
+        tmp = os.path.join(self.fdir, '{}.lock'.format(uuid.uuid4().hex))
+        try:
+            with open(tmp, 'w') as fp:
+                fp.write(info)
+
+            # Every version of a value has a modification time of its own
+            mtime = time.time_ns()
+            if os.path.isfile(fname):
+                mtime = max(mtime, self.get_mtime(fname) + 1)
+            os.utime(tmp, ns=(mtime, mtime))
+
+            os.replace(tmp, fname)
+        except BaseException:
+            if os.path.isfile(tmp):
+                os.unlink(tmp)
+            raise
 
     def __delitem__(self, key):
         self._remove(self.key_conv.serialize(key))
-- 
2.43.0


From 7fa99e92e6d60e50f47cc78cf57090a4024d29fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:13 +0000
Subject: [PATCH 24/49] fix: reading a value while it is removed or replaced by
 garbage reports that

---
 src/oidcmsg/storage/abfile.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index e433335..d0eed4d 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -92,7 +92,11 @@ class AbstractFileSystem(Storage):
         if self.is_changed(item):
             logger.info("File content change in {}".format(item))
             fname = os.path.join(self.fdir, item)
-            self.storage[item] = self._read_info(fname)
+            try:
+                self.storage[item] = self._read_info(fname)
+            except Exception:
+                self._forget(item)
+                raise
 
         logger.debug('Read from "%s"', item)
         return self.storage[item]
@@ -211,7 +215,10 @@ class AbstractFileSystem(Storage):
         """
         fname = os.path.join(self.fdir, item)
         if os.path.isfile(fname):
-            mtime = self.get_mtime(fname)
+            try:
+                mtime = self.get_mtime(fname)
+            except FileNotFoundError:  # removed a moment ago
+                raise KeyError(item)
 
             try:
                 _ftime = self.fmtime[item]
@@ -229,18 +236,18 @@ class AbstractFileSystem(Storage):
             raise KeyError(item)
 
     def _read_info(self, fname):
-        if os.path.isfile(fname):
-            try:
-                lock = FileLock('{}.lock'.format(fname))
-                with lock:
-                    info = open(fname, 'r').read().strip()
-                return self.value_conv.deserialize(info)
-            except Exception as err:
-                logger.error(err)
-                raise
-        else:
+        try:
+            lock = FileLock('{}.lock'.format(fname))
+            with lock:
+                with open(fname, 'r') as fp:
+                    info = fp.read().strip()
+            return self.value_conv.deserialize(info)
+        except FileNotFoundError:
             logger.error('No such file: {}'.format(fname))
-        return None
+            raise KeyError(os.path.basename(fname))
+        except Exception as err:
+            logger.error(err)
+            raise
 
     def synch(self):
         """
-- 
2.43.0


From d1989e860edd06d5a148a6256cf01e3dd7b4dcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:17 +0000
Subject: [PATCH 25/49] fix: keys removed by another instance, or with bad
 content, disappear from the listings

---
 src/oidcmsg/storage/abfile.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index d0eed4d..fee47ba 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -257,6 +257,7 @@ class AbstractFileSystem(Storage):
         if not os.path.isdir(self.fdir):
             os.makedirs(self.fdir)
             # raise ValueError('No such directory: {}'.format(self.fdir))
+        found = set()
         for f in os.listdir(self.fdir):
             fname = os.path.join(self.fdir, f)
 
@@ -265,17 +266,18 @@ class AbstractFileSystem(Storage):
             if fname.endswith('.lock'):
                 continue
 
-            if f in self.fmtime:
+            try:
                 if self.is_changed(f):
                     self.storage[f] = self._read_info(fname)
+            except Exception as err:
+                logger.warning('Bad content in {} ({})'.format(fname, err))
             else:
-                mtime = self.get_mtime(fname)
-                try:
-                    self.storage[f] = self._read_info(fname)
-                except Exception as err:
-                    logger.warning('Bad content in {} ({})'.format(fname, err))
-                else:
-                    self.fmtime[f] = mtime
+                found.add(f)
+
+        # Those that has been removed, or is no longer readable
+        for f in list(self.storage.keys()) + list(self.fmtime.keys()):
+            if f not in found:
+                self._forget(f)
 
     def items(self):
         """
-- 
2.43.0


From 5e8848ecb34a8d21e31ab047bbb14913b394573a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:21 +0000
Subject: [PATCH 26/49] fix: membership test and call see what other instances
 have done

---
 src/oidcmsg/storage/abfile.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index fee47ba..ffadd4b 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -311,13 +311,16 @@ class AbstractFileSystem(Storage):
             self[key] = val
 
     def __contains__(self, item):
-        return self.key_conv.serialize(item) in self.storage
+        _key = self.key_conv.serialize(item)
+        if _key.endswith('.lock'):
+            return False
+        return os.path.isfile(os.path.join(self.fdir, _key))
 
     def __iter__(self):
         return self.items()
 
     def __call__(self, *args, **kwargs):
-        return [self.key_conv.deserialize(k) for k in self.storage.keys()]
+        return list(self.keys())
 
     def __len__(self):
         if not os.path.isdir(self.fdir):
-- 
2.43.0


From 7a99680fcf52514100b280c7f44eea853d01c9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:51 +0000
Subject: [PATCH 27/49] fix: white space around and line endings in stored
 values are kept

---
 src/oidcmsg/storage/abfile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index ffadd4b..dd5e40e 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -141,7 +141,7 @@ class AbstractFileSystem(Storage):
         # Files ending with .lock are never regarded as values
         tmp = os.path.join(self.fdir, '{}.lock'.format(uuid.uuid4().hex))
         try:
-            with open(tmp, 'w') as fp:
+            with open(tmp, 'w', newline='') as fp:
                 fp.write(info)
 
             # Every version of a value has a modification time of its own
@@ -226,7 +226,7 @@ class AbstractFileSystem(Storage):
                 self.fmtime[item] = mtime
                 return True
 
-            if mtime > _ftime:  # has changed
+            if mtime != _ftime:  # has changed
                 self.fmtime[item] = mtime
                 return True
             else:
@@ -239,8 +239,8 @@ class AbstractFileSystem(Storage):
         try:
             lock = FileLock('{}.lock'.format(fname))
             with lock:
-                with open(fname, 'r') as fp:
-                    info = fp.read().strip()
+                with open(fname, 'r', newline='') as fp:
+                    info = fp.read()
             return self.value_conv.deserialize(info)
         except FileNotFoundError:
             logger.error('No such file: {}'.format(fname))
-- 
2.43.0


From 18ba9e2161d7d6e6bcf0bc9b11ccf65eb84c8c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:54 +0000
Subject: [PATCH 28/49] fix: two instances can create the same directory at the
 same time

---
 src/oidcmsg/storage/abfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index dd5e40e..b4dc5c0 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -70,7 +70,7 @@ class AbstractFileSystem(Storage):
             self.value_conv = PassThru()
 
         if not os.path.isdir(self.fdir):
-            os.makedirs(self.fdir)
+            os.makedirs(self.fdir, exist_ok=True)
 
         self.synch()
 
@@ -255,7 +255,7 @@ class AbstractFileSystem(Storage):
         the content of the directory.
         """
         if not os.path.isdir(self.fdir):
-            os.makedirs(self.fdir)
+            os.makedirs(self.fdir, exist_ok=True)
             # raise ValueError('No such directory: {}'.format(self.fdir))
         found = set()
         for f in os.listdir(self.fdir):
-- 
2.43.0


From 64bbf1f4e3e219d3006f1e7611bc5c2ab717e633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:58 +0000
Subject: [PATCH 29/49] fix: update, length and iteration of labelled storage
 work

---
 src/oidcmsg/storage/abfile.py    | 20 +++-----------------
 src/oidcmsg/storage/extension.py |  6 +++---
 2 files changed, 6 insertions(+), 20 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index b4dc5c0..8b7faf7 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -358,9 +358,9 @@ class LabeledAbstractFileSystem(Storage):
     def get(self, k, default=None):
         return self.storage.get(k, default)
 
-    @key_label
     def update(self, ava):
-        return self.storage.update(ava)
+        for key, val in ava.items():
+            self[key] = val
 
     @key_label
     def __getitem__(self, k):
@@ -392,18 +392,4 @@ class LabeledAbstractFileSystem(Storage):
                 yield key[len(self.label):], val
 
     def __len__(self):
-        if not os.path.isdir(self.storage.fdir):
-            return 0
-
-        n = 0
-        for f in os.listdir(self.storage.fdir):
-            if f.startswith(self.label):
-                fname = os.path.join(self.storage.fdir, f)
-
-                if not os.path.isfile(fname):
-                    continue
-                if fname.endswith('.lock'):
-                    continue
-
-                n += 1
-        return n
+        return len(self.keys())
diff --git a/src/oidcmsg/storage/extension.py b/src/oidcmsg/storage/extension.py
index 5554688..a29d7f6 100644
--- a/src/oidcmsg/storage/extension.py
+++ b/src/oidcmsg/storage/extension.py
@@ -35,9 +35,9 @@ class LabeledDict():
     def get(self, k, default=None):
         return self.storage.get(k, default)
 
-    @key_label
     def update(self, ava):
-        return self.storage.update(ava)
+        for key, val in ava.items():
+            self[key] = val
 
     @key_label
     def __getitem__(self, k):
@@ -60,7 +60,7 @@ class LabeledDict():
         return self.storage.__contains__(k)
 
     def __iter__(self):
-        for key, val in self.storage.__iter__():
+        for key, val in self.storage.items():
             if key.startswith(self.label):
                 yield key[self.label_len:], val
 
-- 
2.43.0


From 30f9f770360d27919e10917a135acba7b0981f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:02 +0000
Subject: [PATCH 30/49] fix: SQL storage: deletions are committed, failures
 rolled back, membership is about keys

---
 src/oidcmsg/storage/absqlalchemy.py | 33 +++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/oidcmsg/storage/absqlalchemy.py b/src/oidcmsg/storage/absqlalchemy.py
index 9314ab8..a173c55 100644
--- a/src/oidcmsg/storage/absqlalchemy.py
+++ b/src/oidcmsg/storage/absqlalchemy.py
@@ -24,11 +24,15 @@ class AbstractStorageSQLAlchemy:
         return entry.data
 
     def set(self, k, v):
-        self.delete(k)
         ins = self.table.insert().values(owner=k,
                                          data=v)
-        self.session.execute(ins)
-        self.session.commit()
+        try:
+            self._delete(k)
+            self.session.execute(ins)
+            self.session.commit()
+        except Exception:
+            self.session.rollback()
+            raise
         return 1
 
     def update(self, k, v):
@@ -39,29 +43,40 @@ class AbstractStorageSQLAlchemy:
         upquery = self.table.update(). \
             where(self.table.c.owner == k). \
             values(**{'data': v})
-        self.session.execute(upquery)
-        self.session.commit()
+        try:
+            self.session.execute(upquery)
+            self.session.commit()
+        except Exception:
+            self.session.rollback()
+            raise
         return 1
 
     def delete(self, v):
         """
         return the count of deleted objects
         """
+        try:
+            n_entries = self._delete(v)
+            self.session.commit()
+        except Exception:
+            self.session.rollback()
+            raise
+        return n_entries
+
+    def _delete(self, v):
         delquery = self.table.delete().where(self.table.c.owner == v)
         n_entries = self.session.query(self.table).filter(self.table.c.owner == v).count()
         self.session.execute(delquery)
         return n_entries
 
     def __contains__(self, k):
-        for entry in self():
-            if k in entry:
-                return 1
+        return self.get(k) is not None
 
     def __call__(self):
         return self.session.query(self.table).all()
 
     def __iter__(self):
-        return self.session.query(self.table)
+        return iter(self.session.query(self.table))
 
     def __str__(self):
         entries = []
-- 
2.43.0


From 91ff1c2e8ac6292b7f435df53115ffb79c4ea010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:46 +0000
Subject: [PATCH 31/49] fix: keys that look like lock files or directory
 references can be stored

---
 src/oidcmsg/storage/converter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/oidcmsg/storage/converter.py b/src/oidcmsg/storage/converter.py
index 018d03d..7f36772 100644
--- a/src/oidcmsg/storage/converter.py
+++ b/src/oidcmsg/storage/converter.py
@@ -5,7 +5,12 @@ from urllib.parse import unquote_plus
 
 class QPKey:
     def serialize(self, str):
-        return quote_plus(str)
+        res = quote_plus(str)
+        if res in ('.', '..') or res.endswith('.lock'):
+            # Names the file system or the file locking have other uses for
+            head, _, tail = res.rpartition('.')
+            res = '{}%2E{}'.format(head, tail)
+        return res
 
     def deserialize(self, str):
         return unquote_plus(str)
-- 
2.43.0


From 48d2d1294150bba222a8fb48874d03c26cc6ad1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:50 +0000
Subject: [PATCH 32/49] fix: merging a request object with an empty whitelist
 keeps nothing from outside

---
 src/oidcmsg/oauth2/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/oauth2/__init__.py b/src/oidcmsg/oauth2/__init__.py
index 14d0d4e..ed6f3ab 100755
--- a/src/oidcmsg/oauth2/__init__.py
+++ b/src/oidcmsg/oauth2/__init__.py
@@ -127,10 +127,10 @@ class AuthorizationRequest(Message):
                     del self[param]
         elif treatement == "lax":
             pass
-        elif treatement == "whitelist" and whitelist:
+        elif treatement == "whitelist":
             params = list(self.keys())
             for param in params:
-                if param not in whitelist:
+                if param not in (whitelist or []):
                     del self[param]
 
         self.update(request_object)
-- 
2.43.0


From 2b8ba030ab51ac5982bd5bbe64722cbf78987081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:33 +0000
Subject: [PATCH 33/49] fix: evidence can be given as Evidence instances

---
 src/oidcmsg/oidc/identity_assurance.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index 568199b..5aca79e 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -264,6 +264,8 @@ class Evidence(Message):
 
 
 def evidence_deser(val, sformat="urlencoded"):
+    if isinstance(val, Message):
+        return val
     return deserialize_from_one_of(val, Evidence, sformat)
 
 
-- 
2.43.0


From 17f3598fe5e5ae9c17cd06c21bdd8a98dda06636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:54 +0000
Subject: [PATCH 34/49] fix: a specific kind of evidence must have the
 attributes that kind requires

---
 src/oidcmsg/oidc/identity_assurance.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index 5aca79e..b1ff5c9 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -231,6 +231,7 @@ class Evidence(Message):
     }
 
     def verify(self, **kwargs):
+        super(Evidence, self).verify(**kwargs)
         _type = self.get("type")
         if _type:
             if _type == "id_document":
-- 
2.43.0


From a6aebdf79347a71f42bad1d67a2c5a0abeffc253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:20 +0000
Subject: [PATCH 35/49] fix: a required boolean parameter must have a value

---
 src/oidcmsg/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index 44e2fc6..3dd05a8 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -623,7 +623,7 @@ class Message(MutableMapping):
                     raise MissingRequiredAttribute("%s" % attribute)
                 continue
             else:
-                if typ == bool:
+                if typ == bool and isinstance(val, bool):
                     pass
                 elif not val:
                     if required:
-- 
2.43.0


From 689e2ad1c391a64f6f488b5ce1c01094613e1be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:09 +0000
Subject: [PATCH 36/49] fix: a single audience value of an authorization
 response is not a pattern

---
 src/oidcmsg/oidc/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 4ec7d83..7243bd0 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -378,7 +378,10 @@ class AuthorizationResponse(oauth2.AuthorizationResponse,
         if "aud" in self:
             if "client_id" in kwargs:
                 # check that it's for me
-                if kwargs["client_id"] not in self["aud"]:
+                _aud = self["aud"]
+                if isinstance(_aud, str):
+                    _aud = [_aud]
+                if kwargs["client_id"] not in _aud:
                     return False
 
         if "id_token" in self:
-- 
2.43.0


From ed5e493847d7c7651cade643296573eb5b22c028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:13 +0000
Subject: [PATCH 37/49] fix: a request object must be issued by the client it
 is for or the named opponent

---
 src/oidcmsg/oauth2/__init__.py | 14 ++++++++++++++
 src/oidcmsg/oidc/__init__.py   |  1 +
 2 files changed, 15 insertions(+)

diff --git a/src/oidcmsg/oauth2/__init__.py b/src/oidcmsg/oauth2/__init__.py
index ed6f3ab..b6cbced 100755
--- a/src/oidcmsg/oauth2/__init__.py
+++ b/src/oidcmsg/oauth2/__init__.py
@@ -321,6 +321,18 @@ class TokenExchangeResponse(Message):
     }
 
 
+def verify_request_issuer(request_object, request, **kwargs):
+    """
+    A request object that names its issuer must have been issued by the client whose request it
+    is, or by the opponent the caller named.
+    """
+    _iss = request_object.get("iss")
+    _expected = kwargs.get("opponent_id") or request_object.get("client_id") or request.get(
+        "client_id")
+    if _iss and _iss != _expected:
+        raise VerificationError("Request object issued by {}, not by {}".format(_iss, _expected))
+
+
 class JWTSecuredAuthorizationRequest(AuthorizationRequest):
     c_param = AuthorizationRequest.c_param.copy()
     c_param.update({
@@ -343,6 +355,7 @@ class JWTSecuredAuthorizationRequest(AuthorizationRequest):
                     pass
 
             _req = AuthorizationRequest().from_jwt(str(self["request"]), **args)
+            verify_request_issuer(_req, self, **kwargs)
             self.merge(_req, 'strict')
             self[_vc_name] = _req
             # The effective request must be complete
@@ -374,6 +387,7 @@ class PushedAuthorizationRequest(AuthorizationRequest):
                     pass
 
             _req = AuthorizationRequest().from_jwt(str(self["request"]), **args)
+            verify_request_issuer(_req, self, **kwargs)
             self.merge(_req, "lax")
             self[_vc_name] = _req
 
diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 7243bd0..5c88aa0 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -463,6 +463,7 @@ class AuthorizationRequest(oauth2.AuthorizationRequest):
             if isinstance(self["request"], str):
                 # Try to decode the JWT, checks the signature
                 oidr = OpenIDRequest().from_jwt(str(self["request"]), **args)
+                oauth2.verify_request_issuer(oidr, self, **kwargs)
 
                 # check if something is change in the original message
                 for key, val in oidr.items():
-- 
2.43.0


From 39026fb6c94cfd9ffd3d53f556852180eab2cd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:16 +0000
Subject: [PATCH 38/49] fix: an issuer may only use http, and only when that is
 allowed

---
 src/oidcmsg/oidc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 5c88aa0..b91a362 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -937,7 +937,7 @@ class ProviderConfigurationResponse(ResponseMessage):
                 check_char_set(scope, SCOPE_CHARSET)
 
         parts = urlparse(self["issuer"])
-        if 'allow_http' in kwargs:
+        if parts.scheme == "http" and kwargs.get('allow_http'):
             pass
         elif parts.scheme != "https":
             raise SchemeError("Not HTTPS")
-- 
2.43.0


From 700ac8ad6dcc9b141f49fffdd5f562258e2daaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:20 +0000
Subject: [PATCH 39/49] fix: 0000-02-29 is a birthdate

---
 src/oidcmsg/oidc/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index b91a362..aabd50a 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -594,7 +594,8 @@ class OpenIDSchema(ResponseMessage):
                     time.strptime(self["birthdate"], "%Y")
                 except ValueError:
                     try:
-                        time.strptime(self["birthdate"], "0000-%m-%d")
+                        # any leap year, there are people born on Feb 29
+                        time.strptime("2000" + self["birthdate"], "20000000-%m-%d")
                     except ValueError:
                         raise VerificationError("Birthdate format error", self)
 
-- 
2.43.0


From 8d5e18d02d05232314c78bf7b10f0374d031fa3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:05 +0000
Subject: [PATCH 40/49] fix: undo the change of the birthdate check, it
 accepted 0000-02-29 already

---
 src/oidcmsg/oidc/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index aabd50a..b91a362 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -594,8 +594,7 @@ class OpenIDSchema(ResponseMessage):
                     time.strptime(self["birthdate"], "%Y")
                 except ValueError:
                     try:
-                        # any leap year, there are people born on Feb 29
-                        time.strptime("2000" + self["birthdate"], "20000000-%m-%d")
+                        time.strptime(self["birthdate"], "0000-%m-%d")
                     except ValueError:
                         raise VerificationError("Birthdate format error", self)
 
-- 
2.43.0


From ff08a4d2fb13c53c3682ad5cfb7f9a75166009dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:31 +0000
Subject: [PATCH 41/49] fix: check falsy values, flags and purposes of
 individual claim requests

---
 src/oidcmsg/oidc/identity_assurance.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index b1ff5c9..3647211 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -415,6 +415,8 @@ OPTIONAL_VERIFICATION_REQUEST = OPTIONAL_MESSAGE
 def _correct_value_type(val, value_type):
     if isinstance(value_type, Message):
         pass
+    elif isinstance(val, bool):  # a boolean is not an integer
+        return value_type is bool
     else:
         if not isinstance(val, value_type):  # the simple case
             return False
@@ -426,21 +428,26 @@ def _verify_claims_request_value(value, value_type=str):
         return True
     elif isinstance(value, dict):
         # know about keys: essential, value and values, purpose
-        if not value.get("essential") in (None, True, False):
+        _e = value.get("essential")
+        if _e is not None and not isinstance(_e, bool):
             return False
 
         _v = value.get("value")
-        if _v:
+        if _v is not None:
             if not _correct_value_type(_v, value_type):
                 return False
 
         _vs = value.get("values", [])
+        if not isinstance(_vs, list):
+            return False
         for _v in _vs:
             if not _correct_value_type(_v, value_type):
                 return False
 
         _p = value.get("purpose")
-        if _p:
+        if _p is not None:
+            if not isinstance(_p, str):
+                return False
             if len(_p) < 3 or len(_p) > 300:
                 return False
             if not all(x in error_chars for x in _p):
-- 
2.43.0


From 08b3574a0aa7d1b571dab4bfe4c127b91ee42732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:34 +0000
Subject: [PATCH 42/49] fix: minutes without months are a proper duration, text
 that is not part of a duration is refused

---
 src/oidcmsg/time_util.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/oidcmsg/time_util.py b/src/oidcmsg/time_util.py
index 093db1c..c941fea 100755
--- a/src/oidcmsg/time_util.py
+++ b/src/oidcmsg/time_util.py
@@ -90,6 +90,8 @@ def parse_duration(duration):
 
     for code, typ in D_FORMAT:
         # print duration[index:], code
+        if index == len(duration):
+            raise TimeUtilError("Empty duration")
         if duration[index] == '-':
             raise TimeUtilError("Negation not allowed on individual items")
         if code == "T":
@@ -101,14 +103,18 @@ def parse_duration(duration):
                 raise TimeUtilError("Missing T")
         else:
             try:
-                mod = duration[index:].index(code)
-                try:
-                    dic[typ] = int(duration[index:index + mod])
-                except ValueError:
+                _rest = duration[index:]
+                if typ in ("tm_year", "tm_mon", "tm_mday"):  # are stated before the 'T'
+                    _rest = _rest.split("T")[0]
+                mod = _rest.index(code)
+                _number = duration[index:index + mod]
+                if re.match(r"[0-9]+\Z", _number):
+                    dic[typ] = int(_number)
+                else:
                     if code == "S":
-                        try:
-                            dic[typ] = float(duration[index:index + mod])
-                        except ValueError:
+                        if re.match(r"[0-9]+\.[0-9]+\Z", _number):
+                            dic[typ] = float(_number)
+                        else:
                             raise TimeUtilError("Not a float")
                     else:
                         raise TimeUtilError(
@@ -120,6 +126,9 @@ def parse_duration(duration):
         if index == len(duration):
             break
 
+    if index != len(duration):
+        raise TimeUtilError("Not a duration")
+
     return sign, dic
 
 
-- 
2.43.0


From 36ff6aeb8a1d80b7da35a6164a8c04dd83ad41c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:14 +0000
Subject: [PATCH 43/49] fix: the empty key can be stored

---
 src/oidcmsg/storage/converter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/storage/converter.py b/src/oidcmsg/storage/converter.py
index 7f36772..2a77a6c 100644
--- a/src/oidcmsg/storage/converter.py
+++ b/src/oidcmsg/storage/converter.py
@@ -10,10 +10,11 @@ class QPKey:
             # Names the file system or the file locking have other uses for
             head, _, tail = res.rpartition('.')
             res = '{}%2E{}'.format(head, tail)
-        return res
+        # A file must have a name, and a lonely % is never the result of quoting
+        return res or '%'
 
     def deserialize(self, str):
-        return unquote_plus(str)
+        return '' if str == '%' else unquote_plus(str)
 
 
 class JSON:
-- 
2.43.0


From f21bfbe72aee80d9491487b31a498941667c787a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:51 +0000
Subject: [PATCH 44/49] fix: an interrupted read of a file store does not leave
 an outdated value behind

---
 src/oidcmsg/storage/abfile.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index 8b7faf7..fc750be 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -94,7 +94,7 @@ class AbstractFileSystem(Storage):
             fname = os.path.join(self.fdir, item)
             try:
                 self.storage[item] = self._read_info(fname)
-            except Exception:
+            except BaseException:
                 self._forget(item)
                 raise
 
@@ -271,6 +271,10 @@ class AbstractFileSystem(Storage):
                     self.storage[f] = self._read_info(fname)
             except Exception as err:
                 logger.warning('Bad content in {} ({})'.format(fname, err))
+                self._forget(f)
+            except BaseException:
+                self._forget(f)
+                raise
             else:
                 found.add(f)
 
-- 
2.43.0


From 646bc51d63ce73f5584c38874256478ba96a4740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:17 +0000
Subject: [PATCH 45/49] fix: a null sub and sid do not name a subject in a
 logout token

---
 src/oidcmsg/oidc/session.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/session.py b/src/oidcmsg/oidc/session.py
index 480e3f7..7b65191 100644
--- a/src/oidcmsg/oidc/session.py
+++ b/src/oidcmsg/oidc/session.py
@@ -115,7 +115,7 @@ class LogoutToken(Message):
             raise ValueError('Wrong member value in "events"')
 
         # There must be either a 'sub' or a 'sid', and may contain both
-        if not ('sub' in self or 'sid' in self):
+        if not (self.get('sub') or self.get('sid')):
             raise ValueError('There MUST be either a "sub" or a "sid"')
 
         try:
-- 
2.43.0


From 911a926a3588769c78a994bcc22f8eaad742134f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:21 +0000
Subject: [PATCH 46/49] fix: a null nonce is no nonce in an authorization
 request

---
 src/oidcmsg/oidc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index b91a362..8a019fd 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -504,7 +504,7 @@ class AuthorizationRequest(oauth2.AuthorizationRequest):
 
         _rt = self["response_type"]
         if "id_token" in _rt:
-            if "nonce" not in self:
+            if not self.get("nonce"):
                 raise MissingRequiredAttribute("Nonce missing", self)
             else:
                 try:
-- 
2.43.0


From bf677d289013d3335f7781bfb278eaa89ff3d999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:24 +0000
Subject: [PATCH 47/49] fix: a null client_id does not name the client of a
 device

---
 src/oidcmsg/oauth2/device_authorization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/oauth2/device_authorization.py b/src/oidcmsg/oauth2/device_authorization.py
index c8a1aad..a1f7fab 100644
--- a/src/oidcmsg/oauth2/device_authorization.py
+++ b/src/oidcmsg/oauth2/device_authorization.py
@@ -29,10 +29,10 @@ class AccessTokenRequest(oidc.AccessTokenRequest):
     def verify(self, **kwargs):
         super(AccessTokenRequest, self).verify(**kwargs)
 
-        if "device_code" in self:
+        if self.get("device_code"):
             # then both client_id and grant_type MUST be present
             for claim in ["grant_type", "client_id"]:
-                if claim not in self:
+                if not self.get(claim):
                     raise MissingRequiredAttribute(claim)
 
         return True
-- 
2.43.0


From d3d4c01a0cce104fb464a40b7aa1aaf11d58319e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:27 +0000
Subject: [PATCH 48/49] fix: metadata parameters that are null are not there

---
 src/oidcmsg/oidc/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 8a019fd..c484ed1 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -665,13 +665,13 @@ class RegistrationRequest(Message):
                       "userinfo_encrypted_response"]:
             alg_param = "%s_alg" % param
             enc_param = "%s_enc" % param
-            if alg_param in self:
-                if enc_param not in self:
+            if self.get(alg_param):
+                if not self.get(enc_param):
                     self[enc_param] = "A128CBC-HS256"
 
             # both or none
-            if enc_param in self:
-                if alg_param not in self:
+            if self.get(enc_param):
+                if not self.get(alg_param):
                     raise MissingRequiredAttribute('alg_param')
 
         if "token_endpoint_auth_signing_alg" in self:
@@ -951,7 +951,7 @@ class ProviderConfigurationResponse(ResponseMessage):
             raise ValueError('Issuer ID invalid')
 
         if any("code" in rt for rt in self[
-            "response_types_supported"]) and "token_endpoint" not in self:
+            "response_types_supported"]) and not self.get("token_endpoint"):
             raise MissingRequiredAttribute("token_endpoint")
 
         return True
-- 
2.43.0


From bf5e076d1fae4f0aa0c07bd94370a8419ffbfbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:30 +0000
Subject: [PATCH 49/49] fix: a null registration access token or client URI is
 not there

---
 src/oidcmsg/oidc/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index c484ed1..af6262f 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -706,8 +706,8 @@ class RegistrationResponse(ResponseMessage):
         """
         super(RegistrationResponse, self).verify(**kwargs)
 
-        has_reg_uri = "registration_client_uri" in self
-        has_reg_at = "registration_access_token" in self
+        has_reg_uri = bool(self.get("registration_client_uri"))
+        has_reg_at = bool(self.get("registration_access_token"))
         if has_reg_uri != has_reg_at:
             raise VerificationError((
                 "Only one of registration_client_uri"
-- 
2.43.0

