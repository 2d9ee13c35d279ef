From 9e6fd14e940eb03f36fa7136d2ab068458de5415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:03 +0000
Subject: [PATCH 01/13] fix: pass the attestation object to the attester

The credential public key was passed instead, so every FIDO U2F and Android
key registration ended in an InternalError.
---
 webauthn_rp/backends.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/webauthn_rp/backends.py b/webauthn_rp/backends.py
index 4f684a5..20d89d6 100644
--- a/webauthn_rp/backends.py
+++ b/webauthn_rp/backends.py
@@ -200,10 +200,9 @@ class CredentialsBackend:
             assert attestation.auth_data is not None
             assert attestation.auth_data.attested_credential_data is not None
 
-            att_type, trusted_path = attest(
-                attestation.att_stmt, attestation.auth_data.
-                attested_credential_data.credential_public_key,
-                raw_att_obj['authData'], client_data_JSON_hash)
+            att_type, trusted_path = attest(attestation.att_stmt, attestation,
+                                            raw_att_obj['authData'],
+                                            client_data_JSON_hash)
 
             try:
                 response = self.registrar.register_credential_attestation(
-- 
2.43.0


From 2bcf94422d57d6e25b0e54912dd0a76b9932c910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:07 +0000
Subject: [PATCH 02/13] fix: emit the base IV of a COSE key when there is one

It was emitted when key_ops was present, and left out otherwise.
---
 webauthn_rp/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/webauthn_rp/converters.py b/webauthn_rp/converters.py
index 2d12b1e..6eb41eb 100644
--- a/webauthn_rp/converters.py
+++ b/webauthn_rp/converters.py
@@ -170,7 +170,7 @@ def _build_base_cose_dictionary(
     d[3] = credential_public_key.alg.value
     if credential_public_key.key_ops is not None:
         d[4] = [x.value for x in credential_public_key.key_ops]
-    if credential_public_key.key_ops is not None:
+    if credential_public_key.base_IV is not None:
         d[5] = credential_public_key.base_IV
     return d
 
-- 
2.43.0


From 416233b3dbc2b7d38ce055e3889f828a84db0c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:24 +0000
Subject: [PATCH 03/13] fix: accept authenticators without a signature counter

WebAuthn compares the counters only when at least one of them is nonzero; an
authenticator that always reports zero was rejected as a possible clone.
---
 webauthn_rp/backends.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/webauthn_rp/backends.py b/webauthn_rp/backends.py
index 20d89d6..4a9b78c 100644
--- a/webauthn_rp/backends.py
+++ b/webauthn_rp/backends.py
@@ -428,7 +428,8 @@ class CredentialsBackend:
                    verification_data)
 
             registered_sign_count = credential_data.signature_count
-            if registered_sign_count is not None:
+            if registered_sign_count is not None and (
+                    auth_data.sign_count != 0 or registered_sign_count != 0):
                 if auth_data.sign_count <= registered_sign_count:
                     if not ignore_clone_error:
                         raise SignatureCountError(
-- 
2.43.0


From 0a4170dbb83ab6f0a8fc65b92bf6d18b1bffe8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:44 +0000
Subject: [PATCH 04/13] fix: report undecodable client data and CBOR as
 DecodingError

json and cbor2 raise more than JSONDecodeError and CBORDecodeError on malformed
input (SystemError, UnicodeDecodeError, RecursionError, ...), which escaped the
parsers.
---
 webauthn_rp/parsers.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/webauthn_rp/parsers.py b/webauthn_rp/parsers.py
index d902be6..7632d37 100644
--- a/webauthn_rp/parsers.py
+++ b/webauthn_rp/parsers.py
@@ -719,7 +719,7 @@ def parse_client_data(client_data_JSON: bytes) -> CollectedClientData:
     try:
         client_data_text = client_data_JSON.decode('utf-8')
         client_data = json.loads(client_data_text)
-    except (UnicodeDecodeError, json.JSONDecodeError):
+    except (ValueError, RecursionError):
         raise DecodingError('Could not decode the client data JSON')
 
     if type(client_data) is not dict:
@@ -789,7 +789,7 @@ def parse_cose_key(
     if type(credential_public_key) is bytes:
         try:
             credential_public_key = cbor2.loads(credential_public_key)
-        except cbor2.CBORDecodeError:
+        except Exception:
             raise DecodingError('Could not decode credential public key CBOR')
 
         if type(credential_public_key) is not dict:
@@ -861,7 +861,7 @@ def parse_authenticator_data(auth_data: bytes) -> AuthenticatorData:
 
             try:
                 credential_public_key = cbor2.load(remaining_bytes_io)
-            except cbor2.CBORDecodeError:
+            except Exception:
                 raise DecodingError(
                     'Could not decode the credential public key CBOR')
 
@@ -885,7 +885,7 @@ def parse_authenticator_data(auth_data: bytes) -> AuthenticatorData:
         try:
             try:
                 extensions = cbor2.load(remaining_bytes_io)
-            except cbor2.CBORDecodeError:
+            except Exception:
                 raise DecodingError('Could not decode the extensions CBOR')
 
             if type(extensions) is not dict:
@@ -928,7 +928,7 @@ def parse_attestation_object(
     """
     try:
         attestation_object_data = cbor2.loads(attestation_object)
-    except cbor2.CBORDecodeError:
+    except Exception:
         raise DecodingError('Could not decode the attestation object CBOR')
 
     if type(attestation_object_data) is not dict:
-- 
2.43.0


From 604ff6c8e978d861b647633aa657a20c401932d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:13 +0000
Subject: [PATCH 05/13] fix: compare origins by scheme, host and port

The port stayed part of the hostname, so an explicit default port made a
different origin, as did upper case in the host; and malformed ports and hosts
escaped parse_origin as ValueError.
---
 webauthn_rp/parsers.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/webauthn_rp/parsers.py b/webauthn_rp/parsers.py
index 7632d37..9168156 100644
--- a/webauthn_rp/parsers.py
+++ b/webauthn_rp/parsers.py
@@ -66,7 +66,12 @@ def parse_origin(origin: str) -> Origin:
     if '://' not in origin:
         raise OriginError('Invalid origin, missing scheme')
 
-    url = urlparse(origin)
+    try:
+        url = urlparse(origin)
+        explicit_port = url.port
+    except ValueError:
+        raise OriginError('Invalid origin, malformed hostname or port')
+
     if url.path or url.params or url.query or url.fragment:
         raise OriginError('Invalid origin, cannot have path, params, query, '
                           'or fragment present')
@@ -79,11 +84,15 @@ def parse_origin(origin: str) -> Origin:
             url.scheme))
 
     scheme = url.scheme
-    hostname = url.netloc
-    if url.port is None:
+    hostname = url.netloc.lower()
+    if explicit_port is None:
         port = _SCHEME_DEFAULT_PORT_MAPPING[scheme]
     else:
-        port = url.port
+        hostname = hostname.rpartition(':')[0]
+        port = explicit_port
+
+    if not hostname:
+        raise OriginError('Invalid origin, must provide a hostname')
 
     return Origin(
         scheme=scheme,
-- 
2.43.0


From 9bfa9441adebb4dd4b25c1c57b483ca6e90fd445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 06/13] fix: describe unprintable CBOR values in parser errors

Formatting an integer beyond the interpreter's digit limit into the message
raised ValueError instead of the ParserError being built.
---
 webauthn_rp/parsers.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/webauthn_rp/parsers.py b/webauthn_rp/parsers.py
index 9168156..220312c 100644
--- a/webauthn_rp/parsers.py
+++ b/webauthn_rp/parsers.py
@@ -101,6 +101,14 @@ def parse_origin(origin: str) -> Origin:
     )
 
 
+def _describe(value: Any) -> str:
+    # Integers beyond the interpreter's digit limit have no decimal string.
+    try:
+        return str(value)
+    except (ValueError, RecursionError):
+        return '<{}>'.format(type(value).__name__)
+
+
 def _parse_dictionary_field(field_key: Any,
                             valid_types: Union[Type, Sequence[Type]],
                             dictionary: Dict,
@@ -124,7 +132,7 @@ def _check_unsupported_keys(supported: Set[str], data: Dict):
     unsupported_keys = set(data.keys()).difference(supported)
     if unsupported_keys:
         raise ParserError(('Found unsupported keys in data {}').format(
-            str(unsupported_keys)))
+            _describe(unsupported_keys)))
 
 
 def _bytes_from_base64(s: str) -> bytes:
@@ -209,7 +217,8 @@ def _parse_credential_public_key_kty(
                    COSEKeyType(kty_raw))  # type: ignore
     except (KeyError, ValueError):
         raise ParserError(
-            'Invalid credential public key type {}'.format(kty_raw))
+            'Invalid credential public key type {}'.format(
+                _describe(kty_raw)))
     return kty
 
 
@@ -224,7 +233,8 @@ def _parse_credential_public_key_alg(
                    COSEAlgorithmIdentifier(alg_raw))  # type: ignore
     except (KeyError, ValueError):
         raise ParserError(
-            'Invalid credential public key alg type {}'.format(alg_raw))
+            'Invalid credential public key alg type {}'.format(
+                _describe(alg_raw)))
     return alg
 
 
@@ -251,7 +261,7 @@ def _parse_credential_public_key_key_ops(
             key_ops.append(COSEKeyOperation(ko))  # type: ignore
         except (KeyError, ValueError):
             raise ParserError('Invalid credential public key key op {}'.format(
-                credential_public_key[4]))
+                _describe(credential_public_key[4])))
 
     return key_ops
 
@@ -277,7 +287,7 @@ def _parse_ec2_public_key_crv(
     try:
         return EC2Curve(crv_raw)  # type: ignore
     except (KeyError, ValueError):
-        raise ParserError('Invalid EC2 curve {}'.format(crv_raw))
+        raise ParserError('Invalid EC2 curve {}'.format(_describe(crv_raw)))
 
 
 def _parse_okp_public_key_crv(
@@ -286,7 +296,7 @@ def _parse_okp_public_key_crv(
     try:
         return OKPCurve(crv_raw)  # type: ignore
     except (KeyError, ValueError):
-        raise ParserError('Invalid OKP curve {}'.format(crv_raw))
+        raise ParserError('Invalid OKP curve {}'.format(_describe(crv_raw)))
 
 
 def parse_okp_public_key(
@@ -395,7 +405,7 @@ def parse_extensions(
 
     if unsupported_extensions:
         raise ParserError('Found unsupported extensions {}'.format(
-            str(unsupported_extensions)))
+            _describe(unsupported_extensions)))
 
     appid = extensions.get('appid')
     tx_auth_simple = extensions.get('txAuthSimple')
@@ -456,7 +466,7 @@ def parse_extensions(
         unsupported_cvalues = set(loc.keys()).difference(supported_cvalues)
         if unsupported_cvalues:
             raise ParserError('Found unsupported loc key values {}'.format(
-                str(unsupported_cvalues)))
+                _describe(unsupported_cvalues)))
 
         loc = Coordinates(latitude=loc.get('latitude'),
                           longitude=loc.get('longitude'),
@@ -508,7 +518,8 @@ def _parse_attestation_statement_alg(
     try:
         alg = COSEAlgorithmIdentifier(alg)  # type: ignore
     except (KeyError, ValueError):
-        raise ParserError('Invalid algorithm identifier {}'.format(alg))
+        raise ParserError('Invalid algorithm identifier {}'.format(
+            _describe(alg)))
     return alg
 
 
-- 
2.43.0


From 573a160401dba14a8d15b8f9ae7d6a14fcaae3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:12 +0000
Subject: [PATCH 07/13] fix: reject FIDO U2F attestations of keys that are not
 P-256

The format covers 32-byte coordinates only: longer ones were hashed into the
signed message as they are, and OKP keys ended in an AttributeError.
---
 webauthn_rp/attesters.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/webauthn_rp/attesters.py b/webauthn_rp/attesters.py
index 8a8cec0..1e7696f 100644
--- a/webauthn_rp/attesters.py
+++ b/webauthn_rp/attesters.py
@@ -1,5 +1,5 @@
 from functools import singledispatch
-from typing import Tuple, cast
+from typing import Tuple
 
 import cryptography
 import cryptography.x509
@@ -16,7 +16,8 @@ from pyasn1.codec.der.decoder import decode
 from pyasn1.error import PyAsn1Error
 
 from webauthn_rp.asn1 import KeyDescription
-from webauthn_rp.constants import KM_ORIGIN_GENERATED, KM_PURPOSE_SIGN
+from webauthn_rp.constants import (KM_ORIGIN_GENERATED, KM_PURPOSE_SIGN,
+                                   P_256_COORDINATE_BYTE_LENGTH)
 from webauthn_rp.converters import cryptography_public_key
 from webauthn_rp.errors import AttestationError, UnimplementedError
 from webauthn_rp.types import (AndroidKeyAttestationStatement,
@@ -102,11 +103,16 @@ def attest_fido_u2f(
     assert att_obj.auth_data is not None
     assert att_obj.auth_data.attested_credential_data is not None
 
-    credential_public_key = cast(
-        EC2CredentialPublicKey,
+    credential_public_key = (
         att_obj.auth_data.attested_credential_data.credential_public_key)
 
     assert credential_public_key is not None
+    if not isinstance(credential_public_key, EC2CredentialPublicKey) or (
+            len(credential_public_key.x) != P_256_COORDINATE_BYTE_LENGTH
+            or len(credential_public_key.y) != P_256_COORDINATE_BYTE_LENGTH):
+        raise AttestationError(
+            'FIDO U2F attestation failed: must attest a P-256 public key')
+
     public_key_u2f = b'\x04' + (credential_public_key.x +
                                 credential_public_key.y)
 
-- 
2.43.0


From 0c1a4bafb19e6d886bbbf612b6a826f478a20473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:19 +0000
Subject: [PATCH 08/13] fix: report a malformed Android key certificate as
 AttestationError

---
 webauthn_rp/attesters.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/webauthn_rp/attesters.py b/webauthn_rp/attesters.py
index 1e7696f..71d65da 100644
--- a/webauthn_rp/attesters.py
+++ b/webauthn_rp/attesters.py
@@ -157,8 +157,13 @@ def attest_android_key(
     if len(att_stmt.x5c) == 0:
         raise AttestationError('Must have at least 1 X509 certificate')
 
-    credential_certificate = cryptography.x509.load_der_x509_certificate(
-        att_stmt.x5c[0], default_backend())
+    try:
+        credential_certificate = cryptography.x509.load_der_x509_certificate(
+            att_stmt.x5c[0], default_backend())
+    except ValueError:
+        raise AttestationError(
+            'Android key attestation failed: unable to load X509 certificate')
+
     cred_cert_pk = credential_certificate.public_key()
     if not isinstance(
             cred_cert_pk,
-- 
2.43.0


From ee9b683acddd809b3ea3ba85742aa006ae3a81ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:33 +0000
Subject: [PATCH 09/13] fix: reject a token binding id that is not a string

---
 webauthn_rp/parsers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/webauthn_rp/parsers.py b/webauthn_rp/parsers.py
index 220312c..1a3de89 100644
--- a/webauthn_rp/parsers.py
+++ b/webauthn_rp/parsers.py
@@ -777,6 +777,10 @@ def parse_client_data(client_data_JSON: bytes) -> CollectedClientData:
                 'Token Binding must contain an id if status is {}'.format(
                     TokenBindingStatus.PRESENT))
 
+        if token_binding_id is not None and (
+                type(token_binding_id) is not str):
+            raise ParserError('Token Binding id must be a string')
+
         token_binding = TokenBinding(status=token_binding_status_enum,
                                      id=token_binding_id)
 
-- 
2.43.0


From 5b3302ea686060869040ed1b05fd9313cf22ccd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:30 +0000
Subject: [PATCH 10/13] fix: report an Android key alg that cannot be the
 certificate's as AttestationError

---
 webauthn_rp/attesters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/webauthn_rp/attesters.py b/webauthn_rp/attesters.py
index 71d65da..5671369 100644
--- a/webauthn_rp/attesters.py
+++ b/webauthn_rp/attesters.py
@@ -187,6 +187,10 @@ def attest_android_key(
         else:
             assert isinstance(cred_cert_pk, EllipticCurvePublicKey)
             assert att_stmt.alg is not None
+            if att_stmt.alg.name == 'EDDSA':
+                raise AttestationError(
+                    'Android key attestation failed: alg does not match the '
+                    'certificate public key')
 
             hash_algorithm = ECDSA(ec2_hash_algorithm(att_stmt.alg))
             cred_cert_pk.verify(att_stmt.sig, verification_data,
-- 
2.43.0


From 569877027376025f0ee3f859d10d271b8dcbd819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:53 +0000
Subject: [PATCH 11/13] fix: report an unusable certificate key as
 AttestationError

---
 webauthn_rp/attesters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/webauthn_rp/attesters.py b/webauthn_rp/attesters.py
index 5671369..3c0c413 100644
--- a/webauthn_rp/attesters.py
+++ b/webauthn_rp/attesters.py
@@ -86,11 +86,11 @@ def attest_fido_u2f(
     try:
         att_cert_x509 = cryptography.x509.load_der_x509_certificate(
             att_cert, default_backend())
+        att_cert_x509_pk = att_cert_x509.public_key()
     except ValueError:
         raise AttestationError(
             'FIDO U2F attestation failed: unable to load X509 certificate')
 
-    att_cert_x509_pk = att_cert_x509.public_key()
     if not isinstance(att_cert_x509_pk, EllipticCurvePublicKey):
         raise AttestationError(
             'FIDO U2F attestation failed: must use an Elliptic Curve Public Key'
@@ -160,11 +160,11 @@ def attest_android_key(
     try:
         credential_certificate = cryptography.x509.load_der_x509_certificate(
             att_stmt.x5c[0], default_backend())
+        cred_cert_pk = credential_certificate.public_key()
     except ValueError:
         raise AttestationError(
             'Android key attestation failed: unable to load X509 certificate')
 
-    cred_cert_pk = credential_certificate.public_key()
     if not isinstance(
             cred_cert_pk,
         (EllipticCurvePublicKey, Ed25519PublicKey, Ed448PublicKey)):
-- 
2.43.0


From 5c382b5a4335aaeed31fcf5ee878074e716d8176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:01 +0000
Subject: [PATCH 12/13] fix: report a certificate key of an unsupported curve
 as AttestationError

---
 webauthn_rp/attesters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/webauthn_rp/attesters.py b/webauthn_rp/attesters.py
index 3c0c413..8fe91b3 100644
--- a/webauthn_rp/attesters.py
+++ b/webauthn_rp/attesters.py
@@ -3,6 +3,7 @@ from typing import Tuple
 
 import cryptography
 import cryptography.x509
+from cryptography.exceptions import UnsupportedAlgorithm
 from cryptography.hazmat.backends import default_backend
 from cryptography.hazmat.primitives.asymmetric.ec import (
     ECDSA, SECP256R1, EllipticCurvePublicKey)
@@ -87,7 +88,7 @@ def attest_fido_u2f(
         att_cert_x509 = cryptography.x509.load_der_x509_certificate(
             att_cert, default_backend())
         att_cert_x509_pk = att_cert_x509.public_key()
-    except ValueError:
+    except (ValueError, NotImplementedError, UnsupportedAlgorithm):
         raise AttestationError(
             'FIDO U2F attestation failed: unable to load X509 certificate')
 
@@ -161,7 +162,7 @@ def attest_android_key(
         credential_certificate = cryptography.x509.load_der_x509_certificate(
             att_stmt.x5c[0], default_backend())
         cred_cert_pk = credential_certificate.public_key()
-    except ValueError:
+    except (ValueError, NotImplementedError, UnsupportedAlgorithm):
         raise AttestationError(
             'Android key attestation failed: unable to load X509 certificate')
 
-- 
2.43.0


From 5483855f34616bac28ee19a04968641ed824b6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:33 +0000
Subject: [PATCH 13/13] fix: report unreadable Android key certificate
 extensions as AttestationError

---
 webauthn_rp/attesters.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/webauthn_rp/attesters.py b/webauthn_rp/attesters.py
index 8fe91b3..2c7b864 100644
--- a/webauthn_rp/attesters.py
+++ b/webauthn_rp/attesters.py
@@ -11,7 +11,9 @@ from cryptography.hazmat.primitives.asymmetric.ed448 import Ed448PublicKey
 from cryptography.hazmat.primitives.asymmetric.ed25519 import Ed25519PublicKey
 from cryptography.hazmat.primitives.hashes import SHA256
 from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
-from cryptography.x509.extensions import UnrecognizedExtension
+from cryptography.x509.extensions import (DuplicateExtension,
+                                          UnrecognizedExtension)
+from cryptography.x509.general_name import UnsupportedGeneralNameType
 from cryptography.x509.oid import ObjectIdentifier
 from pyasn1.codec.der.decoder import decode
 from pyasn1.error import PyAsn1Error
@@ -218,10 +220,14 @@ def attest_android_key(
         raise AttestationError(
             'Android key attestation failed: could not find android key '
             'attestation certificate extension data')
+    except (ValueError, DuplicateExtension, UnsupportedGeneralNameType):
+        raise AttestationError(
+            'Android key attestation failed: unable to parse the certificate '
+            'extensions')
 
     try:
         key_description, _ = decode(extension.value.value, KeyDescription())
-    except PyAsn1Error:
+    except (PyAsn1Error, RecursionError):
         raise AttestationError(
             'Android key attestation failed: unable to decode DER-encoded '
             'Android Key Description')
-- 
2.43.0

