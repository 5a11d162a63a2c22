From d09f3002489f49be88cf2996b71d59c642b6f054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:20 +0000
Subject: [PATCH 01/26] fix: decode OCR codes (b32decode expects bytes)

---
 librksv/receipt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/librksv/receipt.py b/librksv/receipt.py
index 0d81c14..85e4970 100644
--- a/librksv/receipt.py
+++ b/librksv/receipt.py
@@ -552,7 +552,7 @@ class Receipt(object):
 
         encTurnoverCounter = None
         try:
-            encTurnoverCounter = utils.b32decode(segments[10])
+            encTurnoverCounter = utils.b32decode(segments[10].encode("utf-8"))
         except (TypeError, binascii.Error):
             raise MalformedReceiptException(ocrCode,
                     _('Encrypted turnover counter \"{}\" not Base 32 encoded.'
@@ -560,7 +560,7 @@ class Receipt(object):
 
         previousChain = None
         try:
-            previousChain = utils.b32decode(segments[12])
+            previousChain = utils.b32decode(segments[12].encode("utf-8"))
         except (TypeError, binascii.Error):
             raise MalformedReceiptException(ocrCode,
                     _('Chaining value \"{}\" not Base 32 encoded.'
@@ -568,7 +568,7 @@ class Receipt(object):
 
         signature = None
         try:
-            signature = utils.b32decode(segments[13])
+            signature = utils.b32decode(segments[13].encode("utf-8"))
         except (TypeError, binascii.Error):
             raise MalformedReceiptException(ocrCode,
                     _('Signature \"{}\" not Base 32 encoded.'
-- 
2.43.0


From 734dd51340b3054cb8dcdbecf5bd35a3da0f6f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:20 +0000
Subject: [PATCH 02/26] fix: make InvalidKeyException survive pickling

---
 librksv/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/librksv/utils.py b/librksv/utils.py
index 1fbde92..9efec82 100644
--- a/librksv/utils.py
+++ b/librksv/utils.py
@@ -68,6 +68,7 @@ class InvalidKeyException(RKSVException):
 
     def __init__(self):
         super(InvalidKeyException, self).__init__(_("Invalid key."))
+        self._initargs = ()
 
 def depParserChunkSize():
     """
-- 
2.43.0


From 0269f131478eaf0588f376cb82e124fd3896faa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:20 +0000
Subject: [PATCH 03/26] fix: give every verification package its own receipt ID
 set

---
 librksv/verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librksv/verify.py b/librksv/verify.py
index ad32b45..5c0a662 100644
--- a/librksv/verify.py
+++ b/librksv/verify.py
@@ -582,7 +582,7 @@ def prepareVerificationTuples(chunksWithVerifiers, key, prevStartJWS,
     del pkgRStates[-1]
 
     return zip(chunksWithVerifiers, [key] * npkgs, [prevStartJWS] * npkgs,
-            pkgRStates, [usedRecIdsBackend()] * npkgs)
+            pkgRStates, [usedRecIdsBackend() for i in range(npkgs)])
 
 def verifyParsedDEP(parser, keyStore, key, state = None,
         cashRegisterIdx = None, pool = None, nprocs = 1,
-- 
2.43.0


From 2c83e233093cf60a72a223352e95fd99d4eacdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:20 +0000
Subject: [PATCH 04/26] fix: accept empty Signaturzertifikat when a stream
 chunk ends inside the group

---
 librksv/depparser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/librksv/depparser.py b/librksv/depparser.py
index d76bea3..9568a03 100644
--- a/librksv/depparser.py
+++ b/librksv/depparser.py
@@ -165,6 +165,7 @@ class DEPStateWithIncompleteData(DEPStateWithData):
     class WIPData(object):
         def __init__(self):
             self.cert = None
+            self.cert_known = False
             self.cert_chain = None
             self.recs = list()
 
@@ -177,12 +178,13 @@ class DEPStateWithIncompleteData(DEPStateWithData):
         self.idx = idx
 
     def needCrt(self):
-        if self.wip.cert is None or self.wip.cert_chain is None:
+        if not self.wip.cert_known or self.wip.cert_chain is None:
             return self.idx
         return None
 
     def setCrt(self, cert, cert_chain):
         self.wip.cert = cert
+        self.wip.cert_known = True
         self.wip.cert_chain = cert_chain
 
     def mergeIntoChunk(self):
@@ -283,6 +285,7 @@ class DEPStateGroup(DEPStateWithIncompleteData):
                         _('not a string'), self.idx)
             self.cert_seen = True
             self.wip.cert = parseDEPCert(value) if value != '' else None
+            self.wip.cert_known = True
 
         elif prefix == 'Belege-Gruppe.item.Zertifizierungsstellen':
             if self.cert_list_seen:
-- 
2.43.0


From dc6736610c2344b5c03f79e702743ed743ad244a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:20 +0000
Subject: [PATCH 05/26] fix: compare certificate chains when merging DEP groups

---
 librksv/depexport.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librksv/depexport.py b/librksv/depexport.py
index 063f3c3..c2e4729 100644
--- a/librksv/depexport.py
+++ b/librksv/depexport.py
@@ -100,7 +100,7 @@ class MergingDEPStream(DEPStream):
                 except StopIteration:
                     # no more receipts, fetch next group, see if it continues
                     rec_tuples, cert, cert_list = next(self._outer._backing)
-                    if self.cert == cert and cert_list == cert_list:
+                    if self.cert == cert and self.cert_list == cert_list:
                         # more of this group, try again
                         self.extend(rec_tuples)
                         continue
-- 
2.43.0


From efc7f8961c3edbe67bd37f923c6c1af80616937e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:20 +0000
Subject: [PATCH 06/26] fix: report receipt lists of the wrong type as
 malformed DEP

---
 librksv/depparser.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/librksv/depparser.py b/librksv/depparser.py
index 9568a03..edf007c 100644
--- a/librksv/depparser.py
+++ b/librksv/depparser.py
@@ -344,7 +344,7 @@ def shrinkDEPReceipt(rec, idx = None):
     """
     try:
         return rec.encode('utf-8')
-    except TypeError:
+    except (AttributeError, TypeError, UnicodeEncodeError):
         if idx is None:
             raise MalformedDEPElementException(_('Receipt \"{}\"').format(rec))
         else:
@@ -605,20 +605,17 @@ class DictDEPParser(DEPParserI):
 
         cert_str = group['Signaturzertifikat']
         cert_str_list = group['Zertifizierungsstellen']
-        receipts = (shrinkDEPReceipt(r) for r in group['Belege-kompakt'])
-
         if not isinstance(cert_str, string_types):
             raise MalformedDEPElementException('Signaturzertifikat',
                     _('not a string'), idx)
         if not isinstance(cert_str_list, list):
             raise MalformedDEPElementException('Zertifizierungsstellen',
                     _('not a list'), idx)
-        try:
-            iter(receipts)
-        except TypeError:
+        if not isinstance(group['Belege-kompakt'], list):
             raise MalformedDEPElementException('Belege-kompakt',
                     _('not a list'), idx)
 
+        receipts = (shrinkDEPReceipt(r) for r in group['Belege-kompakt'])
         cert = parseDEPCert(cert_str) if cert_str != '' else None
         cert_list = [ parseDEPCert(cs) for cs in cert_str_list ]
 
-- 
2.43.0


From 4aa317dcea15beded70c4f0d253305b754202c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:20 +0000
Subject: [PATCH 07/26] fix: report missing or malformed certificates found by
 look-ahead as DEP errors

---
 librksv/depparser.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/librksv/depparser.py b/librksv/depparser.py
index edf007c..b536767 100644
--- a/librksv/depparser.py
+++ b/librksv/depparser.py
@@ -541,10 +541,20 @@ class FileDEPParser(IncrementalDEPParser):
         return items
 
     def _needCerts(self, state, chunksize, groupidx):
-        cert_str = self.__getItems(
-                'Belege-Gruppe.item.Signaturzertifikat', chunksize)[groupidx]
-        cert_str_list = self.__getItems(
-                'Belege-Gruppe.item.Zertifizierungsstellen', chunksize)[groupidx]
+        certs = self.__getItems(
+                'Belege-Gruppe.item.Signaturzertifikat', chunksize)
+        if groupidx >= len(certs):
+            raise MissingDEPElementException('Signaturzertifikat', groupidx)
+        cert_lists = self.__getItems(
+                'Belege-Gruppe.item.Zertifizierungsstellen', chunksize)
+        if groupidx >= len(cert_lists):
+            raise MissingDEPElementException('Zertifizierungsstellen', groupidx)
+
+        cert_str = certs[groupidx]
+        cert_str_list = cert_lists[groupidx]
+        if not isinstance(cert_str_list, list):
+            raise MalformedDEPElementException('Zertifizierungsstellen',
+                    _('not a list'), groupidx)
         cert = parseDEPCert(cert_str) if cert_str != '' else None
         cert_list = [ parseDEPCert(cs) for cs in cert_str_list ]
         state.setCrt(cert, cert_list)
-- 
2.43.0


From a9cdfe172e1242717bc8fb359533756bc73f71d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:20 +0000
Subject: [PATCH 08/26] fix: tolerate an empty serial when looking for key IDs

---
 librksv/key_store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librksv/key_store.py b/librksv/key_store.py
index f2c2742..f27ee0c 100644
--- a/librksv/key_store.py
+++ b/librksv/key_store.py
@@ -195,7 +195,7 @@ def strSerialToKeyIds(serial):
     empty if the serial is invalid.
     """
     # for some reason the ref impl has a negative serial on some certs
-    if serial[0] == '-':
+    if serial[0:1] == '-':
         serial = serial[1:]
 
     validKeyIds = list()
-- 
2.43.0


From 9b008b06b12cc4c6d9abe4fdf7f123b373158341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:20 +0000
Subject: [PATCH 09/26] fix: record a start receipt only for the first receipt
 of a register

---
 librksv/verification_state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librksv/verification_state.py b/librksv/verification_state.py
index 7fb81ea..7c6971b 100644
--- a/librksv/verification_state.py
+++ b/librksv/verification_state.py
@@ -386,7 +386,7 @@ class CashRegisterState(object):
         else:
             self.needRestoreReceipt = False
 
-        if not self.startReceiptJWS:
+        if not self.lastReceiptJWS:
             self.startReceiptJWS = depparser.expandDEPReceipt(group[0])
 
         self.lastReceiptJWS = depparser.expandDEPReceipt(group[-1])
-- 
2.43.0


From 5a99a6f20bf42d5db60d1aa564887ab3c359d309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:20 +0000
Subject: [PATCH 10/26] fix: do not accept trailing newlines and non-ASCII
 digits in receipts

---
 librksv/receipt.py | 4 ++--
 librksv/utils.py   | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/librksv/receipt.py b/librksv/receipt.py
index 85e4970..b63e3a9 100644
--- a/librksv/receipt.py
+++ b/librksv/receipt.py
@@ -159,8 +159,8 @@ class CertSerialType(enum.Enum):
                 except ValueError as f:
                     return CertSerialType.INVALID
 
-algRegex = re.compile(r'^R[1-9]\d*$')
-zdaRegex = re.compile(r'^([A-Z][A-Z][1-9]\d*|AT0)$')
+algRegex = re.compile(r'^R[1-9][0-9]*\Z')
+zdaRegex = re.compile(r'^([A-Z][A-Z][1-9][0-9]*|AT0)\Z')
 
 def _getSum(s, receiptId, reason):
     if not isinstance(s, string_types) or not s:
diff --git a/librksv/utils.py b/librksv/utils.py
index 9efec82..bcc1598 100644
--- a/librksv/utils.py
+++ b/librksv/utils.py
@@ -253,19 +253,19 @@ def restoreb64padding(data):
     return data
 
 
-urlsafe_b64Regex = re.compile(r'^[a-zA-Z0-9_-]*={0,3}$')
+urlsafe_b64Regex = re.compile(r'^[a-zA-Z0-9_-]*={0,3}\Z')
 def urlsafe_b64decode(data):
     if not urlsafe_b64Regex.match(data.decode('utf-8')):
         raise TypeError
     return base64.urlsafe_b64decode(data)
 
-b64Regex = re.compile(r'^[a-zA-Z0-9/+]*={0,3}$')
+b64Regex = re.compile(r'^[a-zA-Z0-9/+]*={0,3}\Z')
 def b64decode(data):
     if not b64Regex.match(data.decode('utf-8')):
         raise TypeError
     return base64.b64decode(data)
 
-b32Regex = re.compile(r'^[A-Z2-7/+]*={0,7}$')
+b32Regex = re.compile(r'^[A-Z2-7/+]*={0,7}\Z')
 def b32decode(data):
     if not b32Regex.match(data.decode('utf-8')):
         raise TypeError
@@ -328,7 +328,7 @@ def makeSignedCert(cpub, ccn, cvdays, cserial, spriv, scert=None):
     return builder.sign(private_key=spriv, algorithm=hashes.SHA256(),
             backend=default_backend())
 
-receiptFloatRegex = re.compile(r'^-?([1-9]\d+|\d)\,\d\d$')
+receiptFloatRegex = re.compile(r'^-?([1-9][0-9]+|[0-9])\,[0-9][0-9]\Z')
 def getReceiptFloat(fstr):
     if receiptFloatRegex.match(fstr) is None:
         return None
-- 
2.43.0


From 2d8e65b53ceedf000c811425ba7ebc5b0d3e5402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:46 +0000
Subject: [PATCH 11/26] fix: accept timestamps in the exact ISO format only

---
 librksv/receipt.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/librksv/receipt.py b/librksv/receipt.py
index b63e3a9..9752e61 100644
--- a/librksv/receipt.py
+++ b/librksv/receipt.py
@@ -170,8 +170,12 @@ def _getSum(s, receiptId, reason):
         raise MalformedReceiptException(receiptId, reason)
     return sF
 
+timestampRegex = re.compile(
+        r'^[0-9]{4}-[0-9]{2}-[0-9]{2}T[0-9]{2}:[0-9]{2}:[0-9]{2}\Z')
+
 def _getTimestamp(dateTime, receiptId, reason):
-    if not isinstance(dateTime, string_types) or not dateTime:
+    if not isinstance(dateTime, string_types) or not dateTime \
+            or timestampRegex.match(dateTime) is None:
         raise MalformedReceiptException(receiptId, reason)
     try:
         dateTimeDT = datetime.datetime.strptime(dateTime, "%Y-%m-%dT%H:%M:%S")
-- 
2.43.0


From 08e421848de831daa65f61b522025c9ff699e4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:46 +0000
Subject: [PATCH 12/26] fix: accept only plain digits in certificate serials
 and key identifiers

---
 librksv/receipt.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/librksv/receipt.py b/librksv/receipt.py
index 9752e61..b3d645b 100644
--- a/librksv/receipt.py
+++ b/librksv/receipt.py
@@ -110,6 +110,9 @@ class InvalidCertificateProviderException(ReceiptException):
         super(InvalidCertificateProviderException, self).__init__(rec, _("Invalid certificate provider."))
         self._initargs = (rec,)
 
+digitsRegex = re.compile(r'^[0-9]+\Z')
+hexSerialRegex = re.compile(r'^(0[xX])?[0-9a-fA-F]+\Z')
+
 class CertSerialType(enum.Enum):
     """
     An enum for all the different types of certificate serials
@@ -142,22 +145,16 @@ class CertSerialType(enum.Enum):
             if not parts[1].isalnum():
                 return CertSerialType.INVALID
 
-        if len(certSerial) == 11 and certSerial[0:2] == 'S:' and certSerial[2:].isdigit():
+        if len(certSerial) == 11 and certSerial[0:2] == 'S:' and digitsRegex.match(certSerial[2:]):
             return CertSerialType.TAX
         elif len(certSerial) >= 3 and len(certSerial) <= 16 and certSerial[0:2] == 'U:'  and certSerial[2:].isalnum() and certSerial[2:] == certSerial[2:].upper():
             return CertSerialType.UID
-        elif len(certSerial) == 15 and certSerial[0:2] == 'G:' and certSerial[2:].isdigit():
+        elif len(certSerial) == 15 and certSerial[0:2] == 'G:' and digitsRegex.match(certSerial[2:]):
             return CertSerialType.GLN
+        elif hexSerialRegex.match(certSerial):
+            return CertSerialType.SERIAL
         else:
-            try:
-                int(certSerial, 16)
-                return CertSerialType.SERIAL
-            except ValueError as e:
-                try:
-                    int(certSerial, 10)
-                    return CertSerialType.SERIAL
-                except ValueError as f:
-                    return CertSerialType.INVALID
+            return CertSerialType.INVALID
 
 algRegex = re.compile(r'^R[1-9][0-9]*\Z')
 zdaRegex = re.compile(r'^([A-Z][A-Z][1-9][0-9]*|AT0)\Z')
-- 
2.43.0


From fc85a374078912103456a8558ee49aa15fdf602c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:46 +0000
Subject: [PATCH 13/26] fix: reject receipts with lone surrogates as malformed

---
 librksv/receipt.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/librksv/receipt.py b/librksv/receipt.py
index b3d645b..d51577c 100644
--- a/librksv/receipt.py
+++ b/librksv/receipt.py
@@ -187,9 +187,16 @@ def _getEmptyOrB64(b, receiptId, reason):
         raise MalformedReceiptException(receiptId, reason)
     try:
         return utils.b64decode(b.encode('utf-8'))
-    except (TypeError, binascii.Error):
+    except (TypeError, binascii.Error, UnicodeEncodeError):
         raise MalformedReceiptException(receiptId, reason)
 
+def _isEncodable(s):
+    try:
+        s.encode('utf-8')
+    except UnicodeEncodeError:
+        return False
+    return True
+
 class Receipt(object):
     """
     The basic receipt class. Contains methods to convert a receipt to and from
@@ -222,7 +229,7 @@ class Receipt(object):
         if not isinstance(receiptId, string_types) or not receiptId:
             raise MalformedReceiptException(_("Unknown Receipt"),
                     _("Receipt ID \"{}\" invalid.").format(receiptId))
-        if '_' in receiptId:
+        if '_' in receiptId or not _isEncodable(receiptId):
             raise MalformedReceiptException(receiptId,
                     _("Receipt ID \"{}\" invalid.").format(receiptId))
 
@@ -232,7 +239,7 @@ class Receipt(object):
                     _("ZDA \"{}\" invalid.").format(zda))
 
         if not isinstance(registerId, string_types) or not registerId \
-                or '_' in registerId:
+                or '_' in registerId or not _isEncodable(registerId):
             raise MalformedReceiptException(receiptId,
                     _("Register ID \"{}\" invalid.").format(registerId))
 
@@ -329,7 +336,7 @@ class Receipt(object):
         try:
             header = utils.urlsafe_b64decode(utils.restoreb64padding(
                 jwsSegs[0]).encode("utf-8")).decode("utf-8")
-        except (TypeError, binascii.Error, UnicodeDecodeError):
+        except (TypeError, binascii.Error, UnicodeError):
             raise MalformedReceiptException(jwsString,
                     _('Invalid JWS header.'))
 
@@ -337,7 +344,7 @@ class Receipt(object):
         try:
             payload = utils.urlsafe_b64decode(utils.restoreb64padding(
                 jwsSegs[1]).encode("utf-8")).decode("utf-8")
-        except (TypeError, binascii.Error, UnicodeDecodeError):
+        except (TypeError, binascii.Error, UnicodeError):
             raise MalformedReceiptException(jwsString,
                     _('Invalid JWS payload.'))
 
@@ -489,7 +496,7 @@ class Receipt(object):
         signature = None
         try:
             signature = utils.b64decode(segments[13].encode("utf-8"))
-        except (TypeError, binascii.Error):
+        except (TypeError, binascii.Error, UnicodeEncodeError):
             raise MalformedReceiptException(basicCode,
                     _('Signature \"{}\" not Base 64 encoded.').format(segments[13]))
         signature = base64.urlsafe_b64encode(signature).replace(b'=', b'')
@@ -554,7 +561,7 @@ class Receipt(object):
         encTurnoverCounter = None
         try:
             encTurnoverCounter = utils.b32decode(segments[10].encode("utf-8"))
-        except (TypeError, binascii.Error):
+        except (TypeError, binascii.Error, UnicodeEncodeError):
             raise MalformedReceiptException(ocrCode,
                     _('Encrypted turnover counter \"{}\" not Base 32 encoded.'
                         ).format(segments[10]))
@@ -562,7 +569,7 @@ class Receipt(object):
         previousChain = None
         try:
             previousChain = utils.b32decode(segments[12].encode("utf-8"))
-        except (TypeError, binascii.Error):
+        except (TypeError, binascii.Error, UnicodeEncodeError):
             raise MalformedReceiptException(ocrCode,
                     _('Chaining value \"{}\" not Base 32 encoded.'
                         ).format(segments[12]))
@@ -570,7 +577,7 @@ class Receipt(object):
         signature = None
         try:
             signature = utils.b32decode(segments[13].encode("utf-8"))
-        except (TypeError, binascii.Error):
+        except (TypeError, binascii.Error, UnicodeEncodeError):
             raise MalformedReceiptException(ocrCode,
                     _('Signature \"{}\" not Base 32 encoded.'
                         ).format(segments[13]))
@@ -682,7 +689,7 @@ class Receipt(object):
         try:
             utils.urlsafe_b64decode(utils.restoreb64padding(
                 signature).encode("utf-8"))
-        except (TypeError, binascii.Error):
+        except (TypeError, binascii.Error, UnicodeEncodeError):
             raise MalformedReceiptException(self.receiptId,
                     _('Signature \"{}\" not Base 64 URL encoded.').format(signature))
 
-- 
2.43.0


From 70fbd566cc13b86be735ee0f977cb6e95e3f8ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:46 +0000
Subject: [PATCH 14/26] fix: sort receipt IDs with non-ASCII digits naturally

---
 librksv/verification_state.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/librksv/verification_state.py b/librksv/verification_state.py
index 7c6971b..202aa9d 100644
--- a/librksv/verification_state.py
+++ b/librksv/verification_state.py
@@ -228,8 +228,9 @@ class UsedReceiptIdsSortedNatural(UsedReceiptIdsBackend):
     # https://blog.codinghorror.com/sorting-for-humans-natural-sort-order/
     @staticmethod
     def _key(recId):
-        convert = lambda text: int(text) if text.isdigit() else text.lower()
-        return [ convert(c) for c in _numSplitRegex.split(recId) ]
+        # every second element was matched by the regex and is a number
+        return [ int(c) if i % 2 == 1 else c.lower()
+                for i, c in enumerate(_numSplitRegex.split(recId)) ]
 
     def __init__(self):
         self._minId = None
-- 
2.43.0


From 81fea8e075741d3d1f5b79c7191fa384e09b398a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:05 +0000
Subject: [PATCH 15/26] fix: treat keys of other types as not matching the
 signature

---
 librksv/algorithms.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/librksv/algorithms.py b/librksv/algorithms.py
index c0b9d1d..eafb745 100644
--- a/librksv/algorithms.py
+++ b/librksv/algorithms.py
@@ -29,6 +29,7 @@ import base64
 import jwt
 import jwt.algorithms
 
+from cryptography.hazmat.primitives.asymmetric import ec
 from six import binary_type
 
 from . import utils
@@ -186,6 +187,10 @@ class R1(AlgorithmI):
         return sig
 
     def verify(self, jwsString, pubKey):
+        # An ES256 signature can not be made with any other type of key.
+        if not isinstance(pubKey, ec.EllipticCurvePublicKey):
+            return False
+
         payload = None
         try:
             payload = jwt.PyJWS().decode(jwsString, pubKey)
-- 
2.43.0


From 5852a3b1af73136c9ab4a8784efeea82cc14a966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:24 +0000
Subject: [PATCH 16/26] fix: treat certificates with other signature types as
 not signed by the next one

---
 librksv/utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/librksv/utils.py b/librksv/utils.py
index bcc1598..1f7308a 100644
--- a/librksv/utils.py
+++ b/librksv/utils.py
@@ -41,7 +41,7 @@ from cryptography.hazmat.primitives.asymmetric import ec, rsa, padding
 from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
 from cryptography.hazmat.primitives.serialization import load_pem_private_key, load_pem_public_key, Encoding, PublicFormat
 from cryptography.hazmat.primitives import hashes
-from cryptography.exceptions import InvalidSignature
+from cryptography.exceptions import InvalidSignature, UnsupportedAlgorithm
 from cryptography.x509.oid import NameOID
 
 class RKSVException(Exception):
@@ -205,7 +205,12 @@ def verifyCert(cert, signCert):
     :return: True if the signature is a valid ECDSA signature, False otherwise.
     """
     # FIXME: This is very likely wrong and we should find a better way to verify certs.
-    halg = cert.signature_hash_algorithm
+    try:
+        halg = cert.signature_hash_algorithm
+    except UnsupportedAlgorithm as e:
+        return False
+    if halg is None:
+        return False
     sig = cert.signature
     data = cert.tbs_certificate_bytes
 
-- 
2.43.0


From 9b7f85233ab9b29b1bd332e938d1cab1771f56b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:24 +0000
Subject: [PATCH 17/26] fix: report certificates with an unusable public key as
 malformed

---
 librksv/depparser.py | 5 ++++-
 librksv/key_store.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/librksv/depparser.py b/librksv/depparser.py
index b536767..6e07c7a 100644
--- a/librksv/depparser.py
+++ b/librksv/depparser.py
@@ -378,7 +378,10 @@ def parseDEPCert(cert_str):
         raise MalformedCertificateException(cert_str)
 
     try:
-        return utils.loadCert(utils.addPEMCertHeaders(cert_str))
+        cert = utils.loadCert(utils.addPEMCertHeaders(cert_str))
+        # The public key is only parsed on access.
+        cert.public_key()
+        return cert
     except ValueError:
         raise MalformedCertificateException(cert_str)
 
diff --git a/librksv/key_store.py b/librksv/key_store.py
index f27ee0c..cd8299b 100644
--- a/librksv/key_store.py
+++ b/librksv/key_store.py
@@ -225,7 +225,10 @@ def parseKeyStoreCert(cert_str, kid):
         raise MalformedCertificateException(kid)
 
     try:
-        return utils.loadCert(utils.addPEMCertHeaders(cert_str))
+        cert = utils.loadCert(utils.addPEMCertHeaders(cert_str))
+        # The public key is only parsed on access.
+        cert.public_key()
+        return cert
     except ValueError:
         raise MalformedCertificateException(kid)
 
-- 
2.43.0


From 499c9967784893e1b774f1e8c7793d9d82a4cb46 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 01:31:11 +0000
Subject: [PATCH 18/26] fix: start the command line tools on every python
 version

---
 cert_extract.py           | 4 ++--
 convert.py                | 4 ++--
 demo.py                   | 4 ++--
 img_decode.py             | 4 ++--
 key_store.py              | 4 ++--
 librksv/gettext_helper.py | 9 +++++++++
 merge.py                  | 4 ++--
 receipt.py                | 4 ++--
 receipt_host.py           | 4 ++--
 rktool.py                 | 4 ++--
 run_test.py               | 8 ++++----
 split.py                  | 4 ++--
 test_verify.py            | 4 ++--
 verification_state.py     | 4 ++--
 verify.py                 | 4 ++--
 verify_receipt.py         | 4 ++--
 16 files changed, 41 insertions(+), 32 deletions(-)

diff --git a/cert_extract.py b/cert_extract.py
index cc71ad6..9519cc2 100755
--- a/cert_extract.py
+++ b/cert_extract.py
@@ -20,8 +20,8 @@
 from builtins import int
 from builtins import range
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 import os
 import sys
diff --git a/convert.py b/convert.py
index 81263d8..3a100dd 100755
--- a/convert.py
+++ b/convert.py
@@ -21,8 +21,8 @@ from __future__ import print_function
 from builtins import int
 from builtins import range
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 import sys
 
diff --git a/demo.py b/demo.py
index d56d710..ec88121 100755
--- a/demo.py
+++ b/demo.py
@@ -21,8 +21,8 @@ from __future__ import print_function
 from builtins import int
 from builtins import range
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 import datetime
 import random
diff --git a/img_decode.py b/img_decode.py
index 8662b35..ccaa851 100755
--- a/img_decode.py
+++ b/img_decode.py
@@ -70,8 +70,8 @@ except ImportError:
         return syms
 
 if __name__ == "__main__":
-    import gettext
-    gettext.install('rktool', './lang', True)
+    from librksv import gettext_helper
+    gettext_helper.install()
 
     import sys
     from PIL import Image
diff --git a/key_store.py b/key_store.py
index 5ad9762..9a9bf3a 100755
--- a/key_store.py
+++ b/key_store.py
@@ -24,8 +24,8 @@ import configparser
 import json
 import sys
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv import utils
 from librksv.key_store import KeyStore
diff --git a/librksv/gettext_helper.py b/librksv/gettext_helper.py
index 851f95d..9cd379f 100644
--- a/librksv/gettext_helper.py
+++ b/librksv/gettext_helper.py
@@ -18,7 +18,16 @@
 import gettext
 import six
 
+from six.moves import builtins
+
 # Pick the correct gettext function for our python version.
 # We always want text to be unicode encoded.
 _gt = gettext.translation('rktool', './lang', fallback=True)
 _ = _gt.ugettext if six.PY2 else _gt.gettext
+
+def install():
+    """
+    Installs the gettext function as builtin. Like gettext.install(), which
+    does not understand the same arguments in every python version.
+    """
+    builtins._ = _
diff --git a/merge.py b/merge.py
index 80e6ff4..3b28d3c 100755
--- a/merge.py
+++ b/merge.py
@@ -22,8 +22,8 @@ from builtins import int
 
 import sys
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv import depexport
 from librksv import depparser
diff --git a/receipt.py b/receipt.py
index ada49d9..0e68de2 100755
--- a/receipt.py
+++ b/receipt.py
@@ -21,8 +21,8 @@ from builtins import int
 
 import sys
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv.receipt import Receipt
 from librksv.url_receipt_helpers import getBasicCodeFromURL
diff --git a/receipt_host.py b/receipt_host.py
index 6e4077c..a2bb3dd 100755
--- a/receipt_host.py
+++ b/receipt_host.py
@@ -24,8 +24,8 @@ import sys
 
 from flask import Flask, abort, jsonify, make_response
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv import depparser
 from librksv import receipt
diff --git a/rktool.py b/rktool.py
index 6fa1884..5c36e86 100755
--- a/rktool.py
+++ b/rktool.py
@@ -1040,8 +1040,8 @@ class RKToolApp(App):
         return sm
 
 if __name__ == '__main__':
-    import gettext
-    gettext.install('rktool', './lang', True)
+    from librksv import gettext_helper
+    gettext_helper.install()
 
     if platform != 'android':
         from kivy.config import Config
diff --git a/run_test.py b/run_test.py
index 2773fea..52b2508 100755
--- a/run_test.py
+++ b/run_test.py
@@ -23,8 +23,8 @@ import json
 import os
 import sys
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv.run_test import runTest
 
@@ -34,8 +34,8 @@ def usage():
     sys.exit(0)
 
 if __name__ == "__main__":
-    import gettext
-    gettext.install('rktool', './lang', True)
+    from librksv import gettext_helper
+    gettext_helper.install()
 
     if len(sys.argv) < 5:
         usage()
diff --git a/split.py b/split.py
index 40174d7..2d0dfe4 100755
--- a/split.py
+++ b/split.py
@@ -22,8 +22,8 @@ from builtins import int
 import os
 import sys
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv import depexport
 from librksv import depparser
diff --git a/test_verify.py b/test_verify.py
index a657cee..2662e3b 100755
--- a/test_verify.py
+++ b/test_verify.py
@@ -24,8 +24,8 @@ import os
 import random
 import sys
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv.test import test_verify
 from librksv.test import verification_proxy
diff --git a/verification_state.py b/verification_state.py
index edd509f..16b86c7 100755
--- a/verification_state.py
+++ b/verification_state.py
@@ -26,8 +26,8 @@ import copy
 import json
 import sys
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv import depparser
 from librksv import utils
diff --git a/verify.py b/verify.py
index dbf7ae4..b97aefb 100755
--- a/verify.py
+++ b/verify.py
@@ -24,8 +24,8 @@ from builtins import range
 import json
 import sys
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv import depparser
 from librksv import key_store
diff --git a/verify_receipt.py b/verify_receipt.py
index 03bdd76..94a8bbf 100755
--- a/verify_receipt.py
+++ b/verify_receipt.py
@@ -24,8 +24,8 @@ import sys
 
 from six import string_types
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv import key_store
 from librksv import receipt
-- 
2.43.0


From 284c593552e829125f000ec38026cd93b29917c4 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 01:31:11 +0000
Subject: [PATCH 19/26] fix: read URL receipts in the verification state tool

---
 verification_state.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verification_state.py b/verification_state.py
index 16b86c7..3aa0c6b 100755
--- a/verification_state.py
+++ b/verification_state.py
@@ -32,6 +32,7 @@ gettext_helper.install()
 from librksv import depparser
 from librksv import utils
 from librksv.receipt import Receipt
+from librksv.url_receipt_helpers import getBasicCodeFromURL
 from librksv.verification_state import (CashRegisterState, ClusterState,
         DEFAULT_USED_RECEIPT_IDS_BACKEND)
 
-- 
2.43.0


From 0d65ec775133d28b616d4fde6c6f565d622d5c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:19 +0000
Subject: [PATCH 20/26] fix: accept AES key files that end with a newline

---
 librksv/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/librksv/utils.py b/librksv/utils.py
index 1f7308a..bf2372e 100644
--- a/librksv/utils.py
+++ b/librksv/utils.py
@@ -87,7 +87,8 @@ def raiseForKey(key, algorithm):
         raise InvalidKeyException()
 
 def loadB64Key(b64Key):
-    return b64decode(b64Key)
+    # key files usually end with a newline
+    return b64decode(b64Key.strip())
 
 def loadKeyFromJson(json):
     """
-- 
2.43.0


From 4ab5e26a407d0ec1fdbc41724a41b498b9f0f2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:22 +0000
Subject: [PATCH 21/26] fix: show receipts of a DEP in the graphical tool

---
 rktool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rktool.py b/rktool.py
index 5c36e86..7531c6a 100755
--- a/rktool.py
+++ b/rktool.py
@@ -600,7 +600,7 @@ class VerifyDEPWidget(BoxLayout):
     def viewReceipt(self, btn):
         try:
             recs, cert, cert_list = self.dep[btn.group_id]
-            jws = recs[btn.receipt_id]
+            jws = depparser.expandDEPReceipt(recs[btn.receipt_id])
             rec, prefix = receipt.Receipt.fromJWSString(jws)
 
             self._receipt_view = getModalView()
-- 
2.43.0


From 45e79167f8cd80458f37ca4204899e8d2db2a01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:22 +0000
Subject: [PATCH 22/26] fix: report malformed key stores in the graphical tool

---
 rktool.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rktool.py b/rktool.py
index 7531c6a..6f514c0 100755
--- a/rktool.py
+++ b/rktool.py
@@ -943,10 +943,8 @@ class KeyStoreWidget(BoxLayout):
 
             App.get_running_app().curSearchPath = path
         except (IOError, UnicodeDecodeError, ValueError,
-                configparser.Error) as e:
+                key_store.KeyStoreException) as e:
             displayError(e)
-        except KeyError:
-            displayError(_("Malformed crypto container"))
 
         self.dismissPopup()
         self.buildKSTree()
-- 
2.43.0


From 8c186fcde04c2958388ef511d79ba73db21a4b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:23 +0000
Subject: [PATCH 23/26] fix: report unusable AES keys when verifying in the
 graphical tool

---
 rktool.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rktool.py b/rktool.py
index 6f514c0..1aac4e5 100755
--- a/rktool.py
+++ b/rktool.py
@@ -566,21 +566,21 @@ def verifyDEP_prepare_Task(dep, store, key, nprocs):
         inargs = verify.prepareVerificationTuples(pkgs, key, None, rState,
                 verification_state.UsedReceiptIdsUnique)
         return None, inargs
-    except (receipt.ReceiptException, depparser.DEPException) as e:
+    except utils.RKSVException as e:
         return e, None
 
 def verifyDEP_main_Task(args):
     try:
         rState, usedRecIds = verify.verifyGroupsWithVerifiersTuple(args)
         return None, usedRecIds
-    except (receipt.ReceiptException, depparser.DEPException) as e:
+    except utils.RKSVException as e:
         return e, None
 
 def verifyDEP_finalize_Task(outUsedRecIds, usedRecIds):
     try:
         usedRecIds.merge(outUsedRecIds)
         return None, usedRecIds
-    except (receipt.ReceiptException, depparser.DEPException) as e:
+    except utils.RKSVException as e:
         return e, None
 
 # TODO: add a visual way to determine where an error happened?
-- 
2.43.0


From ebfb5aab6a6d746a7ac10272767d6fa15d54e093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:04 +0000
Subject: [PATCH 24/26] fix: report crypto containers without a dictionary in
 the graphical tool

---
 rktool.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rktool.py b/rktool.py
index 1aac4e5..eacc196 100755
--- a/rktool.py
+++ b/rktool.py
@@ -392,7 +392,7 @@ class ViewReceiptWidget(BoxLayout):
             App.get_running_app().curSearchPath = path
         except (IOError, UnicodeDecodeError, ValueError) as e:
             displayError(e)
-        except KeyError:
+        except (KeyError, TypeError):
             displayError(_("No AES key in crypto container"))
 
         self.dismissPopup()
@@ -803,7 +803,7 @@ class VerifyDEPWidget(BoxLayout):
             App.get_running_app().curSearchPath = path
         except (IOError, UnicodeDecodeError, ValueError) as e:
             displayError(e)
-        except KeyError:
+        except (KeyError, TypeError):
             displayError(_("No AES key in crypto container"))
 
         self.dismissPopup()
-- 
2.43.0


From d9e37c48fc8f773d397fa9d4cf70bd7735f5c997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:10 +0000
Subject: [PATCH 25/26] fix: leave the register unchanged if a receipt cannot
 be made

The turnover counter and the last receipt were changed before the receipt
was complete: after a failure in between the register issued receipts that
do not verify.
---
 librksv/cashreg.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/librksv/cashreg.py b/librksv/cashreg.py
index df6b3b2..ef888e1 100644
--- a/librksv/cashreg.py
+++ b/librksv/cashreg.py
@@ -143,25 +143,27 @@ class CashRegister(CashRegisterI):
         if 'turnoverCounterSize' in override:
             self.turnoverCounterSize = override['turnoverCounterSize']
 
+        # The register must not change until the receipt is complete.
+        turnoverCounter = self.turnoverCounter
         encTurnoverCounter = None
         if dummy:
             encTurnoverCounter = b'TRA'
 
             if 'turnoverCounter' in override:
-                self.turnoverCounter = int(override['turnoverCounter'])
+                turnoverCounter = int(override['turnoverCounter'])
         else:
             # TODO: check if counter can still be represented with
             # given size
-            self.turnoverCounter += int(round((sumA + sumB + sumC + sumD + sumE) * 100))
+            turnoverCounter += int(round((sumA + sumB + sumC + sumD + sumE) * 100))
             if 'turnoverCounter' in override:
-                self.turnoverCounter = int(override['turnoverCounter'])
+                turnoverCounter = int(override['turnoverCounter'])
 
             if reversal:
                 encTurnoverCounter = b'STO'
             else:
                 utils.raiseForKey(self.key, algorithm)
                 encTurnoverCounter = algorithm.encryptTurnoverCounter(rec,
-                        self.turnoverCounter, self.key,
+                        turnoverCounter, self.key,
                         self.turnoverCounterSize)
         encTurnoverCounter = base64.b64encode(encTurnoverCounter)
         encTurnoverCounter = encTurnoverCounter.decode("utf-8")
@@ -175,13 +177,14 @@ class CashRegister(CashRegisterI):
         prefix = override.get('algorithmPrefix', prefix)
         jwsString = sigSystem.sign(rec.toPayloadString(prefix),
                 algorithm)
-        self.lastReceiptSig = jwsString
-        
+
         header, payload, signature = jwsString.split('.')
         header = base64.urlsafe_b64decode(
                 utils.restoreb64padding(header).encode('utf-8')
                 ).decode('utf-8')
         rec.sign(header, signature)
+        self.turnoverCounter = turnoverCounter
+        self.lastReceiptSig = jwsString
 
         if 'header' in override:
             rec.header = override['header']
-- 
2.43.0


From a0e22674c9b7a1b565a5f4c98182a27cdca05880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:30 +0000
Subject: [PATCH 26/26] Restore run_test.py and test_verify.py

By their names they belong to the test files.
---
 run_test.py    | 8 ++++----
 test_verify.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/run_test.py b/run_test.py
index 52b2508..2773fea 100755
--- a/run_test.py
+++ b/run_test.py
@@ -23,8 +23,8 @@ import json
 import os
 import sys
 
-from librksv import gettext_helper
-gettext_helper.install()
+import gettext
+gettext.install('rktool', './lang', True)
 
 from librksv.run_test import runTest
 
@@ -34,8 +34,8 @@ def usage():
     sys.exit(0)
 
 if __name__ == "__main__":
-    from librksv import gettext_helper
-    gettext_helper.install()
+    import gettext
+    gettext.install('rktool', './lang', True)
 
     if len(sys.argv) < 5:
         usage()
diff --git a/test_verify.py b/test_verify.py
index 2662e3b..a657cee 100755
--- a/test_verify.py
+++ b/test_verify.py
@@ -24,8 +24,8 @@ import os
 import random
 import sys
 
-from librksv import gettext_helper
-gettext_helper.install()
+import gettext
+gettext.install('rktool', './lang', True)
 
 from librksv.test import test_verify
 from librksv.test import verification_proxy
-- 
2.43.0

