From 62b7709dfe1157bf54e35c3a399f81f7164279f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:27 +0000
Subject: [PATCH 01/34] fix: give every verification package its own used
 receipt ID set

The packages shared a single backend object. Unless each package happened to
be pickled on its own (no pool, a thread pool or several packages per pool
task), the merge reported IDs as duplicates that were used only once.
---
 librksv/verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librksv/verify.py b/librksv/verify.py
index ad32b45..5c0a662 100644
--- a/librksv/verify.py
+++ b/librksv/verify.py
@@ -582,7 +582,7 @@ def prepareVerificationTuples(chunksWithVerifiers, key, prevStartJWS,
     del pkgRStates[-1]
 
     return zip(chunksWithVerifiers, [key] * npkgs, [prevStartJWS] * npkgs,
-            pkgRStates, [usedRecIdsBackend()] * npkgs)
+            pkgRStates, [usedRecIdsBackend() for i in range(npkgs)])
 
 def verifyParsedDEP(parser, keyStore, key, state = None,
         cashRegisterIdx = None, pool = None, nprocs = 1,
-- 
2.43.0


From b069f12e9e0e7dff1d73ba87d36023698461c2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:40 +0000
Subject: [PATCH 02/34] fix: recompute the start receipt for a register without
 a last receipt

A state made by ClusterState.fromArbitraryStartReceipt() followed by a
packaged verification ended up with different start receipts.
---
 librksv/verification_state.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/librksv/verification_state.py b/librksv/verification_state.py
index 7fb81ea..9f4a93b 100644
--- a/librksv/verification_state.py
+++ b/librksv/verification_state.py
@@ -386,7 +386,9 @@ class CashRegisterState(object):
         else:
             self.needRestoreReceipt = False
 
-        if not self.startReceiptJWS:
+        # Like in verifyGroup(), a receipt without a predecessor always is the
+        # start receipt.
+        if not self.lastReceiptJWS:
             self.startReceiptJWS = depparser.expandDEPReceipt(group[0])
 
         self.lastReceiptJWS = depparser.expandDEPReceipt(group[-1])
-- 
2.43.0


From 758ea71dfec6ec9111dab41ada1c232856c7128c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:55 +0000
Subject: [PATCH 03/34] fix: do not treat an empty certificate as not read yet

StreamDEPParser failed and FileDEPParser did needless passes for a group
whose (empty) Signaturzertifikat had already been read.
---
 librksv/depparser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/librksv/depparser.py b/librksv/depparser.py
index d76bea3..8cc2e28 100644
--- a/librksv/depparser.py
+++ b/librksv/depparser.py
@@ -165,6 +165,8 @@ class DEPStateWithIncompleteData(DEPStateWithData):
     class WIPData(object):
         def __init__(self):
             self.cert = None
+            # cert stays None if the DEP contains an empty certificate
+            self.cert_known = False
             self.cert_chain = None
             self.recs = list()
 
@@ -177,12 +179,13 @@ class DEPStateWithIncompleteData(DEPStateWithData):
         self.idx = idx
 
     def needCrt(self):
-        if self.wip.cert is None or self.wip.cert_chain is None:
+        if not self.wip.cert_known or self.wip.cert_chain is None:
             return self.idx
         return None
 
     def setCrt(self, cert, cert_chain):
         self.wip.cert = cert
+        self.wip.cert_known = True
         self.wip.cert_chain = cert_chain
 
     def mergeIntoChunk(self):
@@ -283,6 +286,7 @@ class DEPStateGroup(DEPStateWithIncompleteData):
                         _('not a string'), self.idx)
             self.cert_seen = True
             self.wip.cert = parseDEPCert(value) if value != '' else None
+            self.wip.cert_known = True
 
         elif prefix == 'Belege-Gruppe.item.Zertifizierungsstellen':
             if self.cert_list_seen:
-- 
2.43.0


From 13a3403e68b327acd33afa75b56399df8236988b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:52 +0000
Subject: [PATCH 04/34] fix: check the first receipt of a DEP for a duplicate
 receipt ID

The check was skipped for a register without a previous receipt, although
its first receipt ID may already be used in the cluster.
---
 librksv/verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librksv/verify.py b/librksv/verify.py
index 5c0a662..585b3a4 100644
--- a/librksv/verify.py
+++ b/librksv/verify.py
@@ -396,8 +396,8 @@ def verifyGroup(group, rv, key, prevStartReceiptJWS, cashRegisterState,
 
             cashRegisterState.startReceiptJWS = r
 
+        usedReceiptIds.check(ro.receiptId)
         if prevObj:
-            usedReceiptIds.check(ro.receiptId)
             if prevObj.registerId != ro.registerId:
                 raise ChangingRegisterIdException(ro.receiptId)
             if (prevObj.zda == 'AT0' and ro.zda != 'AT0') or (
-- 
2.43.0


From c431e4d8303fe54a66b3846ae2ad010027256de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:18 +0000
Subject: [PATCH 05/34] fix: make RSA public keys usable in a process pool

A key store with an RSA CA certificate could not be passed to the worker
processes, so verifying a DEP without certificates in parallel failed.
---
 librksv/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/librksv/utils.py b/librksv/utils.py
index 1fbde92..0af61a2 100644
--- a/librksv/utils.py
+++ b/librksv/utils.py
@@ -416,5 +416,10 @@ def init_class_overrides():
     init_cert = makeSignedCert(p, 'init cert', 365, makeCertSerial(), s)
     cert_class_override(init_cert.__class__)
     pubkey_class_override(init_cert.public_key().__class__)
+    # CA certificates often contain RSA keys. Only the class of this key is
+    # used.
+    init_rsa = rsa.RSAPublicNumbers(65537, 2 ** 1024 + 1).public_key(
+            default_backend())
+    pubkey_class_override(init_rsa.__class__)
 
 init_class_overrides()
-- 
2.43.0


From fb1311ed00d43111b6d388620a43654d096b923c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:45 +0000
Subject: [PATCH 06/34] fix: make InvalidKeyException usable in a process pool

Its __reduce__() passed an argument the constructor does not take. Raised
in a worker process it made the pool's result handler die and the
verification hang forever.
---
 librksv/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/librksv/utils.py b/librksv/utils.py
index 0af61a2..18df83c 100644
--- a/librksv/utils.py
+++ b/librksv/utils.py
@@ -68,6 +68,7 @@ class InvalidKeyException(RKSVException):
 
     def __init__(self):
         super(InvalidKeyException, self).__init__(_("Invalid key."))
+        self._initargs = ()
 
 def depParserChunkSize():
     """
-- 
2.43.0


From 82a7d764b86428b600ad1288c70591c9f4fbca7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:45 +0000
Subject: [PATCH 07/34] fix: compare the certificate list with the group's when
 merging

Groups with the same certificate but another chain were merged into one,
losing the second chain.
---
 librksv/depexport.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librksv/depexport.py b/librksv/depexport.py
index 063f3c3..c2e4729 100644
--- a/librksv/depexport.py
+++ b/librksv/depexport.py
@@ -100,7 +100,7 @@ class MergingDEPStream(DEPStream):
                 except StopIteration:
                     # no more receipts, fetch next group, see if it continues
                     rec_tuples, cert, cert_list = next(self._outer._backing)
-                    if self.cert == cert and cert_list == cert_list:
+                    if self.cert == cert and self.cert_list == cert_list:
                         # more of this group, try again
                         self.extend(rec_tuples)
                         continue
-- 
2.43.0


From 63034cadb6db89ff89d7d82ef03a517dd86d17df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:45 +0000
Subject: [PATCH 08/34] fix: leave the cash register unchanged if a receipt
 cannot be signed

The turnover counter was increased before signing. When the signature
system failed, the amount of the lost receipt stayed in the counter and
every later receipt failed to verify.
---
 librksv/cashreg.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/librksv/cashreg.py b/librksv/cashreg.py
index df6b3b2..5e54537 100644
--- a/librksv/cashreg.py
+++ b/librksv/cashreg.py
@@ -143,25 +143,27 @@ class CashRegister(CashRegisterI):
         if 'turnoverCounterSize' in override:
             self.turnoverCounterSize = override['turnoverCounterSize']
 
+        # The register must stay as it is if we fail to create the receipt.
+        turnoverCounter = self.turnoverCounter
         encTurnoverCounter = None
         if dummy:
             encTurnoverCounter = b'TRA'
 
             if 'turnoverCounter' in override:
-                self.turnoverCounter = int(override['turnoverCounter'])
+                turnoverCounter = int(override['turnoverCounter'])
         else:
             # TODO: check if counter can still be represented with
             # given size
-            self.turnoverCounter += int(round((sumA + sumB + sumC + sumD + sumE) * 100))
+            turnoverCounter += int(round((sumA + sumB + sumC + sumD + sumE) * 100))
             if 'turnoverCounter' in override:
-                self.turnoverCounter = int(override['turnoverCounter'])
+                turnoverCounter = int(override['turnoverCounter'])
 
             if reversal:
                 encTurnoverCounter = b'STO'
             else:
                 utils.raiseForKey(self.key, algorithm)
                 encTurnoverCounter = algorithm.encryptTurnoverCounter(rec,
-                        self.turnoverCounter, self.key,
+                        turnoverCounter, self.key,
                         self.turnoverCounterSize)
         encTurnoverCounter = base64.b64encode(encTurnoverCounter)
         encTurnoverCounter = encTurnoverCounter.decode("utf-8")
@@ -175,14 +177,16 @@ class CashRegister(CashRegisterI):
         prefix = override.get('algorithmPrefix', prefix)
         jwsString = sigSystem.sign(rec.toPayloadString(prefix),
                 algorithm)
-        self.lastReceiptSig = jwsString
-        
+
         header, payload, signature = jwsString.split('.')
         header = base64.urlsafe_b64decode(
                 utils.restoreb64padding(header).encode('utf-8')
                 ).decode('utf-8')
         rec.sign(header, signature)
 
+        self.turnoverCounter = turnoverCounter
+        self.lastReceiptSig = jwsString
+
         if 'header' in override:
             rec.header = override['header']
         if 'signature' in override:
-- 
2.43.0


From d91f182fa9ae3bc143f79ed53c23ad63609fec0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:18 +0000
Subject: [PATCH 09/34] fix: do not add a cash register to the state if
 verification fails

A failed verifyDEP() or verifyParsedDEP() left an empty register in the
caller's state and a second attempt failed with
NoStartReceiptForLastCashRegisterException.
---
 librksv/verification_state.py | 16 +++++++++++-----
 librksv/verify.py             |  4 ++++
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/librksv/verification_state.py b/librksv/verification_state.py
index 9f4a93b..77ca921 100644
--- a/librksv/verification_state.py
+++ b/librksv/verification_state.py
@@ -477,17 +477,21 @@ class ClusterState(object):
         operation fails with an exception.
         :throws: NoStartReceiptForLastCashRegisterException
         """
+        self._checkForStartReceipt()
+        self.cashRegisters.append(CashRegisterState())
+
+    def _checkForStartReceipt(self):
         if (len(self.cashRegisters) > 0 and not
                 self.cashRegisters[-1].startReceiptJWS):
             raise NoStartReceiptForLastCashRegisterException()
 
-        self.cashRegisters.append(CashRegisterState())
-
     def getCashRegisterInfo(self, registerIdx):
         """
         Retrieves the requested cash register state, the previous cash
         register's start receipt and the used receipt IDs from the cluster
-        state. This info is needed to verify a new DEP.
+        state. This info is needed to verify a new DEP. The cluster state itself
+        is not modified, a new cash register has to be added with
+        addNewCashRegister() once its DEP is verified.
         :param registerIdx: The index of the cash register or None if a new
         one should be added.
         :return: The start receipt of the previous cash register in JWS
@@ -496,9 +500,11 @@ class ClusterState(object):
         copy of the set of used receipt IDs.
         :throws InvalidCashRegisterIndexException
         """
+        cashRegisters = self.cashRegisters
         if registerIdx is None or registerIdx == len(self.cashRegisters):
             registerIdx = len(self.cashRegisters)
-            self.addNewCashRegister()
+            self._checkForStartReceipt()
+            cashRegisters = cashRegisters + [CashRegisterState()]
         if registerIdx < 0 or registerIdx > len(self.cashRegisters):
             raise InvalidCashRegisterIndexException(registerIdx)
 
@@ -507,7 +513,7 @@ class ClusterState(object):
             prev = self.cashRegisters[registerIdx - 1].startReceiptJWS
 
         return prev, copy.copy(
-                self.cashRegisters[registerIdx]), copy.deepcopy(
+                cashRegisters[registerIdx]), copy.deepcopy(
                         self.usedReceiptIds)
 
     def updateCashRegisterInfo(self, registerIdx, newRegisterState,
diff --git a/librksv/verify.py b/librksv/verify.py
index 585b3a4..a8f22f8 100644
--- a/librksv/verify.py
+++ b/librksv/verify.py
@@ -674,6 +674,8 @@ def verifyParsedDEP(parser, keyStore, key, state = None,
     usedRecIds.merge(outUsedRecIds)
     rState = outRStates[-1]
 
+    if cashRegisterIdx is None or cashRegisterIdx == len(state.cashRegisters):
+        state.addNewCashRegister()
     state.updateCashRegisterInfo(cashRegisterIdx, rState, usedRecIds)
     return state
 
@@ -755,5 +757,7 @@ def verifyDEP(dep, keyStore, key, state = None, cashRegisterIdx = None,
             rState, usedRecIds = verifyGroup(recs, rv, key, prevStart,
                     rState, usedRecIds)
 
+    if cashRegisterIdx is None or cashRegisterIdx == len(state.cashRegisters):
+        state.addNewCashRegister()
     state.updateCashRegisterInfo(cashRegisterIdx, rState, usedRecIds)
     return state
-- 
2.43.0


From fc87b968b246af3c639a6270c84042620ab3d942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:10 +0000
Subject: [PATCH 10/34] fix: report malformed DEP elements as DEPParseException

A missing or mistyped element read in FileDEPParser's additional pass and
receipts or receipt lists of the wrong type in DictDEPParser raised bare
IndexError, TypeError, AttributeError or UnicodeEncodeError.
---
 librksv/depparser.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/librksv/depparser.py b/librksv/depparser.py
index 8cc2e28..e8d4f9f 100644
--- a/librksv/depparser.py
+++ b/librksv/depparser.py
@@ -345,7 +345,7 @@ def shrinkDEPReceipt(rec, idx = None):
     """
     try:
         return rec.encode('utf-8')
-    except TypeError:
+    except (AttributeError, TypeError, UnicodeEncodeError):
         if idx is None:
             raise MalformedDEPElementException(_('Receipt \"{}\"').format(rec))
         else:
@@ -542,10 +542,19 @@ class FileDEPParser(IncrementalDEPParser):
         return items
 
     def _needCerts(self, state, chunksize, groupidx):
-        cert_str = self.__getItems(
-                'Belege-Gruppe.item.Signaturzertifikat', chunksize)[groupidx]
-        cert_str_list = self.__getItems(
-                'Belege-Gruppe.item.Zertifizierungsstellen', chunksize)[groupidx]
+        certs = self.__getItems(
+                'Belege-Gruppe.item.Signaturzertifikat', chunksize)
+        if groupidx >= len(certs):
+            raise MissingDEPElementException('Signaturzertifikat', groupidx)
+        cert_str = certs[groupidx]
+        cert_lists = self.__getItems(
+                'Belege-Gruppe.item.Zertifizierungsstellen', chunksize)
+        if groupidx >= len(cert_lists):
+            raise MissingDEPElementException('Zertifizierungsstellen', groupidx)
+        cert_str_list = cert_lists[groupidx]
+        if not isinstance(cert_str_list, list):
+            raise MalformedDEPElementException('Zertifizierungsstellen',
+                    _('not a list'), groupidx)
         cert = parseDEPCert(cert_str) if cert_str != '' else None
         cert_list = [ parseDEPCert(cs) for cs in cert_str_list ]
         state.setCrt(cert, cert_list)
@@ -606,7 +615,7 @@ class DictDEPParser(DEPParserI):
 
         cert_str = group['Signaturzertifikat']
         cert_str_list = group['Zertifizierungsstellen']
-        receipts = (shrinkDEPReceipt(r) for r in group['Belege-kompakt'])
+        recs = group['Belege-kompakt']
 
         if not isinstance(cert_str, string_types):
             raise MalformedDEPElementException('Signaturzertifikat',
@@ -614,11 +623,10 @@ class DictDEPParser(DEPParserI):
         if not isinstance(cert_str_list, list):
             raise MalformedDEPElementException('Zertifizierungsstellen',
                     _('not a list'), idx)
-        try:
-            iter(receipts)
-        except TypeError:
+        if not isinstance(recs, list):
             raise MalformedDEPElementException('Belege-kompakt',
                     _('not a list'), idx)
+        receipts = (shrinkDEPReceipt(r) for r in recs)
 
         cert = parseDEPCert(cert_str) if cert_str != '' else None
         cert_list = [ parseDEPCert(cs) for cs in cert_str_list ]
-- 
2.43.0


From a09be928777f7e816031ebd0844e309d088807ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:04 +0000
Subject: [PATCH 11/34] fix: import getBasicCodeFromURL in
 verification_state.py

The input format 'url' failed with a NameError.
---
 verification_state.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verification_state.py b/verification_state.py
index edd509f..3e959e5 100755
--- a/verification_state.py
+++ b/verification_state.py
@@ -32,6 +32,7 @@ gettext.install('rktool', './lang', True)
 from librksv import depparser
 from librksv import utils
 from librksv.receipt import Receipt
+from librksv.url_receipt_helpers import getBasicCodeFromURL
 from librksv.verification_state import (CashRegisterState, ClusterState,
         DEFAULT_USED_RECEIPT_IDS_BACKEND)
 
-- 
2.43.0


From 35dcb04d6d59c8dfb709d04be5dbfb495814095e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:31 +0000
Subject: [PATCH 12/34] fix: keep the old state or key store if writing the new
 one fails

The files were truncated before the new contents were written, a crash or
a full disk in between destroyed the verification state or the keys.
---
 key_store.py          |  3 +--
 librksv/utils.py      | 31 +++++++++++++++++++++++++++++++
 rktool.py             |  3 +--
 verification_state.py |  3 +--
 4 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/key_store.py b/key_store.py
index 5ad9762..00a3a44 100755
--- a/key_store.py
+++ b/key_store.py
@@ -128,5 +128,4 @@ if __name__ == "__main__":
         b64Key = base64.b64encode(symmetricKey).decode('utf-8')
 
     data = keyStore.writeStoreToJson(b64Key)
-    with open(sys.argv[1], 'w') as f:
-        json.dump(data, f, sort_keys=False, indent=2)
+    utils.writeJsonFile(sys.argv[1], data)
diff --git a/librksv/utils.py b/librksv/utils.py
index 18df83c..b3d7e37 100644
--- a/librksv/utils.py
+++ b/librksv/utils.py
@@ -32,6 +32,7 @@ import io
 import json
 import os
 import re
+import shutil
 import six
 import uuid
 
@@ -367,6 +368,36 @@ def readJsonStream(stream):
     skipBOM(stream)
     return json.load(stream)
 
+def writeJsonFile(filename, data):
+    """
+    Writes the given data to a JSON file. If this fails or is interrupted, the
+    file keeps its old contents.
+    :param filename: The name of the file to write.
+    :param data: The JSON data.
+    """
+    # Do not replace a symlink by a regular file.
+    filename = os.path.realpath(filename)
+    exists = os.path.exists(filename)
+    if exists and not os.path.isfile(filename):
+        # device or pipe, nothing to preserve
+        with open(filename, 'w') as f:
+            json.dump(data, f, sort_keys=False, indent=2)
+        return
+
+    tmpname = '{}.{}.tmp'.format(filename, os.getpid())
+    try:
+        with open(tmpname, 'w') as f:
+            if exists:
+                shutil.copymode(filename, tmpname)
+            json.dump(data, f, sort_keys=False, indent=2)
+            f.flush()
+            os.fsync(f.fileno())
+        getattr(os, 'replace', os.rename)(tmpname, filename)
+    except:
+        if os.path.exists(tmpname):
+            os.remove(tmpname)
+        raise
+
 def cert_getstate(self):
     return exportCertToPEM(self)
 
diff --git a/rktool.py b/rktool.py
index 6fa1884..e370172 100755
--- a/rktool.py
+++ b/rktool.py
@@ -957,8 +957,7 @@ class KeyStoreWidget(BoxLayout):
 
         jsonStore = App.get_running_app().keyStore.writeStoreToJson(None)
         try:
-            with open(os.path.join(path, filename), 'w') as f:
-                json.dump(jsonStore, f, sort_keys=False, indent=2)
+            utils.writeJsonFile(os.path.join(path, filename), jsonStore)
 
             App.get_running_app().curSearchPath = path
         except IOError as e:
diff --git a/verification_state.py b/verification_state.py
index 3e959e5..971a5a1 100755
--- a/verification_state.py
+++ b/verification_state.py
@@ -255,5 +255,4 @@ if __name__ == "__main__":
         usage()
 
     stateJson = state.writeStateToJson()
-    with open(filename, 'w') as f:
-        json.dump(stateJson, f, sort_keys=False, indent=2)
+    utils.writeJsonFile(filename, stateJson)
-- 
2.43.0


From 520eaf6ff3d8a9fa2cc91417e582d4e2e3712d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:32 +0000
Subject: [PATCH 13/34] fix: show an invalid AES key when verifying a DEP in
 rktool

InvalidKeyException was not caught in the worker, so the callback was
never called and the verification never ended.
---
 rktool.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rktool.py b/rktool.py
index e370172..ed031da 100755
--- a/rktool.py
+++ b/rktool.py
@@ -566,21 +566,21 @@ def verifyDEP_prepare_Task(dep, store, key, nprocs):
         inargs = verify.prepareVerificationTuples(pkgs, key, None, rState,
                 verification_state.UsedReceiptIdsUnique)
         return None, inargs
-    except (receipt.ReceiptException, depparser.DEPException) as e:
+    except utils.RKSVException as e:
         return e, None
 
 def verifyDEP_main_Task(args):
     try:
         rState, usedRecIds = verify.verifyGroupsWithVerifiersTuple(args)
         return None, usedRecIds
-    except (receipt.ReceiptException, depparser.DEPException) as e:
+    except utils.RKSVException as e:
         return e, None
 
 def verifyDEP_finalize_Task(outUsedRecIds, usedRecIds):
     try:
         usedRecIds.merge(outUsedRecIds)
         return None, usedRecIds
-    except (receipt.ReceiptException, depparser.DEPException) as e:
+    except utils.RKSVException as e:
         return e, None
 
 # TODO: add a visual way to determine where an error happened?
-- 
2.43.0


From 1d7e7d928a091890b30d1fd33f72887160256c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:32 +0000
Subject: [PATCH 14/34] fix: show receipts of a loaded DEP in rktool

The DEP parser returns receipts as byte arrays.
---
 rktool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rktool.py b/rktool.py
index ed031da..f7120f0 100755
--- a/rktool.py
+++ b/rktool.py
@@ -600,7 +600,7 @@ class VerifyDEPWidget(BoxLayout):
     def viewReceipt(self, btn):
         try:
             recs, cert, cert_list = self.dep[btn.group_id]
-            jws = recs[btn.receipt_id]
+            jws = depparser.expandDEPReceipt(recs[btn.receipt_id])
             rec, prefix = receipt.Receipt.fromJWSString(jws)
 
             self._receipt_view = getModalView()
-- 
2.43.0


From d5e16dfecd27761bb7f96f27e1915e6a1859c17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:32 +0000
Subject: [PATCH 15/34] fix: report an invalid key store in rktool

The handler named configparser, which is not imported, and missed the
exceptions KeyStore.readStoreFromJson() raises.
---
 rktool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rktool.py b/rktool.py
index f7120f0..a9b2d66 100755
--- a/rktool.py
+++ b/rktool.py
@@ -943,7 +943,7 @@ class KeyStoreWidget(BoxLayout):
 
             App.get_running_app().curSearchPath = path
         except (IOError, UnicodeDecodeError, ValueError,
-                configparser.Error) as e:
+                key_store.KeyStoreException) as e:
             displayError(e)
         except KeyError:
             displayError(_("Malformed crypto container"))
-- 
2.43.0


From 2e911540d7e40e060ec1799520d30c316dd8c8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:32 +0000
Subject: [PATCH 16/34] fix: ignore results of an aborted DEP verification in
 rktool

A result already on its way when the user aborted and verified another
DEP was taken for the result of the new one.
---
 rktool.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/rktool.py b/rktool.py
index a9b2d66..ad0c01d 100755
--- a/rktool.py
+++ b/rktool.py
@@ -24,7 +24,8 @@ import kivy
 kivy.require('1.9.0')
 
 import os
-import json
+
+from functools import partial
 
 from requests.exceptions import RequestException
 from PIL import Image
@@ -591,6 +592,8 @@ class VerifyDEPWidget(BoxLayout):
 
     _verifying = False
     _verified = False
+    # identifies the last started verification
+    _run = 0
 
     def addCert(self, btn):
         pubKey = btn.key.public_key()
@@ -693,16 +696,17 @@ class VerifyDEPWidget(BoxLayout):
             return
 
         self._verifying = True
+        self._run += 1
         self.verify_button.text = _('Verifying...')
 
         App.get_running_app().pool.apply_async(verifyDEP_prepare_Task,
                 (self.dep, App.get_running_app().keyStore, key,
                     App.get_running_app().nprocs),
-                callback = self.verifyDEP_prepare_Cb)
+                callback = partial(self.verifyDEP_prepare_Cb, self._run))
 
     @mainthread
-    def verifyDEP_prepare_Cb(self, result):
-        if not self._verifying:
+    def verifyDEP_prepare_Cb(self, run, result):
+        if not self._verifying or run != self._run:
             return
 
         if result[0]:
@@ -712,10 +716,10 @@ class VerifyDEPWidget(BoxLayout):
 
         else:
             App.get_running_app().pool.map_async(verifyDEP_main_Task,
-                    result[1], callback = self.verifyDEP_main_Cb)
+                    result[1], callback = partial(self.verifyDEP_main_Cb, run))
 
-    def verifyDEP_main_Cb(self, result):
-        if not self._verifying:
+    def verifyDEP_main_Cb(self, run, result):
+        if not self._verifying or run != self._run:
             return
 
         outUsedRecIds = list()
@@ -729,11 +733,11 @@ class VerifyDEPWidget(BoxLayout):
 
         App.get_running_app().pool.apply_async(verifyDEP_finalize_Task,
                 (outUsedRecIds, verification_state.UsedReceiptIdsUnique()),
-                callback = self.verifyDEP_finalize_Cb)
+                callback = partial(self.verifyDEP_finalize_Cb, run))
 
     @mainthread
-    def verifyDEP_finalize_Cb(self, result):
-        if not self._verifying:
+    def verifyDEP_finalize_Cb(self, run, result):
+        if not self._verifying or run != self._run:
             return
 
         self._verifying = False
-- 
2.43.0


From a98764bf653864cfceb1bc0230015e37ca644758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:20 +0000
Subject: [PATCH 17/34] fix: report invalid UTF-8 in a DEP as DEPParseException

---
 librksv/depparser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/librksv/depparser.py b/librksv/depparser.py
index e8d4f9f..cf62a49 100644
--- a/librksv/depparser.py
+++ b/librksv/depparser.py
@@ -418,7 +418,10 @@ class IncrementalDEPParser(DEPParserI):
 
     def __init__(self, fd):
         # skipBOM checks if we can seek, so no harm in doing it to a non-file
-        self.startpos = utils.skipBOM(fd)
+        try:
+            self.startpos = utils.skipBOM(fd)
+        except UnicodeDecodeError as e:
+            raise DEPParseException(_('Malformed JSON: {}.').format(e))
         self.fd = fd
 
     @staticmethod
@@ -473,7 +476,7 @@ class IncrementalDEPParser(DEPParserI):
                 yield last
             elif not got_something:
                 raise MalformedDEPException(_('No receipts found'))
-        except ijson.JSONError as e:
+        except (ijson.JSONError, UnicodeDecodeError) as e:
             raise DEPParseException(_('Malformed JSON: {}.').format(e))
 
 
-- 
2.43.0


From 55a24dce261de4e4852e852467a26825e5103b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:52 +0000
Subject: [PATCH 18/34] fix: report unusable certificates and keys as malformed

---
 librksv/utils.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/librksv/utils.py b/librksv/utils.py
index b3d7e37..3b68062 100644
--- a/librksv/utils.py
+++ b/librksv/utils.py
@@ -42,7 +42,7 @@ from cryptography.hazmat.primitives.asymmetric import ec, rsa, padding
 from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
 from cryptography.hazmat.primitives.serialization import load_pem_private_key, load_pem_public_key, Encoding, PublicFormat
 from cryptography.hazmat.primitives import hashes
-from cryptography.exceptions import InvalidSignature
+from cryptography.exceptions import InvalidSignature, UnsupportedAlgorithm
 from cryptography.x509.oid import NameOID
 
 class RKSVException(Exception):
@@ -133,16 +133,27 @@ def loadCert(pem):
     Creates a cryptography certificate object from the given PEM certificate.
     :param pem: A certificate as a PEM string.
     :return: A cryptography certificate object.
+    :throws: ValueError if the certificate or its public key is not usable.
     """
-    return x509.load_pem_x509_certificate(pem.encode("utf-8"), default_backend())
+    try:
+        cert = x509.load_pem_x509_certificate(pem.encode("utf-8"),
+                default_backend())
+        cert.public_key()
+    except (x509.InvalidVersion, UnsupportedAlgorithm) as e:
+        raise ValueError(str(e))
+    return cert
 
 def loadPubKey(pem):
     """
     Creates a cryptography public key object from the given PEM public key.
     :param pem: A public key as a PEM string.
     :return: A cryptography public key object.
+    :throws: ValueError if the key is not usable.
     """
-    return load_pem_public_key(pem.encode("utf-8"), default_backend())
+    try:
+        return load_pem_public_key(pem.encode("utf-8"), default_backend())
+    except UnsupportedAlgorithm as e:
+        raise ValueError(str(e))
 
 def loadPrivKey(pem):
     """
@@ -206,7 +217,12 @@ def verifyCert(cert, signCert):
     :return: True if the signature is a valid ECDSA signature, False otherwise.
     """
     # FIXME: This is very likely wrong and we should find a better way to verify certs.
-    halg = cert.signature_hash_algorithm
+    try:
+        halg = cert.signature_hash_algorithm
+    except UnsupportedAlgorithm:
+        return False
+    if halg is None:
+        return False
     sig = cert.signature
     data = cert.tbs_certificate_bytes
 
@@ -225,7 +241,7 @@ def verifyCert(cert, signCert):
     try:
         ver()
         return True
-    except InvalidSignature as e:
+    except (InvalidSignature, UnsupportedAlgorithm) as e:
         return False
 
 def certFingerprint(cert):
-- 
2.43.0


From d3c122ffb7d48300fb42a8d22e5ad21faddd3c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:25 +0000
Subject: [PATCH 19/34] fix: read receipts in OCR form on Python 3

---
 librksv/receipt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/librksv/receipt.py b/librksv/receipt.py
index 0d81c14..85e4970 100644
--- a/librksv/receipt.py
+++ b/librksv/receipt.py
@@ -552,7 +552,7 @@ class Receipt(object):
 
         encTurnoverCounter = None
         try:
-            encTurnoverCounter = utils.b32decode(segments[10])
+            encTurnoverCounter = utils.b32decode(segments[10].encode("utf-8"))
         except (TypeError, binascii.Error):
             raise MalformedReceiptException(ocrCode,
                     _('Encrypted turnover counter \"{}\" not Base 32 encoded.'
@@ -560,7 +560,7 @@ class Receipt(object):
 
         previousChain = None
         try:
-            previousChain = utils.b32decode(segments[12])
+            previousChain = utils.b32decode(segments[12].encode("utf-8"))
         except (TypeError, binascii.Error):
             raise MalformedReceiptException(ocrCode,
                     _('Chaining value \"{}\" not Base 32 encoded.'
@@ -568,7 +568,7 @@ class Receipt(object):
 
         signature = None
         try:
-            signature = utils.b32decode(segments[13])
+            signature = utils.b32decode(segments[13].encode("utf-8"))
         except (TypeError, binascii.Error):
             raise MalformedReceiptException(ocrCode,
                     _('Signature \"{}\" not Base 32 encoded.'
-- 
2.43.0


From 2e1b58498c20718ff34419a4fcc4cd7af40bdcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:49 +0000
Subject: [PATCH 20/34] fix: sort receipt IDs with other than ASCII digits

---
 librksv/verification_state.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/librksv/verification_state.py b/librksv/verification_state.py
index 77ca921..1ec00a6 100644
--- a/librksv/verification_state.py
+++ b/librksv/verification_state.py
@@ -228,8 +228,9 @@ class UsedReceiptIdsSortedNatural(UsedReceiptIdsBackend):
     # https://blog.codinghorror.com/sorting-for-humans-natural-sort-order/
     @staticmethod
     def _key(recId):
-        convert = lambda text: int(text) if text.isdigit() else text.lower()
-        return [ convert(c) for c in _numSplitRegex.split(recId) ]
+        # every second part is a number
+        return [ int(c) if i % 2 else c.lower()
+                for i, c in enumerate(_numSplitRegex.split(recId)) ]
 
     def __init__(self):
         self._minId = None
-- 
2.43.0


From e0d31faff7ed478262c8dec300887f502566c779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:58 +0000
Subject: [PATCH 21/34] fix: install message catalogue on Python 3.11 and later

---
 cert_extract.py           |  4 ++--
 convert.py                |  4 ++--
 demo.py                   |  4 ++--
 img_decode.py             |  4 ++--
 key_store.py              |  4 ++--
 librksv/gettext_helper.py | 11 +++++++++++
 merge.py                  |  4 ++--
 receipt.py                |  4 ++--
 receipt_host.py           |  4 ++--
 rktool.py                 |  4 ++--
 split.py                  |  4 ++--
 verification_state.py     |  4 ++--
 verify.py                 |  4 ++--
 verify_receipt.py         |  4 ++--
 14 files changed, 37 insertions(+), 26 deletions(-)

diff --git a/cert_extract.py b/cert_extract.py
index cc71ad6..9519cc2 100755
--- a/cert_extract.py
+++ b/cert_extract.py
@@ -20,8 +20,8 @@
 from builtins import int
 from builtins import range
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 import os
 import sys
diff --git a/convert.py b/convert.py
index 81263d8..3a100dd 100755
--- a/convert.py
+++ b/convert.py
@@ -21,8 +21,8 @@ from __future__ import print_function
 from builtins import int
 from builtins import range
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 import sys
 
diff --git a/demo.py b/demo.py
index d56d710..ec88121 100755
--- a/demo.py
+++ b/demo.py
@@ -21,8 +21,8 @@ from __future__ import print_function
 from builtins import int
 from builtins import range
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 import datetime
 import random
diff --git a/img_decode.py b/img_decode.py
index 8662b35..ccaa851 100755
--- a/img_decode.py
+++ b/img_decode.py
@@ -70,8 +70,8 @@ except ImportError:
         return syms
 
 if __name__ == "__main__":
-    import gettext
-    gettext.install('rktool', './lang', True)
+    from librksv import gettext_helper
+    gettext_helper.install()
 
     import sys
     from PIL import Image
diff --git a/key_store.py b/key_store.py
index 00a3a44..aa0392a 100755
--- a/key_store.py
+++ b/key_store.py
@@ -24,8 +24,8 @@ import configparser
 import json
 import sys
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv import utils
 from librksv.key_store import KeyStore
diff --git a/librksv/gettext_helper.py b/librksv/gettext_helper.py
index 851f95d..9c51750 100644
--- a/librksv/gettext_helper.py
+++ b/librksv/gettext_helper.py
@@ -22,3 +22,14 @@ import six
 # We always want text to be unicode encoded.
 _gt = gettext.translation('rktool', './lang', fallback=True)
 _ = _gt.ugettext if six.PY2 else _gt.gettext
+
+
+def install():
+    """
+    Installs the gettext function in the builtins for use in scripts.
+    """
+    # The unicode parameter only exists in Python 2.
+    if six.PY2:
+        gettext.install('rktool', './lang', True)
+    else:
+        gettext.install('rktool', './lang')
diff --git a/merge.py b/merge.py
index 80e6ff4..3b28d3c 100755
--- a/merge.py
+++ b/merge.py
@@ -22,8 +22,8 @@ from builtins import int
 
 import sys
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv import depexport
 from librksv import depparser
diff --git a/receipt.py b/receipt.py
index ada49d9..0e68de2 100755
--- a/receipt.py
+++ b/receipt.py
@@ -21,8 +21,8 @@ from builtins import int
 
 import sys
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv.receipt import Receipt
 from librksv.url_receipt_helpers import getBasicCodeFromURL
diff --git a/receipt_host.py b/receipt_host.py
index 6e4077c..a2bb3dd 100755
--- a/receipt_host.py
+++ b/receipt_host.py
@@ -24,8 +24,8 @@ import sys
 
 from flask import Flask, abort, jsonify, make_response
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv import depparser
 from librksv import receipt
diff --git a/rktool.py b/rktool.py
index ad0c01d..abebc5c 100755
--- a/rktool.py
+++ b/rktool.py
@@ -1043,8 +1043,8 @@ class RKToolApp(App):
         return sm
 
 if __name__ == '__main__':
-    import gettext
-    gettext.install('rktool', './lang', True)
+    from librksv import gettext_helper
+    gettext_helper.install()
 
     if platform != 'android':
         from kivy.config import Config
diff --git a/split.py b/split.py
index 40174d7..2d0dfe4 100755
--- a/split.py
+++ b/split.py
@@ -22,8 +22,8 @@ from builtins import int
 import os
 import sys
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv import depexport
 from librksv import depparser
diff --git a/verification_state.py b/verification_state.py
index 971a5a1..cecde80 100755
--- a/verification_state.py
+++ b/verification_state.py
@@ -26,8 +26,8 @@ import copy
 import json
 import sys
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv import depparser
 from librksv import utils
diff --git a/verify.py b/verify.py
index dbf7ae4..b97aefb 100755
--- a/verify.py
+++ b/verify.py
@@ -24,8 +24,8 @@ from builtins import range
 import json
 import sys
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv import depparser
 from librksv import key_store
diff --git a/verify_receipt.py b/verify_receipt.py
index 03bdd76..94a8bbf 100755
--- a/verify_receipt.py
+++ b/verify_receipt.py
@@ -24,8 +24,8 @@ import sys
 
 from six import string_types
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv import key_store
 from librksv import receipt
-- 
2.43.0


From e70b0cb94533ece3d825ee5173d5f19535906185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:52 +0000
Subject: [PATCH 22/34] fix: cert_extract.py lost certificates that follow
 their receipts

Chunks of CertlessStreamDEPParser lack certificates that have not been read
yet, so with more receipts than the chunk size they were silently dropped.
---
 cert_extract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cert_extract.py b/cert_extract.py
index 9519cc2..68eb9c8 100755
--- a/cert_extract.py
+++ b/cert_extract.py
@@ -43,7 +43,7 @@ if __name__ == "__main__":
         os.mkdir(outDir)
     os.chdir(outDir)
 
-    parser = depparser.CertlessStreamDEPParser(sys.stdin)
+    parser = depparser.IncrementalDEPParser.fromFd(sys.stdin, True)
     for chunk in parser.parse(utils.depParserChunkSize()):
         for recs, cert, cert_list in chunk:
             groupCerts = list(cert_list)
-- 
2.43.0


From c816e02424ad216b2a88c06ecc432d0c2d8ea6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:05 +0000
Subject: [PATCH 23/34] fix: do not wait forever for an answer of the signing
 service or a receipt server

Without a timeout a request to a server that went silent never returns, so the
register could not fall back to an unsigned receipt.
---
 librksv/sigsys.py              | 11 ++++++++---
 librksv/url_receipt_helpers.py |  2 +-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/librksv/sigsys.py b/librksv/sigsys.py
index a2914f5..583a5ef 100644
--- a/librksv/sigsys.py
+++ b/librksv/sigsys.py
@@ -125,6 +125,9 @@ class SignatureSystemATrustMobile(SignatureSystemI):
     """
     ATrustURL = 'https://hs-abnahme.a-trust.at/RegistrierkasseMobile/v2/'
 
+    # seconds to wait for an answer of the service
+    timeout = 30
+
     def __init__(self, username, password, certFile=True):
         """
         Creates a new signature system.
@@ -139,13 +142,15 @@ class SignatureSystemATrustMobile(SignatureSystemI):
         self.certFile = certFile
 
         CertInfoEndpoint = '/%s/Certificate' % self.username
-        r = requests.get(self.ATrustURL + CertInfoEndpoint, verify=certFile)
+        r = requests.get(self.ATrustURL + CertInfoEndpoint, verify=certFile,
+                timeout=self.timeout)
         r.raise_for_status()
         self.serial = r.json()['ZertifikatsseriennummerHex']
         self.algo = r.json()['alg']
 
         ZDAInfoEndpoint = '/%s/ZDA' % self.username
-        r = requests.get(self.ATrustURL + ZDAInfoEndpoint, verify=certFile)
+        r = requests.get(self.ATrustURL + ZDAInfoEndpoint, verify=certFile,
+                timeout=self.timeout)
         r.raise_for_status()
         self.zda = r.json()['zdaid']
 
@@ -158,7 +163,7 @@ class SignatureSystemATrustMobile(SignatureSystemI):
         rdata = { 'password': self.password, 'jws_payload': data }
         try:
             r = requests.post(self.ATrustURL + SignEndpoint, json=rdata,
-                    verify=self.certFile)
+                    verify=self.certFile, timeout=self.timeout)
             r.raise_for_status()
             return r.json()['result']
         except requests.exceptions.RequestException as e:
diff --git a/librksv/url_receipt_helpers.py b/librksv/url_receipt_helpers.py
index 61547e3..e0024fd 100644
--- a/librksv/url_receipt_helpers.py
+++ b/librksv/url_receipt_helpers.py
@@ -27,7 +27,7 @@ def getBasicCodeFromURL(url):
     :param url: The URL as a string.
     :return: The basic code representation as a string.
     """
-    r = requests.get(url)
+    r = requests.get(url, timeout=30)
     r.raise_for_status()
     return r.json()['code']
 
-- 
2.43.0


From fe7cfcadb6d265912ec1023bb53cb21aa002f981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:10 +0000
Subject: [PATCH 24/34] fix: do not take an answer of the signing service for
 the signature of another receipt

The register went on with the returned JWS while the created receipt kept its
own payload, which broke the chain of the journal.
---
 librksv/sigsys.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/librksv/sigsys.py b/librksv/sigsys.py
index 583a5ef..a9de267 100644
--- a/librksv/sigsys.py
+++ b/librksv/sigsys.py
@@ -160,12 +160,21 @@ class SignatureSystemATrustMobile(SignatureSystemI):
         if algorithm.sigAlgo() != self.algo:
             raise Exception(_("Selected algorithm not supported."))
 
+        broken = SignatureSystemBroken(self.zda, self.serial).sign(data,
+                algorithm)
+
         rdata = { 'password': self.password, 'jws_payload': data }
         try:
             r = requests.post(self.ATrustURL + SignEndpoint, json=rdata,
                     verify=self.certFile, timeout=self.timeout)
             r.raise_for_status()
-            return r.json()['result']
+            result = r.json()['result']
         except requests.exceptions.RequestException as e:
-            return SignatureSystemBroken(self.zda, self.serial).sign(data,
-                    algorithm)
+            return broken
+
+        # header and payload have to be ours, everything else is no signature
+        # of this receipt
+        if result.rpartition('.')[0] != broken.rpartition('.')[0]:
+            return broken
+
+        return result
-- 
2.43.0


From 8880b9b9c545db4b2a4aa8a0a58d569befc1e5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:56 +0000
Subject: [PATCH 25/34] fix: show the error of a failed DEP verification from
 the main thread in rktool

The callback of the main task ran in the result thread of the worker pool and
changed widgets from there, which kivy does not allow.
---
 rktool.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rktool.py b/rktool.py
index abebc5c..56f0f9d 100755
--- a/rktool.py
+++ b/rktool.py
@@ -718,6 +718,7 @@ class VerifyDEPWidget(BoxLayout):
             App.get_running_app().pool.map_async(verifyDEP_main_Task,
                     result[1], callback = partial(self.verifyDEP_main_Cb, run))
 
+    @mainthread
     def verifyDEP_main_Cb(self, run, result):
         if not self._verifying or run != self._run:
             return
-- 
2.43.0


From 27e028046299c6285c65a6747838bc41257112f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:15 +0000
Subject: [PATCH 26/34] fix: report a crypto container that is no JSON object
 in rktool

---
 rktool.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rktool.py b/rktool.py
index 56f0f9d..9182d66 100755
--- a/rktool.py
+++ b/rktool.py
@@ -393,7 +393,7 @@ class ViewReceiptWidget(BoxLayout):
             App.get_running_app().curSearchPath = path
         except (IOError, UnicodeDecodeError, ValueError) as e:
             displayError(e)
-        except KeyError:
+        except (KeyError, TypeError):
             displayError(_("No AES key in crypto container"))
 
         self.dismissPopup()
@@ -808,7 +808,7 @@ class VerifyDEPWidget(BoxLayout):
             App.get_running_app().curSearchPath = path
         except (IOError, UnicodeDecodeError, ValueError) as e:
             displayError(e)
-        except KeyError:
+        except (KeyError, TypeError):
             displayError(_("No AES key in crypto container"))
 
         self.dismissPopup()
-- 
2.43.0


From 46abb87a6e20c2abe9443b105a4c8132c7a4da36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:57 +0000
Subject: [PATCH 27/34] fix: do not accept trailing newlines or non-ASCII
 digits in receipts

---
 librksv/receipt.py |  4 ++--
 librksv/utils.py   | 11 ++++++-----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/librksv/receipt.py b/librksv/receipt.py
index 85e4970..b63e3a9 100644
--- a/librksv/receipt.py
+++ b/librksv/receipt.py
@@ -159,8 +159,8 @@ class CertSerialType(enum.Enum):
                 except ValueError as f:
                     return CertSerialType.INVALID
 
-algRegex = re.compile(r'^R[1-9]\d*$')
-zdaRegex = re.compile(r'^([A-Z][A-Z][1-9]\d*|AT0)$')
+algRegex = re.compile(r'^R[1-9][0-9]*\Z')
+zdaRegex = re.compile(r'^([A-Z][A-Z][1-9][0-9]*|AT0)\Z')
 
 def _getSum(s, receiptId, reason):
     if not isinstance(s, string_types) or not s:
diff --git a/librksv/utils.py b/librksv/utils.py
index 3b68062..0a332fa 100644
--- a/librksv/utils.py
+++ b/librksv/utils.py
@@ -88,7 +88,8 @@ def raiseForKey(key, algorithm):
         raise InvalidKeyException()
 
 def loadB64Key(b64Key):
-    return b64decode(b64Key)
+    # Key files usually end in a newline.
+    return b64decode(b64Key.rstrip(b'\r\n'))
 
 def loadKeyFromJson(json):
     """
@@ -270,19 +271,19 @@ def restoreb64padding(data):
     return data
 
 
-urlsafe_b64Regex = re.compile(r'^[a-zA-Z0-9_-]*={0,3}$')
+urlsafe_b64Regex = re.compile(r'^[a-zA-Z0-9_-]*={0,3}\Z')
 def urlsafe_b64decode(data):
     if not urlsafe_b64Regex.match(data.decode('utf-8')):
         raise TypeError
     return base64.urlsafe_b64decode(data)
 
-b64Regex = re.compile(r'^[a-zA-Z0-9/+]*={0,3}$')
+b64Regex = re.compile(r'^[a-zA-Z0-9/+]*={0,3}\Z')
 def b64decode(data):
     if not b64Regex.match(data.decode('utf-8')):
         raise TypeError
     return base64.b64decode(data)
 
-b32Regex = re.compile(r'^[A-Z2-7/+]*={0,7}$')
+b32Regex = re.compile(r'^[A-Z2-7/+]*={0,7}\Z')
 def b32decode(data):
     if not b32Regex.match(data.decode('utf-8')):
         raise TypeError
@@ -345,7 +346,7 @@ def makeSignedCert(cpub, ccn, cvdays, cserial, spriv, scert=None):
     return builder.sign(private_key=spriv, algorithm=hashes.SHA256(),
             backend=default_backend())
 
-receiptFloatRegex = re.compile(r'^-?([1-9]\d+|\d)\,\d\d$')
+receiptFloatRegex = re.compile(r'^-?([1-9][0-9]+|[0-9])\,[0-9][0-9]\Z')
 def getReceiptFloat(fstr):
     if receiptFloatRegex.match(fstr) is None:
         return None
-- 
2.43.0


From a2e901b2ff228c860c46403ceb7ce8a45c75fc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:53 +0000
Subject: [PATCH 28/34] fix: report an invalid signature if the public key is
 no EC key

---
 librksv/algorithms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/librksv/algorithms.py b/librksv/algorithms.py
index c0b9d1d..01ce8d2 100644
--- a/librksv/algorithms.py
+++ b/librksv/algorithms.py
@@ -191,6 +191,9 @@ class R1(AlgorithmI):
             payload = jwt.PyJWS().decode(jwsString, pubKey)
         except jwt.exceptions.DecodeError as e:
             pass
+        except TypeError as e:
+            # The key is of a different kind and cannot verify ES256 signatures.
+            pass
 
         if payload:
             return True
-- 
2.43.0


From 812673d2e0e6c696f6493c264b2fdc31af3eebd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:53 +0000
Subject: [PATCH 29/34] fix: make key stores with any kind of public key usable
 in a process pool

---
 librksv/key_store.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/librksv/key_store.py b/librksv/key_store.py
index f2c2742..3c91abe 100644
--- a/librksv/key_store.py
+++ b/librksv/key_store.py
@@ -256,6 +256,17 @@ class KeyTuple(object):
         self.key = key
         self.cert = cert
 
+    # Not every kind of public key can be pickled.
+    def __getstate__(self):
+        return (self.keyId, utils.exportKeyToPEM(self.key),
+                utils.exportCertToPEM(self.cert) if self.cert else None)
+
+    def __setstate__(self, state):
+        self.keyId, key, cert = state
+        self.key = utils.loadPubKey(utils.addPEMPubKeyHeaders(key))
+        self.cert = utils.loadCert(
+                utils.addPEMCertHeaders(cert)) if cert else None
+
 class KeyStore(KeyStoreI):
     """
     A basic implementation of a key store. It allows writing the store to and
-- 
2.43.0


From 02cfa9ebb6faa31f170cd82ec7353f1d3a16fcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:32 +0000
Subject: [PATCH 30/34] fix: verify in rktool with the key store a verification
 was started with

The worker pool may pickle its arguments later, while the user already
changed the key store.
---
 rktool.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rktool.py b/rktool.py
index 9182d66..f1f8e86 100755
--- a/rktool.py
+++ b/rktool.py
@@ -23,6 +23,7 @@ from builtins import range
 import kivy
 kivy.require('1.9.0')
 
+import copy
 import os
 
 from functools import partial
@@ -349,7 +350,8 @@ class ViewReceiptWidget(BoxLayout):
 
         App.get_running_app().pool.apply_async(verifyReceiptTask,
                 (self._receipt, self._algorithmPrefix,
-                    App.get_running_app().keyStore), callback=self.verifyCb)
+                    copy.deepcopy(App.get_running_app().keyStore)),
+                callback=self.verifyCb)
 
     @mainthread
     def verifyCb(self, result):
@@ -699,9 +701,10 @@ class VerifyDEPWidget(BoxLayout):
         self._run += 1
         self.verify_button.text = _('Verifying...')
 
+        # The pool may pickle the key store only later, after it was changed.
         App.get_running_app().pool.apply_async(verifyDEP_prepare_Task,
-                (self.dep, App.get_running_app().keyStore, key,
-                    App.get_running_app().nprocs),
+                (self.dep, copy.deepcopy(App.get_running_app().keyStore),
+                    key, App.get_running_app().nprocs),
                 callback = partial(self.verifyDEP_prepare_Cb, self._run))
 
     @mainthread
-- 
2.43.0


From 698e43a32c1dd2ce75004973599d29765cb8930f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:49 +0000
Subject: [PATCH 31/34] fix: report a damaged AES key of a key container as
 InvalidKeyException

---
 librksv/utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/librksv/utils.py b/librksv/utils.py
index 0a332fa..02512c5 100644
--- a/librksv/utils.py
+++ b/librksv/utils.py
@@ -97,14 +97,20 @@ def loadKeyFromJson(json):
     :param json: The JSON data.
     :return: The key as a byte list or None if there is no key element in
     the JSON.
+    :throws: InvalidKeyException
     """
     b64Key = None
     try:
         b64Key = json['base64AESKey']
     except KeyError:
         return None
+    except TypeError:
+        raise InvalidKeyException()
 
-    return loadB64Key(b64Key.encode('utf-8'))
+    try:
+        return loadB64Key(b64Key.encode('utf-8'))
+    except (AttributeError, TypeError, ValueError):
+        raise InvalidKeyException()
 
 def sha256(data):
     """
-- 
2.43.0


From b38e9ef7e2ace0951fe90c396e4b2eb934a64ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:18 +0000
Subject: [PATCH 32/34] fix: count in the turnover counter what the receipt
 shows, not parts of a cent lost there

---
 librksv/cashreg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/librksv/cashreg.py b/librksv/cashreg.py
index 5e54537..7e2450e 100644
--- a/librksv/cashreg.py
+++ b/librksv/cashreg.py
@@ -154,7 +154,9 @@ class CashRegister(CashRegisterI):
         else:
             # TODO: check if counter can still be represented with
             # given size
-            turnoverCounter += int(round((sumA + sumB + sumC + sumD + sumE) * 100))
+            # The sums on the receipt count, not fractions of a cent lost there.
+            turnoverCounter += int(round((regularRec.sumA + regularRec.sumB +
+                regularRec.sumC + regularRec.sumD + regularRec.sumE) * 100))
             if 'turnoverCounter' in override:
                 turnoverCounter = int(override['turnoverCounter'])
 
-- 
2.43.0


From 683057b58b1d4331cffa8b63ecb75eebe0ab67dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:18 +0000
Subject: [PATCH 33/34] fix: reject a boolean as the turnover counter of a
 saved state

---
 librksv/verification_state.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/librksv/verification_state.py b/librksv/verification_state.py
index 1ec00a6..99f76b5 100644
--- a/librksv/verification_state.py
+++ b/librksv/verification_state.py
@@ -343,7 +343,8 @@ class CashRegisterState(object):
                     _('not a string'), regidx)
 
         ret.lastTurnoverCounter = d['lastTurnoverCounter']
-        if not isinstance(ret.lastTurnoverCounter, int):
+        if (not isinstance(ret.lastTurnoverCounter, int) or
+                isinstance(ret.lastTurnoverCounter, bool)):
             raise MalformedStateElementException('lastTurnoverCounter',
                     _('not an integer'), regidx)
 
-- 
2.43.0


From 2dec0b08bc5df8a4db3d0ca6d18baeecd7d9f24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:55 +0000
Subject: [PATCH 34/34] fix: report an empty certificate ID in a key store as
 KeyStoreParseException

---
 librksv/key_store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librksv/key_store.py b/librksv/key_store.py
index 3c91abe..b6fa646 100644
--- a/librksv/key_store.py
+++ b/librksv/key_store.py
@@ -195,7 +195,7 @@ def strSerialToKeyIds(serial):
     empty if the serial is invalid.
     """
     # for some reason the ref impl has a negative serial on some certs
-    if serial[0] == '-':
+    if serial[:1] == '-':
         serial = serial[1:]
 
     validKeyIds = list()
-- 
2.43.0

