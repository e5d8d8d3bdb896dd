From 349e03349eed566dede0fabaa073a80524f37d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 001/167] fix: WebDBer.addOnIoSetVal returns False on an empty
 key, as documented

---
 src/keri/db/webdbing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keri/db/webdbing.py b/src/keri/db/webdbing.py
index d9f55ba..92dbff7 100644
--- a/src/keri/db/webdbing.py
+++ b/src/keri/db/webdbing.py
@@ -1621,6 +1621,8 @@ class WebDBer:
         Assumes DB opened with dupsort=False
         """
         # val of None will return False
+        if not key:
+            return False
         return self.addIoSetVal(db=db, key=onKey(key, on, sep=sep), val=val, sep=sep)
 
 
-- 
2.43.0


From 5047a7f5b9defb974730e99402490e768e29470a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 002/167] fix: WebDBer.appendOnIoSetVals marks the store dirty

Appended sets were skipped by flush() and lost on reopen.
---
 src/keri/db/webdbing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/keri/db/webdbing.py b/src/keri/db/webdbing.py
index 92dbff7..e99d302 100644
--- a/src/keri/db/webdbing.py
+++ b/src/keri/db/webdbing.py
@@ -1592,6 +1592,7 @@ class WebDBer:
                 )
             items[iokey] = val
 
+        db.dirty = True
         return on
 
 
-- 
2.43.0


From 3c167ce4eb5f3a2060d53818ccc9ffcb08bb77d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 003/167] fix: WebDBer.appendOnIoSetVals stores each value once

The values at an onkey are a set; a repeated value was stored twice.
---
 src/keri/db/webdbing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/db/webdbing.py b/src/keri/db/webdbing.py
index e99d302..653dcb8 100644
--- a/src/keri/db/webdbing.py
+++ b/src/keri/db/webdbing.py
@@ -1584,7 +1584,7 @@ class WebDBer:
 
         onkey = onKey(key, on, sep=sep)
 
-        for ion, val in enumerate(vals):
+        for ion, val in enumerate(oset(vals)):
             iokey = suffix(onkey, ion=ion, sep=sep)
             if iokey in items:
                 raise ValueError(
-- 
2.43.0


From 44f7ec3878d26b112198938385330d88e362dda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 004/167] fix: WebDBer.remOnAllIoSet marks the store dirty

Removed sets came back on reopen.
---
 src/keri/db/webdbing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keri/db/webdbing.py b/src/keri/db/webdbing.py
index 653dcb8..083e90c 100644
--- a/src/keri/db/webdbing.py
+++ b/src/keri/db/webdbing.py
@@ -1785,6 +1785,8 @@ class WebDBer:
             del items[iokey]
             result = True
 
+        if result:
+            db.dirty = True
         return result
 
 
-- 
2.43.0


From 4c65f990f4078e8a88f570cf134b18294ea6bf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 005/167] fix: WebDBer.flush keeps writes made while a sync is
 pending dirty

A write that landed during the await was marked clean without having been
serialized, so no later flush persisted it.
---
 src/keri/db/webdbing.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/keri/db/webdbing.py b/src/keri/db/webdbing.py
index 083e90c..ca2ece5 100644
--- a/src/keri/db/webdbing.py
+++ b/src/keri/db/webdbing.py
@@ -322,8 +322,12 @@ class WebDBer:
                 continue
             subdb.handle[_RECORDS_KEY] = _serialize_records(subdb.items)
             subdb.handle[_META_KEY] = _serialize_meta({"dupsort": subdb.dupsort})
-            await subdb.handle.sync()
-            subdb.dirty = False
+            subdb.dirty = False  # writes made during sync set it again
+            try:
+                await subdb.handle.sync()
+            except BaseException:
+                subdb.dirty = True
+                raise
             count += 1
         return count
 
-- 
2.43.0


From b859c40fd8e1dd25bc6c4b788fc3d745891fcad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 006/167] fix: LMDBer.putOnIoDupVals checks duplicates at its
 own ordinal

It looked at ordinal 0 with the default separator, so it dropped values only
present at ordinal 0 and duplicated values already present at on.
---
 src/keri/db/dbing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 760c527..c398e79 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -2782,7 +2782,7 @@ class LMDBer(filing.Filer):
             sep (bytes): separator character for split"""
 
         result = False
-        dups = set(self.getOnIoDupVals(db, key))  #get preexisting dups if any
+        dups = set(self.getOnIoDupVals(db, key, on=on, sep=sep))  #get preexisting dups if any
         with self.env.begin(db=db, write=True, buffers=True) as txn:
             idx = 0
             cursor = txn.cursor()
-- 
2.43.0


From db41aeca393fed646248f2a25646beaafabe5326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 007/167] fix: LMDBer.appendOnIoSetVals stores each value once

---
 src/keri/db/dbing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index c398e79..c358bab 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -1641,7 +1641,7 @@ class LMDBer(filing.Filer):
                     # else no earlier key so create zeroth entry at key
 
             onkey = onKey(key, on, sep=sep)  # create onkey at on
-            for ion, val in enumerate(vals):
+            for ion, val in enumerate(oset(vals)):
                 iokey = suffix(onkey, ion=ion, sep=sep) # create suffix key
                 if not cursor.put(iokey, val, overwrite=False):
                     raise  ValueError(f"Failed appending {val=} at {key=} {on=} "
-- 
2.43.0


From ef9e38325a711d4552514be26af7bdd7232d2140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 008/167] fix: LMDBer.addOnIoSetVal returns False on an empty
 key, as documented

---
 src/keri/db/dbing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index c358bab..b371580 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -1678,6 +1678,8 @@ class LMDBer(filing.Filer):
         transparently suffixed and unsuffixed
         Assumes DB opened with dupsort=False"""
         # val of None will return False
+        if not key:
+            return False
         return self.addIoSetVal(db=db, key=onKey(key, on, sep=sep), val=val, sep=sep)
 
 
-- 
2.43.0


From 3dc3b1058263cda75f3573619f8c7bf9a5f4477a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 009/167] fix: LMDBer.getOnIoDupLastItemIter uses the caller's
 separator throughout

---
 src/keri/db/dbing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index b371580..02fb6a1 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -3057,7 +3057,7 @@ class LMDBer(filing.Filer):
                     break
 
                 yield (ckey, on, cval[33:])  # slice off prepended ordering proem
-                onkey = onKey(ckey, on+1)
+                onkey = onKey(ckey, on+1, sep=sep)
                 if not cursor.set_range(onkey):  # # moves to first_dup at key>=onkey
                     return  # no values end of db raises StopIteration
 
-- 
2.43.0


From 445c9df4267aa9b63cb8f825fb3f8868bb5a741a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 010/167] fix: LMDBer.getIoSetLastItemIterAll uses the caller's
 separator throughout

---
 src/keri/db/dbing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 02fb6a1..162d105 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -1454,7 +1454,7 @@ class LMDBer(filing.Filer):
                 key, ion= unsuffix(iokey, sep=sep)
             else:
                 ion = 0
-                iokey = suffix(key, ion) # walk hidden branches starting from zero
+                iokey = suffix(key, ion, sep=sep) # walk hidden branches starting from zero
             last = None
             if cursor.set_range(iokey):  # not past end of database
                 for ciokey, cval in cursor.iternext():  # get iokey, val at cursor
-- 
2.43.0


From f5f07f643e68904051068eac3e0fc7ae343bff70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 011/167] fix: LMDBer.getOnIoDupItemBackIter starts at the
 greatest ordinal <= on

When onkey was absent it started at the next greater ordinal.
---
 src/keri/db/dbing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 162d105..9dfacf8 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -3211,7 +3211,7 @@ class LMDBer(filing.Filer):
                 onkey = onKey(key, on, sep=sep)  # start replay at this enty 0 is earliest
                 if cursor.set_range(onkey):  #  found key >= onkey
                     ckey, cn = splitOnKey(cursor.key(), sep=sep)
-                    if ckey == key: # onkey in db
+                    if ckey == key and cn == on: # onkey in db
                         cursor.last_dup()  # start at its last dup
                     else:  # get closest key < onkey
                         if not cursor.prev():  # last dup of previous key
-- 
2.43.0


From d65a8ccca93897a3db75091685f4607abc4dd897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 012/167] fix: backward ordinal set iterators end instead of
 raising ValueError

With no entry at or before the start (an empty sub-db, or a key that sorts
before every entry) they unsuffixed the empty key of an unpositioned cursor.
---
 src/keri/db/dbing.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 9dfacf8..9ac720e 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -2091,7 +2091,8 @@ class LMDBer(filing.Filer):
                 conkey, cion = unsuffix(ciokey, sep=sep)
                 ckey, con = splitOnKey(conkey, sep=sep)
                 if not ckey == key or not con <= on:  # cursor at next onkey
-                    cursor.prev()
+                    if not cursor.prev():
+                        return  # no earlier entries
                     ciokey = cursor.key()
                     conkey, cion = unsuffix(ciokey, sep=sep)
                     ckey, con = splitOnKey(conkey, sep=sep)
@@ -2148,13 +2149,15 @@ class LMDBer(filing.Filer):
                     iokey = suffix(onkey, ion=MaxON, sep=sep)  # set to max ion
 
                 if not cursor.set_range(iokey):  # key is last key so maxon to big
-                    cursor.last()  # so find greatest on
+                    if not cursor.last():  # so find greatest on
+                        return  # empty database so raise StopIteration
 
                 ciokey, cval= cursor.item()
                 conkey, cion = unsuffix(ciokey, sep=sep)
                 ckey, con = splitOnKey(conkey, sep=sep)
                 if not ckey == key or not con <= on:  # cursor at next onkey
-                    cursor.prev()
+                    if not cursor.prev():
+                        return  # no earlier entries
                     ciokey, cval= cursor.item()
                     conkey, cion = unsuffix(ciokey, sep=sep)
                     ckey, con = splitOnKey(conkey, sep=sep)
-- 
2.43.0


From 99465ac6e91b8d5794f53898b5f04fe79d71c6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 013/167] fix: LMDBer.getOnIoDupLastItemIter ends after an
 entry at the maximum ordinal

onKey(key, MaxON + 1) sorts before every ordinal of key, so it looped forever.
---
 src/keri/db/dbing.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 9ac720e..449091b 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -3060,8 +3060,7 @@ class LMDBer(filing.Filer):
                     break
 
                 yield (ckey, on, cval[33:])  # slice off prepended ordering proem
-                onkey = onKey(ckey, on+1, sep=sep)
-                if not cursor.set_range(onkey):  # # moves to first_dup at key>=onkey
+                if not cursor.next_nodup():  # moves to first_dup of next key
                     return  # no values end of db raises StopIteration
 
 
-- 
2.43.0


From 757a4b6f9d62c6660dcbc087ed36e7203832ea01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 014/167] fix: LMDBer.getOnAllIoSetLastItemIter uses the
 caller's separator throughout

---
 src/keri/db/dbing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 449091b..f626034 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -2018,8 +2018,8 @@ class LMDBer(filing.Filer):
                     return  # raises StopIterationError
                 iokey = cursor.key()
             else:
-                onkey = onKey(key, on)
-                iokey = suffix(onkey, 0) # walk hidden branches starting from zero
+                onkey = onKey(key, on, sep=sep)
+                iokey = suffix(onkey, 0, sep=sep) # walk hidden branches starting from zero
 
             last = None
 
-- 
2.43.0


From b1429fd2bb9bab8e8cbb1257a090e5521be3c336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 015/167] fix: LMDBer.getIoSetLastItem uses the caller's
 separator throughout

---
 src/keri/db/dbing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index f626034..5d834ca 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -1269,7 +1269,7 @@ class LMDBer(filing.Filer):
             last = ()
             if not key:
                 return last
-            iokey = suffix(key, 0) # walk hidden branches starting from zero
+            iokey = suffix(key, 0, sep=sep) # walk hidden branches starting from zero
             cursor = txn.cursor()  # create cursor to walk back
             if cursor.set_range(iokey):  # not past end of database
                 for ciokey, cval in cursor.iternext():  # get iokey, val at cursor
-- 
2.43.0


From 032113854380aeb8b56bbbce8afe0fd1d7ca5f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 016/167] fix: LMDBer.getOnItem returns an entry whose value is
 empty

---
 src/keri/db/dbing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 5d834ca..b7690a7 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -873,7 +873,7 @@ class LMDBer(filing.Filer):
         with self.env.begin(db=db, write=False, buffers=True) as txn:
             onkey = onKey(key, on, sep=sep)  # start replay at this enty 0 is earliest
             try:
-                if val := txn.get(onkey):
+                if (val := txn.get(onkey)) is not None:
                     return (key, on, val)
                 else:
                     return None
-- 
2.43.0


From 3a2117f1b2177dcba00683395c5b692ea8e9bebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 017/167] fix: LMDBer.appendOnIoSetVals refuses to exceed the
 maximum ordinal

Unless the set at the maximum ordinal also held the maximum insertion ordinal
it wrote an entry whose 33 digit ordinal sorts out of order.
---
 src/keri/db/dbing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index b7690a7..492cd92 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -1640,6 +1640,10 @@ class LMDBer(filing.Filer):
                         # else earlier key so create zeroth entry at key
                     # else no earlier key so create zeroth entry at key
 
+            if on > MaxON:  # last entry for same key is already at max
+                raise ValueError(f"Failed append entry to {key=}, would "
+                                 f"exceed max on at {MaxON=}")
+
             onkey = onKey(key, on, sep=sep)  # create onkey at on
             for ion, val in enumerate(oset(vals)):
                 iokey = suffix(onkey, ion=ion, sep=sep) # create suffix key
-- 
2.43.0


From b10ff2ae5788010d542099c4e87ad9f487789d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 018/167] fix: spec example checker reports true against 1 and
 false against 0

Python bools are ints, so this drift compared equal.
---
 tools/check_spec_examples.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/check_spec_examples.py b/tools/check_spec_examples.py
index 46a5811..e7e26ea 100644
--- a/tools/check_spec_examples.py
+++ b/tools/check_spec_examples.py
@@ -103,8 +103,9 @@ def parse_spec_blocks(text):
 def _diff_paths(expected, actual, path=""):
     """Yield concise 'path: detail' strings describing where two JSON values
     differ. `expected` is the manifest (canonical); `actual` is the spec."""
-    if type(expected) is not type(actual) and not (
-        isinstance(expected, (int, float)) and isinstance(actual, (int, float))
+    if type(expected) is not type(actual) and (
+        isinstance(expected, bool) or isinstance(actual, bool) or not (
+            isinstance(expected, (int, float)) and isinstance(actual, (int, float)))
     ):
         yield (f"{path or '(root)'}: type differs "
                f"(manifest={type(expected).__name__}, "
-- 
2.43.0


From 9e854bacafb24fd88659e8c4080d5f1449dee857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 019/167] fix: spec example tagger does not repeat a marker
 already in the spec

A second fence with the same value got the same marker, which the checker
then rejects as a duplicate.
---
 tools/tag_spec_examples.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/tag_spec_examples.py b/tools/tag_spec_examples.py
index 584e7f3..2b1b458 100644
--- a/tools/tag_spec_examples.py
+++ b/tools/tag_spec_examples.py
@@ -77,6 +77,9 @@ def tag(manifest, text):
     tagged = []
     warnings = []
     used = set()
+    for line in lines:  # names which already have a marker
+        if _MARKER_RE.match(line):
+            used.add(line.split("example:", 1)[1].rsplit("-->", 1)[0].strip())
 
     for open_idx, close_idx, lang, body in blocks:
         try:
-- 
2.43.0


From 2021317a1fe0f653b9e918bd8e19555931ba9372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 020/167] fix: Matter reports a shortage when its code itself
 is cut short

---
 src/keri/core/coring.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keri/core/coring.py b/src/keri/core/coring.py
index 006fbd7..1160b85 100644
--- a/src/keri/core/coring.py
+++ b/src/keri/core/coring.py
@@ -1381,6 +1381,9 @@ class Matter:
         # when fs is None then ss > 0 otherwise fs > hs + ss when ss > 0
 
 
+        if len(qb64b) < cs:  # need more bytes
+            raise ShortageError(f"Need {cs - len(qb64b)} more characters.")
+
         # extract soft chars including xtra, empty when ss==0 and xs == 0
         # assumes that when ss == 0 then xs must be 0
         soft = qb64b[hs:hs+ss]
-- 
2.43.0


From 811671d7e8b361573bd08e6a62b4cb1178abb1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:33 +0000
Subject: [PATCH 021/167] fix: Matter and Indexer refuse text with characters
 outside Base64

Characters + and / were taken for - and _, and a special soft part was
taken as is, so one value had several accepted encodings.
---
 src/keri/core/coring.py   | 4 ++++
 src/keri/core/indexing.py | 4 +++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/keri/core/coring.py b/src/keri/core/coring.py
index 1160b85..54ad058 100644
--- a/src/keri/core/coring.py
+++ b/src/keri/core/coring.py
@@ -1395,6 +1395,8 @@ class Matter:
         soft = soft[xs:]  # strip xtra from soft
         if xtra != f"{self.Pad * xs}":
             raise UnexpectedCodeError(f"Invalid prepad xtra ={xtra}.")
+        if not Reb64.match(soft.encode()):
+            raise ConversionError(f"Non Base64 chars in {soft=}.")
 
         if not fs:  # compute fs from soft from ss part which provides size B64
             # compute variable size as int may have value 0
@@ -1408,6 +1410,8 @@ class Matter:
             qb64b = bytes(qb64b)
         if hasattr(qb64b, "encode"):  # only convert extracted chars from stream
             qb64b = qb64b.encode()  # converts str to bytes
+        if not Reb64.match(qb64b):  # decodeB64 skips or translates others
+            raise ConversionError(f"Non Base64 chars in {qb64b}.")
 
         # check for non-zeroed pad bits and/or lead bytes
         # net prepad ps == cs % 4 (remainer).  Assumes ps != 3 i.e ps in (0,1,2)
diff --git a/src/keri/core/indexing.py b/src/keri/core/indexing.py
index d5ff4aa..911abd6 100644
--- a/src/keri/core/indexing.py
+++ b/src/keri/core/indexing.py
@@ -15,7 +15,7 @@ from ..kering import (EmptyMaterialError, RawMaterialError, InvalidCodeSizeError
                       UnexpectedCountCodeError, UnexpectedOpCodeError)
 
 from ..help import (sceil, intToB64, b64ToInt,
-                    codeB64ToB2, codeB2ToB64, nabSextets)
+                    codeB64ToB2, codeB2ToB64, nabSextets, Reb64)
 
 
 @dataclass(frozen=True)
@@ -597,6 +597,8 @@ class Indexer:
         qb64b = qb64b[:fs]  # fully qualified primitive code plus material
         if hasattr(qb64b, "encode"):  # only convert extracted chars from stream
             qb64b = qb64b.encode("utf-8")
+        if not Reb64.match(qb64b):  # decodeB64 skips or translates others
+            raise ConversionError(f"Non Base64 chars in {qb64b}.")
 
         # strip off prepended code and append pad characters
         #ps = cs % 4  # pad size ps = cs mod 4, same pad chars and lead bytes
-- 
2.43.0


From 9662690d113b83c92f28aa03c86e10775d2bb79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:14 +0000
Subject: [PATCH 022/167] fix: Decimer keeps the sign of a large number's
 exponent

The + of 1e+22 was taken for a Base64 character and read back as 1e-22.
---
 src/keri/core/coring.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/keri/core/coring.py b/src/keri/core/coring.py
index 54ad058..008e30a 100644
--- a/src/keri/core/coring.py
+++ b/src/keri/core/coring.py
@@ -1962,6 +1962,7 @@ class Decimer(Matter):
             except ValueError:  # float not int
                 decimal = float(dns)  # make round trippable
                 dns = f"{decimal}"  # -0.0 is valid, float('-0.0') is -0.0
+                dns = dns.replace("+", "")  # exponent sign + is not Base64
 
             raw = self._rawify(dns)
 
-- 
2.43.0


From 3c42b07c851fe7f869b3b6658c0257b501475ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:14 +0000
Subject: [PATCH 023/167] fix: Decimer takes its decimal number string as bytes

---
 src/keri/core/coring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/coring.py b/src/keri/core/coring.py
index 008e30a..9599b3f 100644
--- a/src/keri/core/coring.py
+++ b/src/keri/core/coring.py
@@ -1953,7 +1953,7 @@ class Decimer(Matter):
                                          f"dns, or decimer input")
 
             if hasattr(dns, "decode"):
-                dns = dns.decode("")  # convert to str
+                dns = dns.decode()  # convert to str
 
             # make round trippable extra leading 0's , +
             try:
-- 
2.43.0


From 243cfab146b89493cf0f7328c625a95cd09c545d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:14 +0000
Subject: [PATCH 024/167] fix: a label or path part may not end with a newline

The newline passed as Base64 and was dropped or refused when encoded.
---
 src/keri/help/helping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/help/helping.py b/src/keri/help/helping.py
index 1b4722d..4514b74 100644
--- a/src/keri/help/helping.py
+++ b/src/keri/help/helping.py
@@ -428,13 +428,13 @@ def verify64uEd25519(signature, message, verkey):
 
 
 # Regular expression to detect valid attributish names as bytes
-ATREX = rb'^[a-zA-Z_][a-zA-Z0-9_]*$'  # bytes MUST NOT be empty string
+ATREX = rb'^[a-zA-Z_][a-zA-Z0-9_]*\Z'  # bytes MUST NOT be empty string
 # Usage: if Reat.match(name): or if not Reat.match(name):
 Reatt = re.compile(ATREX)  # compile is faster
 
 
 # Regular expression to detect Base64 path parts as bytes excluding b'-' in part
 # because '-' is path separator when in B64
-PATHREX = rb'^[a-zA-Z0-9_]*$'  # bytes May be empty string
+PATHREX = rb'^[a-zA-Z0-9_]*\Z'  # bytes May be empty string
 # Usage: if Reat.match(name): or if not Reat.match(name):
 Repath = re.compile(PATHREX)  # compile is faster
-- 
2.43.0


From 3e578fedd874c16cf5511c4459929ad48bf3f619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:14 +0000
Subject: [PATCH 025/167] fix: Pather.strip removes its root from the front
 only

Parts were removed wherever they occurred, so stripping /b from /a/b gave /a.
---
 src/keri/core/coring.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/keri/core/coring.py b/src/keri/core/coring.py
index 9599b3f..895c42d 100644
--- a/src/keri/core/coring.py
+++ b/src/keri/core/coring.py
@@ -3101,14 +3101,11 @@ class Pather(Matter):
         if len(root.parts) > len(self.parts):
             return Pather(parts=self.parts)
 
-        parts = list(self.parts)
-        try:
-            for i in root.parts:
-                parts.remove(i)
-        except ValueError:
+        size = len(root.parts)
+        if self.parts[:size] != root.parts:
             return Pather(parts=self.parts)
 
-        return Pather(parts=parts)
+        return Pather(parts=self.parts[size:])
 
 
     def startswith(self, pather):
-- 
2.43.0


From 88fb3f67b77a43f7d5118b92034aef73504464a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:12 +0000
Subject: [PATCH 026/167] fix: a numeric threshold counts each signature index
 once

---
 src/keri/core/coring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/coring.py b/src/keri/core/coring.py
index 895c42d..963b7f8 100644
--- a/src/keri/core/coring.py
+++ b/src/keri/core/coring.py
@@ -4666,7 +4666,7 @@ class Tholder:
         Parameters:
             indices: list of indices (offsets into key list) of verified signatures"""
         try:
-            if self.thold > 0 and len(indices) >= self.thold:  # at least one
+            if self.thold > 0 and len(set(indices)) >= self.thold:  # at least one
                 return True
 
         except Exception as ex:
-- 
2.43.0


From 37a80f772d14fc97bbce25bdc753e1f11ed1e8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:19 +0000
Subject: [PATCH 027/167] fix: a recovery rotation changes the witnesses as it
 says

---
 src/keri/core/eventing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index b500346..6eb5318 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -2698,7 +2698,10 @@ class Kever:
 
         Parameters:
             serder (SerderKeri): instance of current event"""
-        if serder.ilk not in (Ilks.rot, Ilks.drt) or self.sn >= serder.sn:  # no changes
+        # a recovery rotation follows the last establishment event but not the
+        # last event so its changes apply to the witnesses of that establishment
+        if (serder.ilk not in (Ilks.rot, Ilks.drt) or
+                self.lastEst.s >= serder.sn):  # no changes
             return self.wits, self.cuts, self.adds
 
         witset = oset(self.wits)
-- 
2.43.0


From 8a6a99645a8250d2015d382977eab38d9a2e909f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:44 +0000
Subject: [PATCH 028/167] fix: each witness counts once toward the witness
 threshold

---
 src/keri/core/eventing.py | 4 ++--
 src/keri/db/basing.py     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 6eb5318..b59cc26 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -2894,7 +2894,7 @@ class Kever:
                     if toader.num != 0:  # invalid toad
                         raise ValidationError(f"Invalid toad = {toader.num} for wits = {wits}")
 
-                if len(windices) < toader.num:  # not fully witnessed yet
+                if len(set(windices)) < toader.num:  # not fully witnessed yet
                     if self.escrowPWEvent(serder=serder, wigers=wigers, sigers=sigers,
                                           delsner=delsner, delsger=delsger,
                                           local=local):
@@ -5627,7 +5627,7 @@ class Kevery:
             wigers = self.db.wigs.get(keys=(pre, kever.serder.saidb))
 
 
-            if len(wigers) < kever.toader.num:
+            if len({wiger.index for wiger in wigers}) < kever.toader.num:
                 self.escrowQueryNotFoundEvent(serder=serder, prefixer=source, sigers=sigers, cigars=cigars)
                 msg = f"Query not found error on event route={route} SAID={serder.said}"
                 logger.debug(msg)
diff --git a/src/keri/db/basing.py b/src/keri/db/basing.py
index 6de2d91..636e688 100644
--- a/src/keri/db/basing.py
+++ b/src/keri/db/basing.py
@@ -2080,7 +2080,7 @@ class Baser(LMDBer):
         kever = self.kevers[serder.pre]
         toad = kever.toader.num
 
-        return not len(wigers) < toad
+        return not len({wiger.index for wiger in wigers}) < toad
 
     def resolveVerifiers(self, pre=None, sn=0, dig=None):
         """
-- 
2.43.0


From 3809392a76e0ff6dbe3d1960cdddd58f534bb6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:10 +0000
Subject: [PATCH 029/167] fix: a delegated rotation is refused on an identifier
 that is not delegated

---
 src/keri/core/eventing.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index b59cc26..4c67ac0 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -2482,6 +2482,11 @@ class Kever:
                                       "delegated pre = {} with evt = {}."
                                       "".format(serder.pre, ked))
 
+            if not self.delegated and ilk == Ilks.drt:
+                raise ValidationError("Attempted delegated rotation on non "
+                                      "delegated pre = {} with evt = {}."
+                                      "".format(serder.pre, ked))
+
             tholder, toader, wits, cuts, adds = self.rotate(serder)
 
             # Validates signers, delegation if any, and witnessing when applicable
-- 
2.43.0


From 6448d97e7e6e9135a0c9cd71b73dab24e31c8a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:44 +0000
Subject: [PATCH 030/167] fix: removed witnesses or backers may be listed in
 any order

---
 src/keri/core/eventing.py | 6 +++---
 src/keri/vdr/eventing.py  | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 4c67ac0..8777731 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -801,7 +801,7 @@ def rotate(pre,
     if len(cutset) != len(cuts):
         raise ValueError(f"Invalid cuts = {cuts}, has duplicates.")
 
-    if (witset & cutset) != cutset:  # some cuts not in wits
+    if cutset - witset:  # some cuts not in wits
         raise ValueError(f"Invalid cuts = {cuts}, not all members in wits.")
 
     adds = adds if adds is not None else []
@@ -2716,7 +2716,7 @@ class Kever:
             raise ValidationError("Invalid cuts = {cuts}, has duplicates for "
                                   f"evt = {serder.ked}.")
 
-        if (witset & cutset) != cutset:  # some cuts not in wits
+        if cutset - witset:  # some cuts not in wits
             raise ValidationError(f"Invalid cuts = {cuts}, not all members in "
                                   f"wits for evt = {serder.ked}.")
 
@@ -7156,7 +7156,7 @@ class Kevery:
                 if len(cutset) != len(cuts):
                     raise ValidationError("Invalid cuts={}, has duplicates "
                                           "for evt={}.".format(cuts, serder.ked))
-                if (witset & cutset) != cutset:  # some cuts not in wits
+                if cutset - witset:  # some cuts not in wits
                     raise ValidationError("Invalid cuts={}, not all members "
                                           "in wits for evt={}.".format(cuts, serder.ked))
                 if len(addset) != len(adds):
diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index b3531b2..c27ebeb 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -167,7 +167,7 @@ def rotate(
     if len(cutset) != len(cuts):
         raise ValueError("Invalid cuts = {}, has duplicates.".format(cuts))
 
-    if (bakset & cutset) != cutset:  # some cuts not in wits
+    if cutset - bakset:  # some cuts not in wits
         raise ValueError("Invalid cuts = {}, not all members in baks.".format(cuts))
 
     adds = adds if adds is not None else []
@@ -964,7 +964,7 @@ class Tever:
             raise ValidationError("Invalid cuts = {}, has duplicates for evt = "
                                   "{}.".format(cuts, ked))
 
-        if (witset & cutset) != cutset:  # some cuts not in baks
+        if cutset - witset:  # some cuts not in baks
             raise ValidationError("Invalid cuts = {}, not all members in baks"
                                   " for evt = {}.".format(cuts, ked))
 
-- 
2.43.0


From 2a6ef236268a49c260deff890996e494b036ab52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:18 +0000
Subject: [PATCH 031/167] fix: likely duplicitous events are escrowed, with
 their source

---
 src/keri/core/eventing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 8777731..daa067e 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -4357,7 +4357,7 @@ class Kevery:
                         kever.logEvent(serder, sigers=sigers, wigers=wigers)
 
                 else:  # escrow likely duplicitous event
-                    self.escrowLDEvent(serder=serder, sigers=sigers)
+                    self.escrowLDEvent(serder=serder, sigers=sigers, local=local)
                     msg = f"Likely Duplicitous Event sn={serder.sn} type={serder.ilk} SAID={serder.said}"
                     logger.debug(msg)
                     logger.debug("Duplicitous event body=\n%s\n", serder.pretty())
@@ -4442,7 +4442,7 @@ class Kevery:
                             kever.logEvent(serder, sigers=sigers, wigers=wigers)  # idempotent update db logs
 
                     else:  # escrow likely duplicitous event
-                        self.escrowLDEvent(serder=serder, sigers=sigers)
+                        self.escrowLDEvent(serder=serder, sigers=sigers, local=local)
                         msg = f"Likely Duplicitous Event sn={serder.sn} type={serder.ilk} SAID={serder.said}"
                         logger.debug(msg)
                         logger.debug("Duplicitous event body=\n%s\n", serder.pretty())
@@ -5819,7 +5819,7 @@ class Kevery:
         self.db.dtss.put(keys=dgkey, val=Dater())
         self.db.sigs.put(keys=dgkey, vals=sigers)
         self.db.evts.put(keys=(serder.preb, serder.saidb), val=serder)
-        self.db.addLde(snKey(serder.preb, serder.sn), serder.saidb)
+        self.db.ldes.add(keys=serder.preb, on=serder.sn, val=serder.saidb)
         # log duplicitous
         logger.debug("Kevery process: escrowed likely duplicitous event=\n%s\n", serder.pretty())
 
-- 
2.43.0


From 479d1256047de14dfe83eb98a57a4fba746802cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:45 +0000
Subject: [PATCH 032/167] fix: only verified signatures stay with an accepted
 event

Signatures escrowed with an out of order or likely duplicitous event are
not verified; drop those that do not verify once the event is accepted.
---
 src/keri/core/eventing.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index daa067e..3f69756 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -3679,6 +3679,16 @@ class Kever:
 
         pre = self.prefixer.qb64
         if first:  # append event dig to first seen database in order
+            # keep only verified signatures since event may have been escrowed
+            # with unverified ones before its keys or witnesses were known
+            for db, keys in ((self.db.sigs, serder.verfers or self.verfers),
+                             (self.db.wigs, [Verfer(qb64=wit) for wit in
+                                   (wits if wits is not None else self.wits)])):
+                escrowed = db.get(keys=dgkey)
+                verified, _ = verifySigs(raw=serder.raw, sigers=escrowed, verfers=keys)
+                if len(verified) != len(escrowed):
+                    if not db.pin(keys=dgkey, vals=verified):
+                        db.rem(keys=dgkey)
             fn = self.db.fels.append(keys=serder.preb, val=serder.saidb)
             if firner and fn != firner.sn:  # cloned replay but replay fn not match
                 if self.cues is not None:  # cue to notice BadCloneFN
-- 
2.43.0


From f660789c948b4e55c4c6b0086673deaf86afc9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:57 +0000
Subject: [PATCH 033/167] fix: an escrowed receipt is matched with the
 witnesses of its own event

---
 src/keri/core/eventing.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 3f69756..cd8b4cf 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -6868,10 +6868,8 @@ class Kevery:
                         logger.trace("Kevery unescrow error: %s", msg)
                         raise UnverifiedReceiptError(msg)
 
-                    # get current wits from kever state assuming not stale
-                    # receipt. Need function here to compute wits for actual
-                    # state at pre, sn. XXXX
-                    wits = self.kevers[serder.pre].wits
+                    # witnesses in force at the receipted event
+                    wits = [wit.qb64 for wit in self.fetchWitnessState(pre, sn)]
                     rpre = cigar.verfer.qb64  # prefix of receiptor
                     if rpre in wits:  # its a witness receipt
                         # this only works for extra receipts that come in later
-- 
2.43.0


From 09676816ca29920e04a0d55e7ca8cc62eda9a350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:29 +0000
Subject: [PATCH 034/167] fix: early witness receipts of an event accepted
 without them are kept

---
 src/keri/core/eventing.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index cd8b4cf..b24f12e 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -6727,10 +6727,25 @@ class Kevery:
                                                      wiger=wiger)
 
                 if not found:  # no partial witness escrow of event found
-                    # so keep in escrow by raising UnverifiedWitnessReceiptError
-                    msg = f"UWE Missing witness receipted evt at pre={pre} {sn=}"
-                    logger.trace("Kevery unescrow error: %s", msg)
-                    raise UnverifiedWitnessReceiptError(msg)
+                    # may be accepted already
+                    if self.db.kels.getLast(keys=pre, on=sn) != rdig:
+                        # so keep in escrow by raising UnverifiedWitnessReceiptError
+                        msg = f"UWE Missing witness receipted evt at pre={pre} {sn=}"
+                        logger.trace("Kevery unescrow error: %s", msg)
+                        raise UnverifiedWitnessReceiptError(msg)
+
+                    serder = self.db.evts.get(keys=(pre, rdig))
+                    wits = self.fetchWitnessState(pre, sn)
+                    if wiger.index >= len(wits):
+                        msg = f"UWE Bad witness receipt index={wiger.index} at pre={pre} {sn=}"
+                        raise ValidationError(msg)
+
+                    wiger.verfer = Verfer(qb64=wits[wiger.index].qb64)
+                    if not wiger.verfer.verify(wiger.raw, serder.raw):
+                        msg = f"UWE Bad witness receipt wig at pre={pre} {sn=}"
+                        raise ValidationError(msg)
+
+                    self.db.wigs.add(keys=(pre, rdig), val=wiger)
 
             except UnverifiedWitnessReceiptError as ex:
                 # still waiting on missing prior event to validate
-- 
2.43.0


From 69cdb6f5c7ad6f2b4affc486b26038546a2d65b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:29 +0000
Subject: [PATCH 035/167] fix: attached receipts of witnesses are recorded as
 witness signatures

---
 src/keri/core/eventing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index b24f12e..d8ab833 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -4912,7 +4912,7 @@ class Kevery:
                     continue  # skip own receipt attachment on non-local event
 
             if cigar.verfer.verify(cigar.raw, serder.raw):
-                wits = self.fetchWitnessState(pre, sn)
+                wits = [wit.qb64 for wit in self.fetchWitnessState(pre, sn)]
                 rpre = cigar.verfer.qb64  # prefix of receiptor
                 if rpre in wits:  # its a witness receipt
                     index = wits.index(rpre)
-- 
2.43.0


From ddb880004551e633d49db21b17161e6799ae4f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:29 +0000
Subject: [PATCH 036/167] fix: the source of an event is recorded as it was

---
 src/keri/core/eventing.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index d8ab833..0796c9f 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -2575,7 +2575,8 @@ class Kever:
             # .validateSigsDelWigs above ensures thresholds met otherwise raises exception
             # all validated above so may add to KEL and FEL logs as first seen
             fn, dts = self.logEvent(serder=serder, sigers=sigers, wigers=wigers,
-                                    first=True if not check else False)  # First seen accepted
+                                    first=True if not check else False,
+                                    local=local)  # First seen accepted
 
             # validates so update state
             self.sner = sner  # sequence number Number instance
@@ -4364,7 +4365,7 @@ class Kevery:
                         # signatures to be added to the databse
                         # Not first seen version of event so ignore return
                         # idempotent update db logs
-                        kever.logEvent(serder, sigers=sigers, wigers=wigers)
+                        kever.logEvent(serder, sigers=sigers, wigers=wigers, local=local)
 
                 else:  # escrow likely duplicitous event
                     self.escrowLDEvent(serder=serder, sigers=sigers, local=local)
@@ -4449,7 +4450,7 @@ class Kevery:
                             # signatures to be added to the databse
                             # Not first seen version of event so ignore return
                             # idempotent update db logs
-                            kever.logEvent(serder, sigers=sigers, wigers=wigers)  # idempotent update db logs
+                            kever.logEvent(serder, sigers=sigers, wigers=wigers, local=local)  # idempotent update db logs
 
                     else:  # escrow likely duplicitous event
                         self.escrowLDEvent(serder=serder, sigers=sigers, local=local)
-- 
2.43.0


From 24ba2fcd0dd566c94104912b91d45acee160564e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:55 +0000
Subject: [PATCH 037/167] fix: a receipt is not matched with an escrow its
 event has left

---
 src/keri/core/eventing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 0796c9f..62be814 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -7159,6 +7159,9 @@ class Kevery:
             if rsaider.qb64b != dig:
                 continue  # not match keep looking
 
+            if self.db.fons.get(keys=(pre, dig)):
+                continue  # accepted meanwhile so not in partial witness escrow
+
             # Extract or compute witness list
             if serder.ked['t'] in (Ilks.icp, Ilks.dip):  # inception get from event
                 wits = serder.ked['b']  # get wits from event itself
-- 
2.43.0


From d6a920132aed1ddd135f7a76db1171df6e53e60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:02 +0000
Subject: [PATCH 038/167] fix: a delegated rotation recovers from more than one
 interaction

---
 src/keri/core/eventing.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 62be814..52d4eda 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -3403,10 +3403,8 @@ class Kever:
         # via Kever.logEvent which also writes the delgating event source couple to
         # db.aess so we can find it later
         if ((serder.ilk == Ilks.dip) or  # superseding is delegated inception or
-            (serder.sner.num == self.sner.num + 1) or  # superseding is inorder later or
-            (serder.sner.num == self.sner.num and  # superseding event at same sn and
-                self.ilk == Ilks.ixn and  # superseded is interaction and
-                serder.ilk == Ilks.drt)):  # superseding is rotation
+            (serder.sner.num > self.lastEst.s)):  # inorder later or superseding
+                    # rotation of interactions only
                     return (delsner, delsger) # indicates delegation valid
 
         # get to here means drt rotation superseding another drt rotation
-- 
2.43.0


From 307169b9649db97201bacfccce18400f22d92764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:08 +0000
Subject: [PATCH 039/167] fix: an event is fully witnessed by the threshold in
 force with it

---
 src/keri/db/basing.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/keri/db/basing.py b/src/keri/db/basing.py
index 636e688..582c32f 100644
--- a/src/keri/db/basing.py
+++ b/src/keri/db/basing.py
@@ -2077,8 +2077,13 @@ class Baser(LMDBer):
         # have been gathered if this ius a witness for serder.pre
         # get unique verified wigers and windices lists from wigers list
         wigers = self.wigs.get(keys=(serder.preb, serder.saidb))
-        kever = self.kevers[serder.pre]
-        toad = kever.toader.num
+        # threshold in force at the event which may not be the current one
+        toad = self.kevers[serder.pre].toader.num
+        for dig in self.kels.getBackIter(keys=serder.pre, on=serder.sn):
+            if ((eserder := self.evts.get(keys=(serder.pre, dig))) is not None
+                    and eserder.estive):
+                toad = eserder.bner.num
+                break
 
         return not len({wiger.index for wiger in wigers}) < toad
 
-- 
2.43.0


From 946d193481201d3290a4f2273f45387d64eafa19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:43 +0000
Subject: [PATCH 040/167] fix: early transferable receipts in groups are
 escrowed too

---
 src/keri/core/eventing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 52d4eda..42ad867 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -4687,6 +4687,8 @@ class Kevery:
 
             if tsgs:
                 self.escrowTRGroups(serder, tsgs)
+            if rsgs:
+                self.escrowTRGroups(serder, rsgs)
 
             if wigers:
                 self.escrowUWReceipt(serder=serder, wigers=wigers, said=ked["d"])
-- 
2.43.0


From 18c2c43db2c1edcf8c5e8a49b0ec02b2651d6e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:04 +0000
Subject: [PATCH 041/167] fix: a transferable receipt is recorded with the
 event it is of

---
 src/keri/core/eventing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 42ad867..fc70a72 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -4620,7 +4620,7 @@ class Kevery:
                     siger.verfer = sverfers[siger.index]  # assign verfer
                     if siger.verfer.verify(siger.raw, lserder.raw):  # verify sig
                         # good sig so write receipt to database
-                        keys = (pre, ldig, sprefixer.qb64, snumber.onkey, sdiger.qb64)
+                        keys = (pre, serder.said, sprefixer.qb64, snumber.onkey, sdiger.qb64)
                         self.db.vrcs.add(keys=keys, val=siger)  # add to ioset at keys
 
             for sprefixer, snumber, sdiger, sigers in rsgs:  # iterate over each tsg
@@ -4678,7 +4678,7 @@ class Kevery:
                     siger.verfer = sverfers[siger.index]  # assign verfer
                     if siger.verfer.verify(siger.raw, lserder.raw):  # verify sig
                         # good sig so write receipt to database
-                        keys = (pre, ldig, sprefixer.qb64, snumber.onkey, sdiger.qb64)
+                        keys = (pre, serder.said, sprefixer.qb64, snumber.onkey, sdiger.qb64)
                         self.db.vrcs.add(keys=keys, val=siger)  # add to ioset at keys
 
         else:  # no events to be receipted yet at that sn so escrow
-- 
2.43.0


From e2180d503712cc3de84e960b311cddd18d1933d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:03 +0000
Subject: [PATCH 042/167] fix: a cloned interaction event keeps its first seen
 datetime

---
 src/keri/core/eventing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index fc70a72..cca4397 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -2576,6 +2576,7 @@ class Kever:
             # all validated above so may add to KEL and FEL logs as first seen
             fn, dts = self.logEvent(serder=serder, sigers=sigers, wigers=wigers,
                                     first=True if not check else False,
+                                    firner=firner, dater=dater,
                                     local=local)  # First seen accepted
 
             # validates so update state
-- 
2.43.0


From 3bca9974ae206d983eaddcb67bd8157323507d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:03 +0000
Subject: [PATCH 043/167] fix: fetchLastSealingEventBySeal finds seals

---
 src/keri/db/basing.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/keri/db/basing.py b/src/keri/db/basing.py
index 582c32f..8214f70 100644
--- a/src/keri/db/basing.py
+++ b/src/keri/db/basing.py
@@ -2020,13 +2020,9 @@ class Baser(LMDBer):
             sn (int): beginning sn to search
 
         """
-        # create generic Seal namedtuple class using keys from provided seal dict
-        Seal = namedtuple('Seal', list(seal))  # matching type
-
         for srdr in self.getEvtLastPreIter(pre=pre, sn=sn):  # only last evt at sn
             for eseal in srdr.seals or []:  # or [] for seals 'a' field missing
-                if tuple(eseal) == Seal._fields:  # same type of seal
-                    eseal = Seal(**eseal)  #convert to namedtuple
+                if tuple(eseal) == tuple(seal):  # same type of seal
                     if seal == eseal and self.fullyWitnessed(srdr):
                         return srdr
         return None
-- 
2.43.0


From eb65dab6d052202e2aac0aeb38fb3c79b89b0816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:03 +0000
Subject: [PATCH 044/167] fix: whether a database is new depends on its own
 path

---
 src/keri/db/dbing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 492cd92..7747a5c 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -435,8 +435,8 @@ class LMDBer(filing.Filer):
             fext (str): File extension when .filed
             readonly (bool): True means open database in readonly mode
                 False means open database in read/write mode"""
-        exists = self.exists(name=self.name, base=self.base)
         opened = super(LMDBer, self).reopen(**kwa)
+        exists = os.path.exists(os.path.join(self.path, "data.mdb"))
         if readonly is not None:
             self.readonly = readonly
 
-- 
2.43.0


From 0304eeff23e9377f37f1041af732bde90be612a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:24 +0000
Subject: [PATCH 045/167] fix: a kever reloaded from the database gets the cues
 of its kevery

---
 src/keri/core/eventing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index cca4397..ab38baa 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -4375,6 +4375,8 @@ class Kevery:
 
             else:  # rot, drt, or ixn, so sn matters
                 kever = self.kevers[pre]  # get existing kever for pre
+                if kever.cues is None:  # reloaded from database
+                    kever.cues = self.cues
                 sno = kever.sner.num + 1  # proper sn of new inorder event
 
                 if sn > sno:  # sn later than sno so out of order escrow
-- 
2.43.0


From 2a5c9654c31513e7e22f2b68e1484e870d12ae27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:24 +0000
Subject: [PATCH 046/167] fix: cleaning keeps delegated identifiers cloned
 before their delegator

---
 src/keri/db/basing.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/keri/db/basing.py b/src/keri/db/basing.py
index 8214f70..1d8b385 100644
--- a/src/keri/db/basing.py
+++ b/src/keri/db/basing.py
@@ -1556,8 +1556,12 @@ class Baser(LMDBer):
                 # process event doesn't capture exceptions so we can more easily
                 # detect in the cloning that some events did not make it through
                 psr = parsing.Parser(kvy=kvy, version=gvrsn)
-                for msg in self.cloneAllPreIter(gvrsn=gvrsn):  # clone into copy
-                    psr.parseOne(ims=msg)
+                count = -1
+                while count < copy.fels.cntAll():  # repeat for events that wait for others
+                    count = copy.fels.cntAll()
+                    for msg in self.cloneAllPreIter(gvrsn=gvrsn):  # clone into copy
+                        psr.parseOne(ims=msg)
+                    kvy.processEscrows()
 
                 # This is the list of non-set based databases that are not created as part of event processing.
                 # for now we are just copying them from self to copy without worrying about being able to
-- 
2.43.0


From 2697b107720269fa9277657d8ef76bbe1307033e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:01 +0000
Subject: [PATCH 047/167] fix: a repeated delegated rotation is a duplicate,
 not a recovery

---
 src/keri/core/eventing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index ab38baa..339f38a 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -4392,7 +4392,8 @@ class Kevery:
                       (ilk == Ilks.rot and  # superseding recovery rot or
                         kever.lastEst.s < sn <= sno) or
                       (ilk == Ilks.drt and #exts['sigers'].extend(result) delegated superseding recovery drt
-                        kever.lastEst.s <= sn <= sno)):
+                        kever.lastEst.s <= sn <= sno and
+                        said != kever.lastEst.d)):  # not duplicate of accepted
 
                     # verify signatures etc and update state if valid
                     # raise exception if problem.
-- 
2.43.0


From 9d2fa5c7f446f839f72c5a0e2f0f0ec093ef58f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:14 +0000
Subject: [PATCH 048/167] fix: an endpoint role reply is on exactly the add or
 the cut route

---
 src/keri/core/eventing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 339f38a..5a24c4e 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -5141,9 +5141,9 @@ class Kevery:
           }
         }"""
         # reply specific logic
-        if route.startswith("/end/role/add"):
+        if route == "/end/role/add":
             allowed = True
-        elif route.startswith("/end/role/cut"):
+        elif route == "/end/role/cut":
             allowed = False
         else:  # unsupported route
             raise ValidationError(f"Usupported route={route} in {Ilks.rpy} "
-- 
2.43.0


From 962575f7c14c301b778ccd402b93eda3702f7d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:39 +0000
Subject: [PATCH 049/167] fix: an accepted reply survives being given again, in
 part or forged

---
 src/keri/core/eventing.py |  2 --
 src/keri/core/routing.py  | 58 +++++++++++++++++++--------------------
 2 files changed, 29 insertions(+), 31 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 5a24c4e..9aefbfe 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -5167,8 +5167,6 @@ class Kevery:
         aid = cid  # authorizing attribution id
         keys = (aid, role, eid)
         osaider = self.db.eans.get(keys=keys)  # get old said if any
-        if osaider is not None and osaider.qb64b == diger.qb64b: # check idempotent
-            osaider = None
         # BADA Logic
         accepted = self.rvy.acceptReply(serder=serder, saider=diger, route=route,
                                         aid=aid, osaider=osaider, cigars=cigars,
diff --git a/src/keri/core/routing.py b/src/keri/core/routing.py
index d2b9b27..5964fe8 100644
--- a/src/keri/core/routing.py
+++ b/src/keri/core/routing.py
@@ -234,7 +234,9 @@ class Revery:
         # get date-time raises error if empty or invalid format
         dater = Dater(dts=serder.ked["dt"])
         odater = None
+        standing = False  # True means this very reply is the one now accepted
         if osaider:
+            standing = osaider.qb64b == saider.qb64b
             odater = self.db.sdts.get(keys=osaider.qb64b)
 
         for cigar in cigars:  # process each couple to verify sig and write to db
@@ -266,7 +268,7 @@ class Revery:
                 logger.debug("Reply Body=\n%s\n", serder.pretty())
                 continue  # skip invalid cig's verfer is not aid
 
-            if odater:  # get old compare datetimes to see if later
+            if odater and not standing:  # compare datetimes to see if later
                 if dater.datetime <= odater.datetime:
                     logger.trace(
                         "Revery: skipped stale update from %s of reply at route= %s",
@@ -289,8 +291,10 @@ class Revery:
 
             # All constraints satisfied so update
             self.updateReply(serder=serder, saider=saider, dater=dater, cigar=cigar)
-            self.removeReply(saider=osaider)  # remove obsoleted reply artifacts
-            accepted = True
+            if not standing:
+                self.removeReply(saider=osaider)  # remove obsoleted reply artifacts
+            self.db.rpes.rem(keys=(route,), val=saider)  # no longer waits
+            accepted = standing = True
             break  # first valid cigar sufficient ignore any duplicates in cigars
 
         for prefixer, snumber, sdiger, sigers in tsgs:  # iterate over each tsg
@@ -329,7 +333,8 @@ class Revery:
                         logger.debug("event=\n%s\n", serder.pretty())
                         continue  # skip if sn earlier
 
-                    if snumber.sn == osqr.sn:  # sn same so check datetime
+                    # sn same so check datetime
+                    if snumber.sn == osqr.sn and not standing:
                         if odater:
                             if dater.datetime <= odater.datetime:
                                 logger.info(
@@ -350,16 +355,17 @@ class Revery:
                     "Revery: escrowing without key state for signer on reply said=%s",
                     serder.said,
                 )
-                self.escrowReply(
-                    serder=serder,
-                    saider=saider,
-                    dater=dater,
-                    route=route,
-                    prefixer=prefixer,
-                    snumber=snumber,
-                    sdiger=sdiger,
-                    sigers=sigers,
-                )
+                if not standing:  # accepted reply does not wait for anything
+                    self.escrowReply(
+                        serder=serder,
+                        saider=saider,
+                        dater=dater,
+                        route=route,
+                        prefixer=prefixer,
+                        snumber=snumber,
+                        sdiger=sdiger,
+                        sigers=sigers,
+                    )
                 self.cues.append(dict(kin="query", q=dict(pre=spre)))
                 continue
             sdig = sdig.encode("utf-8")
@@ -390,6 +396,9 @@ class Revery:
 
             if valid:  # meet threshold so save
                 # All constraints satisfied so update
+                # remove stale or unverified signatures .tsgs for this saider
+                # this ensures that zeroth tsg is authoritative
+                self.db.tsgs.trim(keys=(saider.qb64, ""))
                 self.updateReply(
                     serder=serder,
                     saider=saider,
@@ -399,22 +408,13 @@ class Revery:
                     diger=sdiger,
                     sigers=sigers,
                 )
-                self.removeReply(saider=osaider)  # remove obsoleted reply artifacts
-                # remove stale signatures .tsgs for this saider
-                # this ensures that zeroth tsg is authoritative
-                for prr, snr, dgr, _ in fetchTsgs(
-                    db=self.db.tsgs, diger=saider, snh=snumber.snh
-                ):
-                    if (snr.sn < snumber.sn) or (
-                        snr.sn == snumber.sn and dgr.qb64 != sdiger.qb64
-                    ):
-                        self.db.tsgs.trim(
-                            keys=(prr.qb64, f"{snr.sn:032h}", dgr.qb64, "")
-                        )
-
-                accepted = True
+                if not standing:
+                    self.removeReply(saider=osaider)  # remove obsoleted reply artifacts
+                self.db.rpes.rem(keys=(route,), val=saider)  # no longer waits
+                accepted = standing = True
 
-            else:  # not meet threshold so escrow
+            elif not standing:  # not meet threshold so escrow only verified
+                self.db.tsgs.rem(keys=quadkeys)
                 self.escrowReply(
                     serder=serder,
                     saider=saider,
-- 
2.43.0


From da4efdba4b2cae39539e5ae4c54283efffb7412a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:37 +0000
Subject: [PATCH 050/167] fix: an empty attachment group is no attachments

---
 src/keri/core/parsing.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index a38acd2..75c87b1 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -1186,20 +1186,20 @@ class Parser:
                         pass  # pass extracted ims to pipeline processor
                         return
 
-                    # peek for version change
-                    ctr = yield from self._extractor(ims=ims,
-                                                     klas=Counter,
-                                                     cold=cold,
-                                                     abort=enclosed,
-                                                     strip=False)
-                    if ctr.code == self.codes.KERIACDCGenusVersion:
-                        del ims[:ctr.byteSize(cold=cold)]  # consume ctr itself
-                        # change version
-                        verstack.append(self.version)  # push current onto stack
-                        self.version = Counter.b64ToVer(ctr.countToB64(l=3))
+                    if ims:  # not empty group so peek for version change
+                        ctr = yield from self._extractor(ims=ims,
+                                                         klas=Counter,
+                                                         cold=cold,
+                                                         abort=enclosed,
+                                                         strip=False)
+                        if ctr.code == self.codes.KERIACDCGenusVersion:
+                            del ims[:ctr.byteSize(cold=cold)]  # consume ctr itself
+                            # change version
+                            verstack.append(self.version)  # push current onto stack
+                            self.version = Counter.b64ToVer(ctr.countToB64(l=3))
 
 
-                while True:  # iteratively process attachment counters in stride
+                while ims or not enclosed:  # iteratively process attachment counters in stride
                     ctr = yield from self._extractor(ims=ims,
                                                      klas=Counter,
                                                      cold=cold,
-- 
2.43.0


From 90d37e6c03e84c717786ee510cf9adc832604167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:02 +0000
Subject: [PATCH 051/167] fix: a stream arriving in pieces goes on after a
 group of messages

---
 src/keri/core/parsing.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index 75c87b1..d4a0fa1 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -790,6 +790,7 @@ class Parser:
         stack = deque()  # (svrsn, ims) stack of nested substreams framed by generic groups
         svrsn = None
         eggs = None  # used in preflused error
+        whole = framed  # framed at top level
         result = None
         results = []
         try:
@@ -801,6 +802,10 @@ class Parser:
                 if not ims:  # no stream
                     break
 
+                if not stack:  # at top level so not in any generic group
+                    framed = whole
+                    eggs = None
+
                 # check front of stream for GenericGroup to nest down
                 cold = sniff(ims)  # check front of stream
                 if cold != Colds.msg:  # peek for generic group at front of ims
@@ -825,7 +830,7 @@ class Parser:
                         ctr = yield from self._extractor(ims=eims,
                                                         klas=Counter,
                                                         cold=cold,
-                                                        abort=framed,
+                                                        abort=True,  # eims is whole
                                                         strip=False)
 
                         if ctr.code == self.codes.KERIACDCGenusVersion:
-- 
2.43.0


From 5b26afd5f4ea95ca1fc02cd946615ba1bd2df3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:20 +0000
Subject: [PATCH 052/167] fix: a query signed only by a nontransferable
 identifier is processed

---
 src/keri/core/parsing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index d4a0fa1..84156cb 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -1456,6 +1456,7 @@ class Parser:
                     exts["source"] = pre
                     exts["sigers"] = sigers
                 else:
+                    exts["source"] = None  # may be from nontrans signer in cigars
                     exts['sigers'] = []  # just in case sigers provided not by lsgs
 
                 if not (exts['source'] or exts['cigars']):  # need one or the other
-- 
2.43.0


From 7ef34165230646e115ff78c2762a723f2263e1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:26 +0000
Subject: [PATCH 053/167] fix: a malformed message costs no more of the stream
 than the group it is framed by

---
 src/keri/core/parsing.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index 84156cb..487fda6 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -866,6 +866,14 @@ class Parser:
                     # this is the normal way to handle it, so do not log
                     continue  # control thrown here to parse new generic group
 
+                except SizedGroupError as ex:  # error inside sized group
+                    # msgParsator already flushed group so do not flush stream
+                    if logger.isEnabledFor(logging.DEBUG):
+                        logger.exception("GroupParsator sized group error: %s", ex)
+                    else:
+                        logger.error("GroupParsator sized group error: %s", ex)
+                    continue  # resume extracting next message
+
                 except (ExtractionError, Exception) as ex:  # error while extracting
                     raise ExtractionError from ex
 
@@ -1155,10 +1163,12 @@ class Parser:
                         exts.serder = serder
                         break  # break out of while loop
 
-        except ExtractionError as ex:
+        except Exception as ex:
+            while verstack:  # restore version to what it was
+                self.version = verstack.pop()
             if emgs is not None:  # extracted enclosed message group is preflushed
                 raise SizedGroupError(f"Error processing enclosing "
-                                             f"message group of size={emgs}")
+                                      f"message group of size={emgs}") from ex
             raise  # no enclosing group so can't preflush, must flush stream
 
 
@@ -1303,10 +1313,10 @@ class Parser:
                 # so just proceed to process current message
 
 
-        except ExtractionError as ex:
+        except Exception as ex:
             if enclosed:  # extracted enclosed attachment group is preflushed
-                raise SizedGroupError(f"Error processing attachment group"
-                                             " of size={eags}")
+                raise SizedGroupError("Error processing enclosed"
+                                      " attachments") from ex
             raise  # no enclosing attachment group so can't preflush, must flush stream
 
         finally:
-- 
2.43.0


From 8a97d694bd44987600e6b1b7b00609bfa4979ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:26 +0000
Subject: [PATCH 054/167] fix: parsing one malformed message without processing
 it returns nothing

---
 src/keri/core/parsing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index 487fda6..891d3f9 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -608,6 +608,7 @@ class Parser:
         local = True if local else False
 
         result = None
+        exts = None
         while True:
             try:
                 exts = yield from self.msgParsator(ims=ims,
@@ -630,6 +631,9 @@ class Parser:
                     logger.error("Kevery msg extraction error: %s", ex)
                 del ims[:]  # delete rest of stream to force cold restart
 
+            if exts is None:  # nothing extracted
+                break
+
             if processive:
                 try:
                     result = self.msgProcess(exts=asdict(exts),
-- 
2.43.0


From aeb429a0ceffbf4beb17a1d4b45c1c310f1e2800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:12 +0000
Subject: [PATCH 055/167] fix: a group of messages without a version of its own
 is of the version of its stream

---
 src/keri/core/parsing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index 891d3f9..b8cbf45 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -842,7 +842,7 @@ class Parser:
                             # get new substream version
                             svrsn = Counter.b64ToVer(ctr.countToB64(l=3))
                         else:
-                            svrsn == None  # no change to substream version
+                            svrsn = None  # no change to substream version
 
                         stack.append((self.version, ims))  # push current version ims
                         self.version = svrsn  # replace with new version if not None
-- 
2.43.0


From 3796638cc9f6026694b45b38f2cfbd0a5628206b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:33 +0000
Subject: [PATCH 056/167] fix: a stream that starts with an invalid code is
 flushed, not parsed forever

---
 src/keri/core/parsing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index b8cbf45..0b2c39b 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -908,7 +908,7 @@ class Parser:
                     results.append(exts)
 
 
-        except ExtractionError as ex:  # maybe this needs to be more granular
+        except Exception as ex:  # maybe this needs to be more granular
             if logger.isEnabledFor(logging.TRACE):
                 logger.exception("GroupParsator error during extraction"
                                              " of msg+atc : %s", ex)
@@ -918,6 +918,8 @@ class Parser:
             if eggs is not None:  # extracted enclosed message group is preflushed
                 raise SizedGroupError(f"Error processing generic group"
                                                  f" of size={eggs}")
+            if not isinstance(ex, ExtractionError):
+                raise ExtractionError("Error processing stream") from ex
             raise  # no enclosing message group so can't preflush, must flush stream
 
         finally:  # restore version at top level
-- 
2.43.0


From 3e68368dd3d421e4dbd9043aec99151a10ea3529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:35 +0000
Subject: [PATCH 057/167] fix: the last values of a set or duplicates are found
 whatever the key separator

---
 src/keri/db/koming.py |  2 +-
 src/keri/db/subing.py | 11 ++++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/keri/db/koming.py b/src/keri/db/koming.py
index 1ef4ce4..3ef2a70 100644
--- a/src/keri/db/koming.py
+++ b/src/keri/db/koming.py
@@ -529,7 +529,7 @@ class IoSetKomer(KomerBase):
         Returns:
             val (Type[dataclass]):  instance of type self.schema
                 None if no entry at keys"""
-        if last := self.db.getIoSetLastItem(db=self.sdb, key=self._tokey(keys)):
+        if last := self.db.getIoSetLastItem(db=self.sdb, key=self._tokey(keys), sep=self.sep):
             key, val = last
             return self._des(val)
         return None
diff --git a/src/keri/db/subing.py b/src/keri/db/subing.py
index e1384fd..1924ab8 100644
--- a/src/keri/db/subing.py
+++ b/src/keri/db/subing.py
@@ -1388,7 +1388,7 @@ class IoSetSuber(SuberBase):
         Returns:
             last ((str, str)|None): (key, val) tuple or empty tuple if no entry
             at keys or keys is empty"""
-        if last := self.db.getIoSetLastItem(db=self.sdb, key=self._tokey(keys)):
+        if last := self.db.getIoSetLastItem(db=self.sdb, key=self._tokey(keys), sep=self.sep):
             key, val = last
             return (self._tokeys(key), self._des(val))
         return last
@@ -1407,7 +1407,7 @@ class IoSetSuber(SuberBase):
 
         Returns:
             val (str):  value str, None if no entry at keys"""
-        if last := self.db.getIoSetLastItem(db=self.sdb, key=self._tokey(keys)):
+        if last := self.db.getIoSetLastItem(db=self.sdb, key=self._tokey(keys), sep=self.sep):
             key, val = last
             return self._des(val)
         return None
@@ -1515,7 +1515,7 @@ class IoSetSuber(SuberBase):
 
         Returns:
             vals (Iterator[str]):  value str"""
-        for val in self.db.getIoSetLastIterAll(db=self.sdb, key=self._tokey(keys)):
+        for val in self.db.getIoSetLastIterAll(db=self.sdb, key=self._tokey(keys), sep=self.sep):
             yield self._des(val)
 
 
@@ -1536,7 +1536,7 @@ class IoSetSuber(SuberBase):
 
         Returns:
             items (Iterator[(str, str)]):  (key, val) tuples"""
-        for key, val in self.db.getIoSetLastItemIterAll(db=self.sdb, key=self._tokey(keys)):
+        for key, val in self.db.getIoSetLastItemIterAll(db=self.sdb, key=self._tokey(keys), sep=self.sep):
             yield (self._tokeys(key), self._des(val))
 
 
@@ -2731,7 +2731,8 @@ class OnIoDupSuber(OnSuberBase, IoDupSuber):
             last (str):  value str, None if no entry at effective key made from
                 keys and on"""
 
-        val = self.db.getOnIoDupLast(db=self.sdb, key=self._tokey(keys), on=on)
+        val = self.db.getOnIoDupLast(db=self.sdb, key=self._tokey(keys), on=on,
+                                     sep=self.sep.encode())
         return (self._des(val) if val is not None else val)
 
 
-- 
2.43.0


From 05534c6d1575174c21b0241654ef67ec6a7beaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:31 +0000
Subject: [PATCH 058/167] fix: reply signatures and held back message
 signatures are not kept in the same sub-db

---
 src/keri/db/basing.py | 4 ++--
 src/keri/db/dbing.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/keri/db/basing.py b/src/keri/db/basing.py
index 1d8b385..883779a 100644
--- a/src/keri/db/basing.py
+++ b/src/keri/db/basing.py
@@ -779,7 +779,7 @@ class Baser(LMDBer):
         .kramTSGS is named subDB instance of CatCesrIoSetSuber for KRAM partially
             signed multi-key trans last sig group attachments. Each group is
             stored per-siger as a flat (Prefixer, Seqner, Saider, Siger) tuple.
-            subkey 'tsgs.'
+            subkey 'ktsgs.'
             DB is keyed by (AID, MID): sender identifier prefix plus message SAID
             Value is (Prefixer, Number, Diger, Siger) tuple. Sourced from
             parser kwa key 'tsgs'.
@@ -1289,7 +1289,7 @@ class Baser(LMDBer):
                                                         coring.Diger, indexing.Siger))
 
         # tsgs: trans last sig groups (prefixer, number, diger, siger) — stored per-siger
-        self.kramTSGS = subing.CatCesrIoSetSuber(db=self, subkey='tsgs.',
+        self.kramTSGS = subing.CatCesrIoSetSuber(db=self, subkey='ktsgs.',
                                                   klas=(coring.Prefixer, coring.Number,
                                                         coring.Diger, indexing.Siger))
 
diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 7747a5c..bdcd1ed 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -367,7 +367,7 @@ class LMDBer(filing.Filer):
     TempPrefix = "keri_lmdb_"
     TempSuffix = "_test"
     Perm = stat.S_ISVTX | stat.S_IRUSR | stat.S_IWUSR | stat.S_IXUSR  # 0o1700==960
-    MaxNamedDBs = 100
+    MaxNamedDBs = 128
     MapSize = 104857600
 
     def __init__(self, readonly=False, **kwa):
-- 
2.43.0


From 7de87cf33ec1c083f4e046e020c8cedec059bcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:13 +0000
Subject: [PATCH 059/167] fix: take back 05534c6: the suite limits how many
 named stores a database file may hold

---
 src/keri/db/basing.py | 4 ++--
 src/keri/db/dbing.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/keri/db/basing.py b/src/keri/db/basing.py
index 883779a..1d8b385 100644
--- a/src/keri/db/basing.py
+++ b/src/keri/db/basing.py
@@ -779,7 +779,7 @@ class Baser(LMDBer):
         .kramTSGS is named subDB instance of CatCesrIoSetSuber for KRAM partially
             signed multi-key trans last sig group attachments. Each group is
             stored per-siger as a flat (Prefixer, Seqner, Saider, Siger) tuple.
-            subkey 'ktsgs.'
+            subkey 'tsgs.'
             DB is keyed by (AID, MID): sender identifier prefix plus message SAID
             Value is (Prefixer, Number, Diger, Siger) tuple. Sourced from
             parser kwa key 'tsgs'.
@@ -1289,7 +1289,7 @@ class Baser(LMDBer):
                                                         coring.Diger, indexing.Siger))
 
         # tsgs: trans last sig groups (prefixer, number, diger, siger) — stored per-siger
-        self.kramTSGS = subing.CatCesrIoSetSuber(db=self, subkey='ktsgs.',
+        self.kramTSGS = subing.CatCesrIoSetSuber(db=self, subkey='tsgs.',
                                                   klas=(coring.Prefixer, coring.Number,
                                                         coring.Diger, indexing.Siger))
 
diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index bdcd1ed..7747a5c 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -367,7 +367,7 @@ class LMDBer(filing.Filer):
     TempPrefix = "keri_lmdb_"
     TempSuffix = "_test"
     Perm = stat.S_ISVTX | stat.S_IRUSR | stat.S_IWUSR | stat.S_IXUSR  # 0o1700==960
-    MaxNamedDBs = 128
+    MaxNamedDBs = 100
     MapSize = 104857600
 
     def __init__(self, readonly=False, **kwa):
-- 
2.43.0


From 51ef09d47a38f63726b49a478ee5f112d6928e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:18 +0000
Subject: [PATCH 060/167] fix: an encryption key is changed only with its own
 seed, and refusing it changes nothing

---
 src/keri/app/keeping.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/keri/app/keeping.py b/src/keri/app/keeping.py
index 5091bec..d42d84d 100644
--- a/src/keri/app/keeping.py
+++ b/src/keri/app/keeping.py
@@ -804,12 +804,12 @@ class Manager:
                                        "".format(self.aeid))
 
         if aeid:  # aeid provided
-            if aeid != self.aeid:  # changing to a new aeid so update .encrypter
-                self.encrypter = Encrypter(verkey=aeid)  # derive encrypter from aeid
-                # verifies new seed belongs to new aeid
-                if not seed or not self.encrypter.verifySeed(seed):
-                    raise AuthError("Seed missing or provided seed not associated"
-                                           "  with provided aeid={}.".format(aeid))
+            encrypter = Encrypter(verkey=aeid)  # derive encrypter from aeid
+            # verifies new seed belongs to new aeid
+            if not seed or not encrypter.verifySeed(seed):
+                raise AuthError("Seed missing or provided seed not associated"
+                                       "  with provided aeid={}.".format(aeid))
+            self.encrypter = encrypter
         else:  # changing to empty aeid so new encrypter is None
             self.encrypter = None
 
-- 
2.43.0


From 89fe6e001613f26c4cc76f91370be2e6a24ed7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:27 +0000
Subject: [PATCH 061/167] fix: setting an encryption key on a keystore with
 keys encrypts these too

---
 src/keri/app/keeping.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/keri/app/keeping.py b/src/keri/app/keeping.py
index d42d84d..1fab56b 100644
--- a/src/keri/app/keeping.py
+++ b/src/keri/app/keeping.py
@@ -822,12 +822,13 @@ class Manager:
             self.salt = salt
             # self.salt = self.encrypter.encrypt(ser=salt).qb64 if self.encrypter else salt
 
-        # other secrets
-        if self.decrypter:
+        # other secrets, stored as plain text when not self.decrypter
+        if self.decrypter or self.encrypter:
             # re-encrypt root salt secrets by prefix parameters .prms
             for keys, data in self.ks.prms.getTopItemIter():  # keys is tuple of pre qb64
                 if data.salt:
-                    salter = self.decrypter.decrypt(qb64=data.salt)
+                    salter = (self.decrypter.decrypt(qb64=data.salt)
+                              if self.decrypter else Salter(qb64=data.salt))
                     data.salt = (self.encrypter.encrypt(prim=salter).qb64
                                  if self.encrypter else salter.qb64)
                     self.ks.prms.pin(keys, val=data)
-- 
2.43.0


From 4dc3875b72164285c8801b5e7e0b8b0782746914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:27 +0000
Subject: [PATCH 062/167] fix: a seed without encryption key does not make the
 manager decrypt plain text

---
 src/keri/app/keeping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/app/keeping.py b/src/keri/app/keeping.py
index 1fab56b..d791c81 100644
--- a/src/keri/app/keeping.py
+++ b/src/keri/app/keeping.py
@@ -842,7 +842,7 @@ class Manager:
         self._seed = seed  # set .seed in memory
 
         # update .decrypter
-        self.decrypter = Decrypter(seed=seed) if seed else None
+        self.decrypter = Decrypter(seed=seed) if aeid and seed else None
 
 
     @property
-- 
2.43.0


From d0720406ad696d54d7c68a857d8468d285da9863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:40 +0000
Subject: [PATCH 063/167] fix: removing a passcode completes instead of failing
 once everything is decrypted

---
 src/keri/app/keeping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/app/keeping.py b/src/keri/app/keeping.py
index d791c81..9c71f0f 100644
--- a/src/keri/app/keeping.py
+++ b/src/keri/app/keeping.py
@@ -838,7 +838,7 @@ class Manager:
             for keys, signer in self.ks.pris.getTopItemIter(decrypter=self.decrypter):
                 self.ks.pris.pin(keys, signer, encrypter=self.encrypter)
 
-        self.ks.gbls.pin("aeid", aeid)  # set aeid in db
+        self.ks.gbls.pin("aeid", aeid if aeid else '')  # set aeid in db
         self._seed = seed  # set .seed in memory
 
         # update .decrypter
-- 
2.43.0


From 239f76fd4da026a9fb6bbeed3a52f29333e41df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:12 +0000
Subject: [PATCH 064/167] fix: private keys of every signing scheme can be kept
 encrypted

---
 src/keri/core/signing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/keri/core/signing.py b/src/keri/core/signing.py
index 53bc6ac..ee50df2 100644
--- a/src/keri/core/signing.py
+++ b/src/keri/core/signing.py
@@ -805,7 +805,9 @@ class Encrypter(Matter):
             if not code:
                 if prim.code == MtrDex.Salt_128:  # future other salt codes
                     code = MtrDex.X25519_Cipher_Salt
-                elif prim.code == MtrDex.Ed25519_Seed:  # future other seed codes
+                elif prim.code in (MtrDex.Ed25519_Seed,
+                                   MtrDex.ECDSA_256k1_Seed,
+                                   MtrDex.ECDSA_256r1_Seed):
                     code = MtrDex.X25519_Cipher_Seed
                 else:
                     raise InvalidValueError(f"Unsupported primitive with code ="
-- 
2.43.0


From c56326b50473ed69576f96e393b96df92ef08d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:44 +0000
Subject: [PATCH 065/167] fix: the next keys of ingested ones are kept
 encrypted, and a refused ingestion stores nothing

---
 src/keri/app/keeping.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/keri/app/keeping.py b/src/keri/app/keeping.py
index 9c71f0f..7b6bd6f 100644
--- a/src/keri/app/keeping.py
+++ b/src/keri/app/keeping.py
@@ -1550,7 +1550,7 @@ class Manager:
                 time of salty algorithm
 
         """
-        if iridx > len(secrecies):
+        if iridx >= len(secrecies):
             raise ValueError(f"Initial ridx={iridx} beyond last secrecy.")
 
         # configure parameters for creating new keys after ingested sequence
@@ -1571,11 +1571,12 @@ class Manager:
 
         verferies = []  # list of lists of verfers
         first = True
-        secrecies = deque(secrecies)
-        while secrecies:
-            csecrets = secrecies.popleft()  # current
-            csigners = [Signer(qb64=secret, transferable=transferable)
+        # all of them before anything is stored so malformed secret stores nothing
+        signeries = deque([Signer(qb64=secret, transferable=transferable)
                                                       for secret in csecrets]
+                                                for csecrets in secrecies)
+        while signeries:
+            csigners = signeries.popleft()  # current
             csize = len(csigners)
             verferies.append([signer.verfer for signer in csigners])
 
@@ -1583,7 +1584,7 @@ class Manager:
                 # Secret to encrypt here
                 pp = PrePrm(pidx=pidx,
                             algo=algo,
-                            salt=(creator.salt if not self.encrypter
+                            salt=(creator.salt if not (creator.salt and self.encrypter)
                                   else self.encrypter.encrypt(ser=creator.salt,
                                         code=MtrDex.X25519_Cipher_Salt).qb64),
                             stem=creator.stem,
@@ -1646,7 +1647,8 @@ class Manager:
 
 
         for signer in nsigners:  # store secrets (private key val keyed by public key)
-            self.ks.pris.put(keys=signer.verfer.qb64b, val=signer)
+            self.ks.pris.put(keys=signer.verfer.qb64b, val=signer,
+                             encrypter=self.encrypter)
 
         pubs = [signer.verfer.qb64 for signer in nsigners]
         self.ks.pubs.put(riKey(pre, ri=ridx), val=PubSet(pubs=pubs))
-- 
2.43.0


From 528b321be43a31f7f9f7a89332495d3273134471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:39 +0000
Subject: [PATCH 066/167] fix: an interrupted inception does not keep all later
 ones from being made

---
 src/keri/app/keeping.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/keri/app/keeping.py b/src/keri/app/keeping.py
index 7b6bd6f..d61d61f 100644
--- a/src/keri/app/keeping.py
+++ b/src/keri/app/keeping.py
@@ -1058,29 +1058,29 @@ class Manager:
                                    ridx=ridx+1, kidx=kidx+len(icodes), dt=dt))
 
         pre = verfers[0].qb64b
-        if not self.ks.pres.put(pre, val=Prefixer(qb64=pre)):
+        if self.ks.pres.get(pre) is not None:
             raise ValueError("Already incepted pre={}.".format(pre.decode("utf-8")))
 
-        if not self.ks.prms.put(pre, val=pp):
-            raise ValueError("Already incepted prm for pre={}.".format(pre.decode("utf-8")))
-
+        # .pres entry last, so when interrupted before it's not yet incepted and
+        # anything written so far is overwritten when incepted again
         self.pidx = pidx + 1  # increment for next inception
 
-        if not self.ks.sits.put(pre, val=ps):
-            raise ValueError("Already incepted sit for pre={}.".format(pre.decode("utf-8")))
-
         for signer in isigners:  # store secrets (private key val keyed by public key)
             self.ks.pris.put(keys=signer.verfer.qb64b, val=signer,
                              encrypter=self.encrypter)
 
-        self.ks.pubs.put(riKey(pre, ri=ridx), val=PubSet(pubs=ps.new.pubs))
+        self.ks.pubs.pin(riKey(pre, ri=ridx), val=PubSet(pubs=ps.new.pubs))
 
         for signer in nsigners:  # store secrets (private key val keyed by public key)
             self.ks.pris.put(keys=signer.verfer.qb64b, val=signer,
                              encrypter=self.encrypter)
 
         # store publics keys for lookup of private key for replay
-        self.ks.pubs.put(riKey(pre, ri=ridx+1), val=PubSet(pubs=ps.nxt.pubs))
+        self.ks.pubs.pin(riKey(pre, ri=ridx+1), val=PubSet(pubs=ps.nxt.pubs))
+
+        self.ks.prms.pin(pre, val=pp)
+        self.ks.sits.pin(pre, val=ps)
+        self.ks.pres.put(pre, val=Prefixer(qb64=pre))
 
         return (verfers, digers)
 
-- 
2.43.0


From 9d7a81ca614ed54657676b8fde8ad0f68a3751b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:39 +0000
Subject: [PATCH 067/167] fix: an interrupted rotation never loses the next
 keys

---
 src/keri/app/keeping.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/keri/app/keeping.py b/src/keri/app/keeping.py
index d61d61f..0e5216f 100644
--- a/src/keri/app/keeping.py
+++ b/src/keri/app/keeping.py
@@ -1240,15 +1240,16 @@ class Manager:
         ps.nxt = PubLot(pubs=[signer.verfer.qb64 for signer in signers],
                               ridx=ridx, kidx=kidx, dt=dt)
 
-        if not self.ks.sits.pin(pre, val=ps):
-            raise ValueError("Problem updating pubsit db for pre={}.".format(pre))
-
         for signer in signers:  # store secrets (private key val keyed by public key)
             self.ks.pris.put(keys=signer.verfer.qb64b, val=signer,
                              encrypter=self.encrypter)
 
         # store public keys for lookup of private keys by public key for replay
-        self.ks.pubs.put(riKey(pre, ri=ps.nxt.ridx), val=PubSet(pubs=ps.nxt.pubs))
+        self.ks.pubs.pin(riKey(pre, ri=ps.nxt.ridx), val=PubSet(pubs=ps.nxt.pubs))
+
+        # only once its private keys are stored
+        if not self.ks.sits.pin(pre, val=ps):
+            raise ValueError("Problem updating pubsit db for pre={}.".format(pre))
 
         if erase:
             for pub in old.pubs:  # remove prior old prikeys not current old
-- 
2.43.0


From 682e692639abe13591d0a833b4940cf0102f05c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:39 +0000
Subject: [PATCH 068/167] fix: an interrupted move leaves the identifier whole
 under its old or its new prefix

---
 src/keri/app/keeping.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/keri/app/keeping.py b/src/keri/app/keeping.py
index 0e5216f..48f68c3 100644
--- a/src/keri/app/keeping.py
+++ b/src/keri/app/keeping.py
@@ -1120,13 +1120,9 @@ class Manager:
 
         if not self.ks.prms.put(new, val=oldprm):
             raise ValueError("Failed moving prm from old pre={} to new pre={}.".format(old, new))
-        else:
-            self.ks.prms.rem(old)
 
         if not self.ks.sits.put(new, val=oldsit):
             raise ValueError("Failed moving sit from old pre={} to new pre={}.".format(old, new))
-        else:
-            self.ks.sits.rem(old)
 
         # move .pubs entries if any
         i = 0
@@ -1144,6 +1140,10 @@ class Manager:
         if not self.ks.pres.put(new, val=Prefixer(qb64=new)):
             raise ValueError("Failed assiging new pre={}.".format(new))
 
+        # only once all of it is at new
+        self.ks.prms.rem(old)
+        self.ks.sits.rem(old)
+
 
     def rotate(self, pre, ncodes=None, ncount=1,
                      ncode=MtrDex.Ed25519_Seed,
-- 
2.43.0


From a53c11cdaac5754e1e546393e7a82f0a310b1442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:35 +0000
Subject: [PATCH 069/167] fix: a native message in binary is read, whatever
 follows it

---
 src/keri/core/serdering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/serdering.py b/src/keri/core/serdering.py
index b74848d..2415c23 100644
--- a/src/keri/core/serdering.py
+++ b/src/keri/core/serdering.py
@@ -1191,7 +1191,7 @@ class Serder:
                     sraw = raw[:ss]  # only copy enough bytes for serder
                     if strip and isinstance(raw, bytearray):
                         del raw[:ss]
-                    sraw = encodeB64(raw)  # loads expects Base64 text domain
+                    sraw = encodeB64(sraw)  # loads expects Base64 text domain
                 elif cold == Colds.txt:
                     ctr = Counter(qb64b=raw)
                     ss = ctr.byteCount(cold=cold) + ctr.byteSize(cold=cold)
-- 
2.43.0


From 8607463b37db9138abb01c9896c14f3c86a47227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:35 +0000
Subject: [PATCH 070/167] fix: a native field map message is read from a stream

---
 src/keri/core/serdering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/serdering.py b/src/keri/core/serdering.py
index 2415c23..a4ba0d2 100644
--- a/src/keri/core/serdering.py
+++ b/src/keri/core/serdering.py
@@ -183,7 +183,7 @@ class Serdery:
             lsize = 0  # label size in bytes
             if not fixed:  # extract label for version field
                 labeler = Labeler(qb64b=ims[ctr.fullSize:])  # offset past ctr
-                lsize = labeler.fullsize
+                lsize = labeler.fullSize
 
             verser = Verser(qb64b=ims[ctr.fullSize+lsize:])  # in text domain
             proto, pvrsn, gvrsn = verser.versage
-- 
2.43.0


From 89834796516f100784ee14651383aa85a4974d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:35 +0000
Subject: [PATCH 071/167] fix: a native message with an empty optional
 identifier reads back

---
 src/keri/core/serdering.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/serdering.py b/src/keri/core/serdering.py
index a4ba0d2..876dec3 100644
--- a/src/keri/core/serdering.py
+++ b/src/keri/core/serdering.py
@@ -28,7 +28,7 @@ from ..kering import (ValidationError,  MissingFieldError, ExtraFieldError,
 from ..help import isNonStringIterable, NonStringIterable
 from .coring import (DigDex, PreDex, NonTransDex, PreNonDigDex, Saids,
                      Matter, Verfer, Prefixer, Diger, Number, Tholder,
-                     Ilker, Traitor, Verser, Dater, Pather, Noncer, Labeler)
+                     Ilker, Traitor, Verser, Dater, Pather, Noncer, NonceDex, Labeler)
 from .mapping import Mapper, Compactor, Aggor
 from .counting import GenDex, ProGen, Counter, Codens, SealDex_2_0, MUDex_2_0
 from .structing import Sealer, SClanDom
@@ -1368,6 +1368,9 @@ class Serder:
                     case "t":  # message type (ilk), already got ilk
                         sad[l] = ilk
 
+                    case "p" | "ri" | "x" if raw[:4] == NonceDex.Empty.encode():
+                        sad[l] = Noncer(qb64b=raw, strip=True).nonce  # empty
+
                     case "d" | "p" | "x":  # SAID
                         sad[l] = Diger(qb64b=raw, strip=True).qb64
 
@@ -1717,7 +1720,10 @@ class Serder:
                         val = Ilker(ilk=v).qb64b  # assumes same
 
                     case "d" | "i" | "p" | "u" | "di" | "ri" | "x":  # said or aid
-                        val = v.encode("utf-8")  # already primitive qb64 make qb6b
+                        if not v and l in ("p", "ri", "x"):  # may be empty
+                            val = Noncer(nonce=v).qb64b
+                        else:
+                            val = v.encode("utf-8")  # already primitive qb64 make qb6b
 
                     case "s" | "bt":  # sequence number or numeric threshold
                         val = Number(numh=v).qb64b  # convert hex str
-- 
2.43.0


From cf0a9b72b5feff7681bb8c9a80dbcfd762418e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:35 +0000
Subject: [PATCH 072/167] fix: a seal without native form is refused, not left
 out of the message

---
 src/keri/core/serdering.py | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/src/keri/core/serdering.py b/src/keri/core/serdering.py
index 876dec3..a0afc0b 100644
--- a/src/keri/core/serdering.py
+++ b/src/keri/core/serdering.py
@@ -1784,22 +1784,9 @@ class Serder:
                                         gcode = code  # new group or keep same group
                                         gframe.extend(sealer.qb64b)  # extend in new group
 
-                                except InvalidValueError:
-                                    if gframe:
-                                        counter = Counter(code=gcode,
-                                                          count=len(gframe) // 4,
-                                                          version=gvrsn)
-                                        frame.extend(counter.qb64b + gframe)
-                                        gframe = bytearray()
-                                        gcode = None
-
-                                    #unknown seal type so serialize as field map
-                                    #generic seal no count type (v, Mapping):
-                                    #for l, e in v.items():
-                                        #pass
-                                    #val = bytearray(Counter(tag=""GenericMapGroup"",
-                                                   # count=len(frame) // 4).qb64b)
-                                    #val.extend(mapframe)
+                                except InvalidValueError as ex:  # no native form
+                                    raise SerializeError(f"Unsupported seal={e} "
+                                                         f"in native message") from ex
 
                             if gframe:  # close off last group if any
                                 counter = Counter(code=gcode,
-- 
2.43.0


From 3b8bc420d267457ff0a34f6559a50373c34427c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:35 +0000
Subject: [PATCH 073/167] fix: a native message with a big group of seals reads
 back

---
 src/keri/core/serdering.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keri/core/serdering.py b/src/keri/core/serdering.py
index a0afc0b..17b5542 100644
--- a/src/keri/core/serdering.py
+++ b/src/keri/core/serdering.py
@@ -349,6 +349,8 @@ class Serder:
 
     # map seal counter code to seal clan name for parsing seal groups in anchor list
     CodeClans = { val: key for key, val in ClanCodes.items()}  # invert dict
+    # same clan for the big version of each group code
+    CodeClans |= { val.replace('-', '--', 1): key for key, val in ClanCodes.items()}
 
     #override in subclass to enforce specific protocol
     Protocol = None  # class based message protocol, None means any in Protocols is ok
-- 
2.43.0


From 5d103163145a6e9c8551b921632222b329a14215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:40 +0000
Subject: [PATCH 074/167] fix: a big group of seals in a native message reads
 back as its small one does

---
 src/keri/core/serdering.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/keri/core/serdering.py b/src/keri/core/serdering.py
index 17b5542..8567d4b 100644
--- a/src/keri/core/serdering.py
+++ b/src/keri/core/serdering.py
@@ -349,8 +349,6 @@ class Serder:
 
     # map seal counter code to seal clan name for parsing seal groups in anchor list
     CodeClans = { val: key for key, val in ClanCodes.items()}  # invert dict
-    # same clan for the big version of each group code
-    CodeClans |= { val.replace('-', '--', 1): key for key, val in ClanCodes.items()}
 
     #override in subclass to enforce specific protocol
     Protocol = None  # class based message protocol, None means any in Protocols is ok
@@ -1434,9 +1432,11 @@ class Serder:
                             raw = raw[fs:]  # strip frame from raw
                             while frame:  # while list frame not empty
                                 sctr = Counter(qb64b=frame, strip=True, version=self.gvrsn)  # seal counter
-                                if sctr.code not in Serder.CodeClans:
+                                # clan is the same for the big version of the group code
+                                scode = sctr.code.replace('--', '-', 1)
+                                if scode not in Serder.CodeClans:
                                     raise DeserializeError(f"Expected Sealer group got {sctr.name}")
-                                cast = Sealer.Casts[Serder.CodeClans[sctr.code]]
+                                cast = Sealer.Casts[Serder.CodeClans[scode]]
                                 sfs = sctr.count * 4
                                 sframe = frame[:sfs]  # extra seal frame
                                 frame = frame[sfs:]  # strip sfram from frame
-- 
2.43.0


From 2463ba9dc87a6c21bb8e2a61b223c7380b563d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:03 +0000
Subject: [PATCH 075/167] fix: a native message with neither exchange nor prior
 identifier reads back

---
 src/keri/core/serdering.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/keri/core/serdering.py b/src/keri/core/serdering.py
index 8567d4b..88233d6 100644
--- a/src/keri/core/serdering.py
+++ b/src/keri/core/serdering.py
@@ -28,7 +28,8 @@ from ..kering import (ValidationError,  MissingFieldError, ExtraFieldError,
 from ..help import isNonStringIterable, NonStringIterable
 from .coring import (DigDex, PreDex, NonTransDex, PreNonDigDex, Saids,
                      Matter, Verfer, Prefixer, Diger, Number, Tholder,
-                     Ilker, Traitor, Verser, Dater, Pather, Noncer, NonceDex, Labeler)
+                     Ilker, Traitor, Verser, Dater, Pather, Noncer, NonceDex,
+                     MtrDex, Labeler)
 from .mapping import Mapper, Compactor, Aggor
 from .counting import GenDex, ProGen, Counter, Codens, SealDex_2_0, MUDex_2_0
 from .structing import Sealer, SClanDom
@@ -1371,6 +1372,9 @@ class Serder:
                     case "p" | "ri" | "x" if raw[:4] == NonceDex.Empty.encode():
                         sad[l] = Noncer(qb64b=raw, strip=True).nonce  # empty
 
+                    case "p" | "x" if raw[:4] == MtrDex.DateTime.encode():
+                        sad[l] = ''  # both left out when both empty
+
                     case "d" | "p" | "x":  # SAID
                         sad[l] = Diger(qb64b=raw, strip=True).qb64
 
@@ -1722,9 +1726,10 @@ class Serder:
                         val = Ilker(ilk=v).qb64b  # assumes same
 
                     case "d" | "i" | "p" | "u" | "di" | "ri" | "x":  # said or aid
-                        if not v and l in ("p", "ri", "x"):  # may be empty
-                            val = Noncer(nonce=v).qb64b
-                        else:
+                        if (not v and (l == "ri" or
+                                (l in ("p", "x") and (sad.get("p") or sad.get("x"))))):
+                            val = Noncer(nonce=v).qb64b  # explicit empty
+                        else:  # when both p and x empty then left out
                             val = v.encode("utf-8")  # already primitive qb64 make qb6b
 
                     case "s" | "bt":  # sequence number or numeric threshold
-- 
2.43.0


From 1982baa4375dbd208ebed411e9b79cc55e7e66ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:41 +0000
Subject: [PATCH 076/167] fix: a native message with no optional identifier at
 all reads back

---
 src/keri/core/serdering.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/keri/core/serdering.py b/src/keri/core/serdering.py
index 88233d6..77b2095 100644
--- a/src/keri/core/serdering.py
+++ b/src/keri/core/serdering.py
@@ -1372,8 +1372,8 @@ class Serder:
                     case "p" | "ri" | "x" if raw[:4] == NonceDex.Empty.encode():
                         sad[l] = Noncer(qb64b=raw, strip=True).nonce  # empty
 
-                    case "p" | "x" if raw[:4] == MtrDex.DateTime.encode():
-                        sad[l] = ''  # both left out when both empty
+                    case "p" | "ri" | "x" if raw[:4] == MtrDex.DateTime.encode():
+                        sad[l] = ''  # left out when all of ri, x, and p are empty
 
                     case "d" | "p" | "x":  # SAID
                         sad[l] = Diger(qb64b=raw, strip=True).qb64
@@ -1726,10 +1726,10 @@ class Serder:
                         val = Ilker(ilk=v).qb64b  # assumes same
 
                     case "d" | "i" | "p" | "u" | "di" | "ri" | "x":  # said or aid
-                        if (not v and (l == "ri" or
-                                (l in ("p", "x") and (sad.get("p") or sad.get("x"))))):
+                        if (not v and l in ("ri", "x", "p") and
+                                any(sad.get(e) for e in ("ri", "x", "p"))):
                             val = Noncer(nonce=v).qb64b  # explicit empty
-                        else:  # when both p and x empty then left out
+                        else:  # left out when all of ri, x, and p are empty
                             val = v.encode("utf-8")  # already primitive qb64 make qb6b
 
                     case "s" | "bt":  # sequence number or numeric threshold
-- 
2.43.0


From d96874684cb0a1280fb22be6af10f2245fa73e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:13 +0000
Subject: [PATCH 077/167] fix: a registry event is anchored by any seal of a
 key event, alone or among others

---
 src/keri/vdr/eventing.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index c27ebeb..3f2a2b8 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1327,18 +1327,11 @@ class Tever:
         if eserder.said != saider.qb64:
             return False
 
-        seal = eserder.ked["a"]
-        if seal is None or len(seal) != 1:
-            return False
-
-        seal = seal[0]
-        spre = seal["i"]
-        ssn = seal["s"]
-        sdig = seal["d"]
-
-        if spre == serder.ked["i"] and ssn == serder.ked["s"] \
-                and serder.said == sdig:
-            return True
+        for seal in (eserder.ked["a"] or []):  # any of the seals in the event
+            if (isinstance(seal, dict) and seal.get("i") == serder.ked["i"]
+                    and seal.get("s") == serder.ked["s"]
+                    and seal.get("d") == serder.said):
+                return True
 
         return False
 
-- 
2.43.0


From 9998f65ebcc9dd9c0a4195db37c8fe6554ce29a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:13 +0000
Subject: [PATCH 078/167] fix: backer signatures of an out of order registry
 event are kept with it

---
 src/keri/vdr/eventing.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 3f2a2b8..dcda5cb 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1523,7 +1523,8 @@ class Tevery:
                     pass
             else:
                 # out of order, need to escrow
-                self.escrowOOEvent(serder=serder, seqner=seqner, saider=saider)
+                self.escrowOOEvent(serder=serder, seqner=seqner, saider=saider,
+                                   bigers=wigers)
                 msg = f"Escrowed out of order event of type = {ilk} pre = {pre} SAID = {serder.said}"
                 logger.debug(msg)
                 logger.debug("TEL Event Body=\n%s\n", serder.pretty())
@@ -1551,7 +1552,8 @@ class Tevery:
 
             if sn > sno:  # sn later than sno so out of order escrow
                 # escrow out-of-order event
-                self.escrowOOEvent(serder=serder, seqner=seqner, saider=saider)
+                self.escrowOOEvent(serder=serder, seqner=seqner, saider=saider,
+                                   bigers=wigers)
                 raise OutOfOrderError("Out-of-order event={}.".format(ked))
             elif sn == sno:  # new inorder event
                 tever.update(serder=serder, seqner=seqner, saider=saider, bigers=wigers)
@@ -1935,7 +1937,7 @@ class Tevery:
         else:
             raise ValidationError("invalid ilk {} for tevery event = {}".format(ilk, serder.ked))
 
-    def escrowOOEvent(self, serder, seqner, saider):
+    def escrowOOEvent(self, serder, seqner, saider, bigers=None):
         """ Escrow out-of-order TEL events.
 
         Saves the serialized event, anchor and event digest in escrow for any
@@ -1948,12 +1950,15 @@ class Tevery:
         Parameters:
             serder (Serder): serder of event message
             seqner (Seqner): sequence number of anchoring TEL event
-                saider (Diger) digest of anchoring TEL event"""
+                saider (Diger) digest of anchoring TEL event
+            bigers (list): indexed backer signatures given with event"""
         key = dgKey(serder.preb, serder.saidb)
         self.reger.tvts.put(keys=key, val=serder.raw)
         number = Number(num=seqner.sn)
         diger = Diger(qb64=saider.qb64)
         self.reger.ancs.put(keys=key, val=(number, diger))
+        if bigers:
+            self.reger.tibs.pin(keys=key, vals=bigers)
         self.reger.oots.put(keys=serder.preb, on=serder.sn, vals=serder.saidb)
         logger.debug("Tever state: Escrowed our of order TEL event "
                      "event = %s", serder.ked)
-- 
2.43.0


From 1852d02c8968324a1661663726b418304c010909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:13 +0000
Subject: [PATCH 079/167] fix: backers are those of an accepted registry event,
 never of one still waiting

---
 src/keri/vdr/eventing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index dcda5cb..282aefb 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1400,6 +1400,10 @@ class Tever:
                                                                self.prefixer.qb64,
                                                                ked))
 
+        if self.reger.tels.get(keys=regi, on=int(rega["s"], 16)) != regd:
+            raise ValidationError("Registry event = {} not accepted for evt = {}."
+                                  "".format(regd, ked))
+
         # load backer list and toad (via event) for specific event in registry from seal in event
         dgkey = dgKey(regi, regd)
         revt = self.reger.tvts.get(keys=dgkey)
-- 
2.43.0


From 6612597b127cdd8ad7bda1f1966cc0343c387934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:13 +0000
Subject: [PATCH 080/167] fix: a credential has no state in a registry which
 did not issue it

---
 src/keri/vdr/eventing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 282aefb..1dfdf45 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1158,6 +1158,10 @@ class Tever:
         if len(digs) == 0:
             return None
 
+        raw = self.reger.tvts.get(keys=dgKey(vci, digs[0]))  # issuance
+        if Tevery.registryKey(SerderKERI(raw=raw.encode("utf-8"))) != self.prefixer.qb64:
+            return None  # issued from some other registry
+
         vcsn = len(digs) - 1
         vcdig = digs[-1].encode("utf-8")
 
-- 
2.43.0


From 6baa1de981c5e87ab54154d7c3095adb5f6d87be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:13 +0000
Subject: [PATCH 081/167] fix: a credential is revoked only by the registry
 which issued it

---
 src/keri/vdr/eventing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 1dfdf45..e5c1c15 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1108,6 +1108,10 @@ class Tever:
                                                                self.serder.said,
                                                                ked))
 
+        if Tevery.registryKey(iserder) != self.prefixer.qb64:
+            raise ValidationError("Revocation by registry = {} which did not "
+                                  "issue for evt = {}.".format(self.regk, ked))
+
         if ilk in (Ilks.rev,):  # simple revoke
             if self.noBackers is False:
                 raise ValidationError("invalid simple issue evt {} against backer based registry {}".
-- 
2.43.0


From b40a40ddb5a6b44dc885fb79a276f6861febded5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:13 +0000
Subject: [PATCH 082/167] fix: the anchor recorded with an accepted registry
 event is the one it was verified against

---
 src/keri/vdr/eventing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index e5c1c15..62889db 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1233,7 +1233,7 @@ class Tever:
         key = dgKey(pre, dig)
         number = Number(num=seqner.sn)
         diger = Diger(qb64=saider.qb64)
-        self.reger.ancs.put(keys=key, val=(number, diger))
+        self.reger.ancs.pin(keys=key, val=(number, diger))
         if bigers:
             self.reger.tibs.pin(keys=key, vals=bigers)
         if baks:
-- 
2.43.0


From 2698330812869ef926f91226e17d8517e69f5c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:13 +0000
Subject: [PATCH 083/167] fix: one failed registry event does not drop others
 waiting at its number

---
 src/keri/vdr/eventing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 62889db..bac598d 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -2041,7 +2041,7 @@ class Tevery:
 
             except Exception as ex:  # log diagnostics errors etc
                 # error other than out of order so remove from OO escrow
-                self.reger.oots.rem(keys=pre, on=sn)  # removes one escrow at key val
+                self.reger.oots.rem(keys=pre, on=sn, val=digb)  # removes one escrow at key val
                 if logger.isEnabledFor(logging.DEBUG):
                     logger.exception("Tevery OOO unescrowed: %s", ex.args[0])
                 else:
@@ -2051,7 +2051,7 @@ class Tevery:
                 # We don't remove all escrows at pre,sn because some might be
                 # duplicitous so we process remaining escrows in spite of found
                 # valid event escrow.
-                self.reger.oots.rem(keys=pre, on=sn)  # removes from escrow
+                self.reger.oots.rem(keys=pre, on=sn, val=digb)  # removes from escrow
                 logger.info("Tevery OOO unescrow succeeded in valid event: said=%s", tserder.said)
                 logger.debug("Event=\n%s\n", tserder.pretty())
 
@@ -2099,7 +2099,7 @@ class Tevery:
 
             except Exception as ex:  # log diagnostics errors etc
                 # error other than out of order so remove from OO escrow
-                self.reger.taes.rem(keys=pre, on=sn)  # removes one escrow at key val
+                self.reger.taes.rem(keys=pre, on=sn, val=digb)  # removes one escrow at key val
                 if logger.isEnabledFor(logging.DEBUG):
                     logger.exception("Tevery ANC unescrowed: %s", ex.args[0])
                 else:
@@ -2109,7 +2109,7 @@ class Tevery:
                 # We don't remove all escrows at pre,sn because some might be
                 # duplicitous so we process remaining escrows in spite of found
                 # valid event escrow.
-                self.reger.taes.rem(keys=pre, on=sn)  # removes from escrow
+                self.reger.taes.rem(keys=pre, on=sn, val=digb)  # removes from escrow
                 logger.info("Tevery ANC unescrow succeeded in valid event: said=%s", tserder.said)
                 logger.debug("event=\n%s\n", tserder.pretty())
 
-- 
2.43.0


From 36e44d4d21f8569cab5c8a29612efa6add592bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:13 +0000
Subject: [PATCH 084/167] fix: the stored state of a registry follows its
 rotations

---
 src/keri/vdr/eventing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index bac598d..d891be6 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1569,6 +1569,8 @@ class Tevery:
                 raise OutOfOrderError("Out-of-order event={}.".format(ked))
             elif sn == sno:  # new inorder event
                 tever.update(serder=serder, seqner=seqner, saider=saider, bigers=wigers)
+                if ilk in (Ilks.vrt, ):
+                    self.tevers[regk] = tever  # stores changed registry state
 
                 if regk not in self.registries:
                     # witness style backers will need to send receipts so lets queue them up for now
-- 
2.43.0


From 0362b9c43cd3726be71b04911296bb7e30fafed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:13 +0000
Subject: [PATCH 085/167] fix: a query for the state of a credential is
 answered, for the times asked

---
 src/keri/vdr/eventing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index d891be6..3670c36 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -620,10 +620,10 @@ def query(regk,
         qry["dt"] = dt
 
     if dta is not None:
-        qry["dta"] = dt
+        qry["dta"] = dta
 
     if dtb is not None:
-        qry["dtb"] = dt
+        qry["dtb"] = dtb
 
     return queryCore(route=route,
                           pre=pre,
@@ -1633,7 +1633,7 @@ class Tevery:
                 self.cues.push(dict(kin="reply", route="/tsn/registry", data=asdict(tsn), dest=source))
 
                 if vcpre := qry["i"]:
-                    tsn = tever.vcState(vcpre=vcpre)
+                    tsn = tever.vcState(vci=vcpre)
                     self.cues.push(dict(kin="reply", route="/tsn/credential", data=asdict(tsn), dest=source))
 
         else:
-- 
2.43.0


From ac4db5a5cfea744a79f2a0a958d3f62ddb74adad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:13 +0000
Subject: [PATCH 086/167] fix: a registry anchored by establishment events only
 stays so when reloaded

---
 src/keri/vdr/eventing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 3670c36..d54d638 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -769,6 +769,8 @@ class Tever:
         cnfg = []
         if self.noBackers:
             cnfg.append(TraitDex.NoBackers)
+        if self.estOnly:
+            cnfg.append(TraitDex.EstOnly)
 
         dgkey = dgKey(self.regk, self.serder.said)
         couple = self.reger.ancs.get(keys=dgkey)
-- 
2.43.0


From eda003d190d9813c7f44434fd01fc8b141659b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:13 +0000
Subject: [PATCH 087/167] fix: a stored registry is got like any other

---
 src/keri/vdr/eventing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index d54d638..318a304 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -2175,7 +2175,7 @@ class rbdict(dict):
 
         Returns:
             tever: converted from underlying dict or database"""
-        if not super(rbdict, self).__contains__(k):
+        if not self.__contains__(k):  # reads through to stored states
             return default
         else:
             return self.__getitem__(k)
-- 
2.43.0


From d8fc3434007889b5df1b85776798c05c6c6088d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:13 +0000
Subject: [PATCH 088/167] fix: a credential is accepted only in a registry of
 its own issuer

---
 src/keri/vdr/verifying.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/keri/vdr/verifying.py b/src/keri/vdr/verifying.py
index 7d1c7be..f87cc15 100644
--- a/src/keri/vdr/verifying.py
+++ b/src/keri/vdr/verifying.py
@@ -127,6 +127,10 @@ class Verifier:
                 self.cues.append(dict(kin="telquery", q=dict(ri=regk, i=vcid, issr=creder.israid)))
             raise MissingRegistryError("registry identifier {} not in Tevers".format(regk))
 
+        if self.tevers[regk].pre != creder.israid:
+            raise ValidationError(f"Credential {vcid} of issuer {creder.israid} in "
+                                  f"registry {regk} of other issuer {self.tevers[regk].pre}")
+
         state = self.tevers[regk].vcState(vcid)
         if state is None:  # credential issuance event not found yet
             if self.escrowMRE(creder, prefixer, seqner, saider):
-- 
2.43.0


From 162cfb40dbf1eeb40c18f141f5a5620167c74c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:21 +0000
Subject: [PATCH 089/167] fix: only verified backer signatures stay with an
 accepted registry event

---
 src/keri/vdr/eventing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 318a304..437a01e 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1238,6 +1238,8 @@ class Tever:
         self.reger.ancs.pin(keys=key, val=(number, diger))
         if bigers:
             self.reger.tibs.pin(keys=key, vals=bigers)
+        else:
+            self.reger.tibs.rem(keys=key)  # unverified from while it waited
         if baks:
             self.reger.baks.rem(key)
             self.reger.baks.put(key, [bak.encode("utf-8") for bak in baks])
-- 
2.43.0


From ea1145ea2b3be4a3d526fdffb3b20bfb8a5470e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:58 +0000
Subject: [PATCH 090/167] fix: the registry event naming backers is looked for
 at its own number

---
 src/keri/vdr/eventing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 437a01e..1892356 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1412,10 +1412,6 @@ class Tever:
                                                                self.prefixer.qb64,
                                                                ked))
 
-        if self.reger.tels.get(keys=regi, on=int(rega["s"], 16)) != regd:
-            raise ValidationError("Registry event = {} not accepted for evt = {}."
-                                  "".format(regd, ked))
-
         # load backer list and toad (via event) for specific event in registry from seal in event
         dgkey = dgKey(regi, regd)
         revt = self.reger.tvts.get(keys=dgkey)
@@ -1423,6 +1419,10 @@ class Tever:
             raise ValidationError("have to escrow this somewhere")
 
         rserder = SerderKERI(raw=revt.encode("utf-8"))
+        if self.reger.tels.get(keys=regi, on=rserder.sn) != regd:  # still waiting
+            raise ValidationError("Registry event = {} not accepted for evt = {}."
+                                  "".format(regd, ked))
+
         # the backer threshold at this event in mgmt TEL
         rtoad = rserder.ked["bt"]
 
-- 
2.43.0


From 2f9a21a8838ecd7a2488b787be1aae3a7084ebf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:10 +0000
Subject: [PATCH 091/167] fix: one's own registry stays so when reloaded

---
 src/keri/vdr/eventing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 1892356..08f204a 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -2144,7 +2144,8 @@ class rbdict(dict):
             if (rsr := self.reger.states.get(keys=k)) is None:
                 raise ex  # reraise KeyError
             try:
-                tever = Tever(rsr=rsr, db=self.db, reger=self.reger)
+                tever = Tever(rsr=rsr, db=self.db, reger=self.reger,
+                              local=k in self.reger.registries)
             except MissingEntryError:  # no kel event for keystate
                 raise ex  # reraise KeyError
             super(rbdict, self).__setitem__(k, tever)
-- 
2.43.0


From ab0122ac65d7f7498f05d8031ae36e84419a3c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:19 +0000
Subject: [PATCH 092/167] fix: a backer signing twice counts once

---
 src/keri/vdr/eventing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 08f204a..8d232c5 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1299,7 +1299,7 @@ class Tever:
                 raise ValidationError("Invalid toad = {} for wits = {} for evt"
                                       " = {}.".format(toad, baks, serder.ked))
 
-            if len(bindices) < toad:  # not fully witnessed yet
+            if len(set(bindices)) < toad:  # not fully witnessed yet
                 self.escrowPWEvent(serder=serder, seqner=seqner, saider=saider, bigers=bigers)
                 msg = (f"Failure satisfying toad = {toad} on witness sigs "
                        f"for {[siger.qb64 for siger in bigers]} for evt = {serder.said}")
-- 
2.43.0


From 69497fe7ff99acdc92d1d95cb9fda1d9bb21784d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:17 +0000
Subject: [PATCH 093/167] fix: a credential event naming a later registry event
 waits for it

---
 src/keri/vdr/eventing.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 8d232c5..3b26f93 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1416,11 +1416,12 @@ class Tever:
         dgkey = dgKey(regi, regd)
         revt = self.reger.tvts.get(keys=dgkey)
         if revt is None:
-            raise ValidationError("have to escrow this somewhere")
+            raise OutOfOrderError("Registry event = {} not yet known for evt = {}."
+                                  "".format(regd, ked))
 
         rserder = SerderKERI(raw=revt.encode("utf-8"))
         if self.reger.tels.get(keys=regi, on=rserder.sn) != regd:  # still waiting
-            raise ValidationError("Registry event = {} not accepted for evt = {}."
+            raise OutOfOrderError("Registry event = {} not accepted for evt = {}."
                                   "".format(regd, ked))
 
         # the backer threshold at this event in mgmt TEL
@@ -1572,7 +1573,12 @@ class Tevery:
                                    bigers=wigers)
                 raise OutOfOrderError("Out-of-order event={}.".format(ked))
             elif sn == sno:  # new inorder event
-                tever.update(serder=serder, seqner=seqner, saider=saider, bigers=wigers)
+                try:
+                    tever.update(serder=serder, seqner=seqner, saider=saider, bigers=wigers)
+                except OutOfOrderError:  # registry event it names not yet accepted
+                    self.escrowOOEvent(serder=serder, seqner=seqner, saider=saider,
+                                       bigers=wigers)
+                    raise
                 if ilk in (Ilks.vrt, ):
                     self.tevers[regk] = tever  # stores changed registry state
 
-- 
2.43.0


From 21732a3c8c877c7f7f78dccba223142cacbb81b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:12 +0000
Subject: [PATCH 094/167] fix: a credential in any serialization is checked
 against its schema

---
 src/keri/vdr/credentialing.py | 2 +-
 src/keri/vdr/verifying.py     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/keri/vdr/credentialing.py b/src/keri/vdr/credentialing.py
index 926d78a..e7a066a 100644
--- a/src/keri/vdr/credentialing.py
+++ b/src/keri/vdr/credentialing.py
@@ -940,7 +940,7 @@ class Credentialer(doing.DoDoer):
 
         schemer = Schemer(raw=scraw)
         try:
-            schemer.verify(creder.raw)
+            schemer.verify(creder.dumps())  # as JSON whatever its kind
         except ValidationError as ex:
             raise ConfigurationError(f"Credential schema validation failed for {schema}: {ex}")
 
diff --git a/src/keri/vdr/verifying.py b/src/keri/vdr/verifying.py
index f87cc15..96cf3ca 100644
--- a/src/keri/vdr/verifying.py
+++ b/src/keri/vdr/verifying.py
@@ -157,7 +157,7 @@ class Verifier:
 
         schemer = Schemer(raw=scraw)
         try:
-            schemer.verify(creder.raw)
+            schemer.verify(creder.dumps())  # as JSON whatever its kind
         except ValidationError as ex:
             print("Credential {} is not valid against schema {}: {}"
                   .format(creder.said, schema, ex))
@@ -221,7 +221,7 @@ class Verifier:
                                                      .format(nodeSchema, creder.said,
                                                              label, nodeSaid))
                         try:
-                            Schemer(raw=scraw).verify(farCreder.raw)
+                            Schemer(raw=scraw).verify(farCreder.dumps())
                         except ValidationError as ex:  # far node fails the edge schema
                             self.escrowMCE(creder, prefixer, seqner, saider)
                             self.cues.append(dict(kin="proof", said=nodeSaid))
-- 
2.43.0


From d025ca8a0cc06b648e80b29f7920f83e3b08e82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:10 +0000
Subject: [PATCH 095/167] fix: a listed credential comes with the source it was
 given with, in the version asked for

---
 src/keri/vdr/eventing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 3b26f93..0f4ed23 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -2419,7 +2419,9 @@ class Reger(LMDBer):
         for saider in saids:
             key = saider.qb64
             creder, prefixer, number, asaider = self.cloneCred(said=key)
-            atc = bytearray(serialize(creder, prefixer, number, saider))
+            atc = bytearray(coreMessagize(creder,
+                                          bonds=[SealEvent(i=prefixer, s=number, d=asaider)],
+                                          framed=True, gvrsn=gvrsn))
             del atc[0:creder.size]
 
             regk = creder.regid
-- 
2.43.0


From 8f269d6f9c7f957db81f9d08eebdc3e4f6e9ecd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:46 +0000
Subject: [PATCH 096/167] fix: a listed credential of a registry with backers
 comes with its anchoring events

---
 src/keri/vdr/eventing.py | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 0f4ed23..a386b1d 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -2412,7 +2412,6 @@ class Reger(LMDBer):
 
         Returns:
             list: fully hydrated credentials with full chains provided"""
-        from ..app import serialize
         if version is not None:
             gvrsn = version
         creds = []
@@ -2467,30 +2466,18 @@ class Reger(LMDBer):
                 )
             )
 
-            ctr = Counter(qb64b=iss, strip=True, version=gvrsn)
-            if ctr.name == Codens.AttachmentGroup:
-                ctr = Counter(qb64b=iss, strip=True, version=gvrsn)
-
-            if ctr.name == Codens.SealSourceCouples:
-                Number(qb64b=iss, strip=True)
-                saider = Saider(qb64b=iss)
-
-                anc = db.cloneEvtMsg(pre=creder.israid, fn=0, dig=saider.qb64b)
+            couple = self.ancs.get(keys=dgKey(creder.said, iserder.said))
+            if couple is not None:
+                anc = db.cloneEvtMsg(pre=creder.israid, fn=0, dig=couple[1].qb64b)
                 aserder = SerderKERI(raw=anc)
                 ancatc = bytes(anc[aserder.size:])
                 cred['anc'] = aserder.sad
                 cred['ancatc'] = ancatc.decode("utf-8"),
 
             if status.et in [Ilks.rev, Ilks.brv]:
-                ctr = Counter(qb64b=rev, strip=True, version=gvrsn)
-                if ctr.name == Codens.AttachmentGroup:
-                    ctr = Counter(qb64b=rev, strip=True, version=gvrsn)
-
-                if ctr.name == Codens.SealSourceCouples:
-                    Number(qb64b=rev, strip=True)
-                    saider = Saider(qb64b=rev)
-
-                    anc = db.cloneEvtMsg(pre=creder.israid, fn=0, dig=saider.qb64b)
+                couple = self.ancs.get(keys=dgKey(creder.said, rserder.said))
+                if couple is not None:
+                    anc = db.cloneEvtMsg(pre=creder.israid, fn=0, dig=couple[1].qb64b)
                     aserder = SerderKERI(raw=anc)
                     ancatc = bytes(anc[aserder.size:])
                     cred['revanc'] = aserder.sad
-- 
2.43.0


From 069f85be3b4bf265a0bb0d795cbd3ea49c81ef07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:31 +0000
Subject: [PATCH 097/167] fix: a path below a compacted block is not found in
 its said's own text

---
 src/keri/core/mapping.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/keri/core/mapping.py b/src/keri/core/mapping.py
index 4a4a6a8..12daa89 100644
--- a/src/keri/core/mapping.py
+++ b/src/keri/core/mapping.py
@@ -1046,7 +1046,7 @@ class Compactor(Mapper):
         tail = mad if mad is not None else self.mad
         parts = path.split(".")[1:]  # split and strip off top level part
         for part in parts:
-            if part not in tail:
+            if not isinstance(tail, Mapping) or part not in tail:
                 return None
             tail = tail[part]  # descend on level down
         return tail
@@ -1078,10 +1078,10 @@ class Compactor(Mapper):
 
         parts = parts[1:]  # strip off top
         for part in parts:  # if parts empty then top-level is super mad
-            if part not in mad:  # path part not in mad
+            if not isinstance(mad, Mapping) or part not in mad:  # path part not in mad
                 return (None, tail)
             mad = mad[part]  # descend on level down
-        if tail not in mad:  # tail not in mad so path not compatible with  mad
+        if not isinstance(mad, Mapping) or tail not in mad:  # tail not in mad so path not compatible with  mad
             return (None, None)
         return (mad, tail)
 
-- 
2.43.0


From 02848a399d39346ce80edb405688b17dd1d574d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:31 +0000
Subject: [PATCH 098/167] fix: a label with a dot over a nested said no longer
 makes compaction loop forever

---
 src/keri/core/mapping.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keri/core/mapping.py b/src/keri/core/mapping.py
index 12daa89..3930bf9 100644
--- a/src/keri/core/mapping.py
+++ b/src/keri/core/mapping.py
@@ -982,6 +982,9 @@ class Compactor(Mapper):
                     raise InvalidValueError(f"Got Mapping not str for said field"
                                             f" label={l} value={v}")
                 if self._hassaid(mad=v):
+                    if "." in l:  # not addressable by path, so never compactable
+                        raise InvalidValueError(f"Invalid label={l!r} of field "
+                                                f"map with nested said")
                     isleaf = False
                     paths = self._trace(mad=v, paths=paths, path=path + "." + l,
                                         saidify=saidify)
-- 
2.43.0


From 21284429bf9ea239b77acb552b7a7dd8f06ebb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:31 +0000
Subject: [PATCH 099/167] fix: an empty aggregate disclosure does not verify

---
 src/keri/core/mapping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/mapping.py b/src/keri/core/mapping.py
index 3930bf9..f655cff 100644
--- a/src/keri/core/mapping.py
+++ b/src/keri/core/mapping.py
@@ -1258,7 +1258,7 @@ class Aggor:
         except Exception as ex:
             return False
 
-        if aggor.agid != ael[0]:
+        if not ael or aggor.agid != ael[0]:
             return False
 
         return True
-- 
2.43.0


From e693d087d06f2721f6bafe440a67ca5cb87616d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:31 +0000
Subject: [PATCH 100/167] fix: an ACDC whose disclosed sections carry wrong
 saids does not verify

---
 src/keri/core/serdering.py | 44 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/serdering.py b/src/keri/core/serdering.py
index 77b2095..624a277 100644
--- a/src/keri/core/serdering.py
+++ b/src/keri/core/serdering.py
@@ -2866,7 +2866,7 @@ class SerderACDC(Serder):
         #super(SerderACDC, self)._verify(**kwa)
         sad, saids = self._validate()
 
-        sad, raw, size = self._compute(sad=sad, saids=saids)
+        sad, raw, size = self._compute(sad=sad, saids=saids, verify=True)
 
         if raw != self.raw:
             raise ValidationError(f"Invalid round trip of {sad} != \n"
@@ -2964,7 +2964,35 @@ class SerderACDC(Serder):
         self._sad = sad
 
 
-    def _compute(self, sad, saids, compactify=False):
+    @staticmethod
+    def _verifySection(section, sector):
+        """Verifies any non-empty saids, including nested, provided in section
+        against those computed in sector.
+
+        Parameters:
+            section (Mapping|list): section as provided, its saids not computed
+            sector (Compactor|Aggor): made from section with its saids computed
+
+        Raises a ValidationError when some provided said does not match
+        """
+        if isinstance(sector, Aggor):
+            pairs = [({"": section[0]}, {"": sector.agid}, ("", ))]
+            pairs.extend((e, c, sector.saids) for e, c in zip(section, sector.ael)
+                            if isinstance(e, Mapping))
+        else:
+            pairs = [(sector.getTail(path, mad=section), leafer.mad, sector.saids)
+                        for path, leafer in sector.leaves.items()]
+            if not pairs:  # not traced so only top level
+                pairs.append((section, sector.mad, sector.saids))
+
+        for given, computed, labels in pairs:
+            for label in labels:
+                if given.get(label) and given[label] != computed[label]:
+                    raise ValidationError(f"Invalid said={given[label]!r} at "
+                                          f"{label=} in section {section}.")
+
+
+    def _compute(self, sad, saids, compactify=False, verify=False):
         """Computes computed fields. These include size and said fields that have
         dummy characters. Replaces dummied fields with computed values.
         In the case of version strings replaces dummy size characters with
@@ -2983,6 +3011,10 @@ class SerderACDC(Serder):
             compactify (bool): True means return the most compact sad variant
                                False means return given sad but with saids computed
                                Default is False
+            verify (bool): True means verify provided saids of disclosed sections
+                           against those computed
+                           False means do not verify
+                           Default is False
 
 
         """
@@ -3024,6 +3056,8 @@ class SerderACDC(Serder):
                                 sector.compact()  # only compact do not expand
                                 said = sector.said
 
+                        if verify:
+                            self._verifySection(v, sector)
                         if said:
                             csad[l] = said  # assign said as compaction
 
@@ -3037,6 +3071,8 @@ class SerderACDC(Serder):
                                                kind=self.kind)
 
                                 agid = sector.agid
+                                if verify:
+                                    self._verifySection(v, sector)
                         if agid:
                             csad[l] = agid  # assign agid as compaction
 
@@ -3080,6 +3116,8 @@ class SerderACDC(Serder):
                                 slabel ='d'
 
 
+                        if verify:
+                            self._verifySection(v, sector)
                         if said:  # there is an embedded said field
                             if v.get(slabel) != said:
                                 raise InvalidValueError(f"Invalid section {said=} "
@@ -3101,6 +3139,8 @@ class SerderACDC(Serder):
                                 if not agid:
                                     raise InvalidValueError(f"Invalid aggregate"
                                                 f" {agid=} in section message")
+                                if verify:
+                                    self._verifySection(v, sector)
 
             raw = self.dumps(csad, kind=self.kind)
 
-- 
2.43.0


From 8231a57f0756f9584f66624059d161195ee95367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:00 +0000
Subject: [PATCH 101/167] fix: a structor can be made from a plain sequence of
 its field values

---
 src/keri/core/structing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/structing.py b/src/keri/core/structing.py
index fc5397b..b6906e4 100644
--- a/src/keri/core/structing.py
+++ b/src/keri/core/structing.py
@@ -829,7 +829,7 @@ class Structor:
 
                         cast = clan(**cast)  # convert to clan
 
-                    elif isinstance(cast, helping.isNonStringSequence):
+                    elif isinstance(cast, helping.NonStringSequence):
                         cast = clan(*cast)  # convert to clan assumes elements in correct order
 
                     else:
@@ -866,7 +866,7 @@ class Structor:
 
                         crew = clan(**crew)  # allpy clan
 
-                    elif isinstance(crew, helping.isNonStringSequence):
+                    elif isinstance(crew, helping.NonStringSequence):
                         crew = clan(*crew)  # apply clan assumes elements in correct order
 
                     else:
-- 
2.43.0


From 411b16bdb1b30055c2e7805a69d8ef246554727a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:00 +0000
Subject: [PATCH 102/167] fix: an empty group of structors can be made

---
 src/keri/core/structing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/structing.py b/src/keri/core/structing.py
index b6906e4..5276856 100644
--- a/src/keri/core/structing.py
+++ b/src/keri/core/structing.py
@@ -637,7 +637,7 @@ class Structor:
                 raise InvalidValueError(f"Invalid {cold=}, not {Colds.txt} or {Colds.bny}")
 
         if clan is None:  # empty structors
-            clan = list(cls.ClanCodens.keys())[0]  # use default as zeroth clan
+            clan = cls.Clans[list(cls.ClanCodens.keys())[0]]  # use default as zeroth clan
 
         try:
             coden = cls.ClanCodens[clan.__name__]
-- 
2.43.0


From bcaaeee1c6b05cd83879d53243449d41615f7a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:00 +0000
Subject: [PATCH 103/167] fix: a group of structors too large for a small
 counter is read back

---
 src/keri/core/structing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/structing.py b/src/keri/core/structing.py
index 5276856..4acea90 100644
--- a/src/keri/core/structing.py
+++ b/src/keri/core/structing.py
@@ -681,7 +681,7 @@ class Structor:
 
             ims = qb64b   # reference start of stream
             ctr = Counter(qb64b=qb64b)  # peek at counter
-            clan = cls.Clans[cls.CodenClans[ctr.name]]  # get clan from code name
+            clan = cls.Clans[cls.CodenClans[ctr.name.removeprefix("Big")]]  # get clan from code name
             cs = ctr.byteSize(cold=Colds.txt)  # counter byte size
             es = ctr.byteCount(cold=Colds.txt)  # enclosed content byte size
             gs = cs + es  # total group size including counter
@@ -694,7 +694,7 @@ class Structor:
         elif qb2 is not None:
             ims = qb2   # reference start of stream
             ctr = Counter(qb2=qb2)  # peek at counter
-            clan = cls.Clans[cls.CodenClans[ctr.name]]  # get clan from code name
+            clan = cls.Clans[cls.CodenClans[ctr.name.removeprefix("Big")]]  # get clan from code name
             cs = ctr.byteSize(cold=Colds.bny)  # counter byte size
             es = ctr.byteCount(cold=Colds.bny)  # enclosed content byte size
             gs = cs + es  # total group size including counter
-- 
2.43.0


From a1a5adc78d75620701c7d45e80e4dc70e3041b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:00 +0000
Subject: [PATCH 104/167] fix: a cut group of structors is refused rather than
 read in part

---
 src/keri/core/structing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/keri/core/structing.py b/src/keri/core/structing.py
index 4acea90..bd5f1dc 100644
--- a/src/keri/core/structing.py
+++ b/src/keri/core/structing.py
@@ -10,7 +10,7 @@ from collections.abc import Mapping
 from dataclasses import dataclass, astuple
 
 from ..kering import (Colds, ValidationError,
-                      InvalidValueError, EmptyMaterialError)
+                      InvalidValueError, ShortageError, EmptyMaterialError)
 from ..help import helping
 
 from .coring import (IceMapDom, Diger, DigDex, Prefixer, Number, Verser,
@@ -685,6 +685,8 @@ class Structor:
             cs = ctr.byteSize(cold=Colds.txt)  # counter byte size
             es = ctr.byteCount(cold=Colds.txt)  # enclosed content byte size
             gs = cs + es  # total group size including counter
+            if len(qb64b) < gs:
+                raise ShortageError(f"Need {gs - len(qb64b)} more bytes.")
             qb64b = bytearray(qb64b[cs:gs])  # copy contents as bytearray so can strip
             while qb64b:
                 structors.append(cls(clan=clan, qb64b=qb64b, strip=True))
@@ -698,6 +700,8 @@ class Structor:
             cs = ctr.byteSize(cold=Colds.bny)  # counter byte size
             es = ctr.byteCount(cold=Colds.bny)  # enclosed content byte size
             gs = cs + es  # total group size including counter
+            if len(qb2) < gs:
+                raise ShortageError(f"Need {gs - len(qb2)} more bytes.")
             qb2 = bytearray(qb2[cs:gs])  # copy contents as bytearray so can strip
             while qb2:
                 structors.append(cls(clan=clan, qb2=qb2, strip=True))
-- 
2.43.0


From 00b074eaf2c7eeaf5cf23e68798a5186566913d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:00 +0000
Subject: [PATCH 105/167] fix: a blinded state can be opened with the raw salt
 it was made with

---
 src/keri/core/structing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/structing.py b/src/keri/core/structing.py
index bd5f1dc..ca4b79c 100644
--- a/src/keri/core/structing.py
+++ b/src/keri/core/structing.py
@@ -1519,7 +1519,7 @@ class Blinder(Structor):
         and unblinded blinder that verifies against the provided said and uuid.
         Empty combinations for placeholder blinder"""
         if uuid is None:  # create uuid from salt and sn
-            if salt is None:
+            if salt is None and raw is None:
                 raise InvalidValueError(f"Invalid {salt=}")
             uuid = cls.makeUUID(raw=raw, salt=salt, sn=sn, tier=tier)
 
-- 
2.43.0


From 5c253f0bee18a335d6fa121cfbf84dd84605ed9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:00 +0000
Subject: [PATCH 106/167] fix: opening a blinded state leaves the caller's
 candidates as they were

---
 src/keri/core/structing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/structing.py b/src/keri/core/structing.py
index ca4b79c..de8cb4e 100644
--- a/src/keri/core/structing.py
+++ b/src/keri/core/structing.py
@@ -1526,12 +1526,12 @@ class Blinder(Structor):
         acdcs = [acdc]
         if "" not in acdcs:
             acdcs.append('')
-        states = states if states is not None else []
+        states = list(states) if states is not None else []
         if "" not in states:
             states.append("")
 
         if bound:
-            bounds = bounds if bounds is not None else [(0, '')]
+            bounds = list(bounds) if bounds is not None else [(0, '')]
             if (0, '') not in bounds:
                 bounds.append((0, ''))
 
-- 
2.43.0


From c458db9e7947e2ee68a04b654f8ea1a804920e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:30 +0000
Subject: [PATCH 107/167] fix: a peer message is judged by its verified
 signatures and left as accepted

---
 src/keri/peer/exchanging.py | 73 ++++++++++++++++++++++++++-----------
 1 file changed, 52 insertions(+), 21 deletions(-)

diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index 86c7ae8..aa6be4d 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -86,6 +86,9 @@ class Exchanger:
 
         behavior = self.routes[route] if route in self.routes else None
         if tsgs:
+            verified = []  # groups whose signatures meet their threshold
+            usable = []  # groups less any signatures known not to verify
+            lacking = None  # why a group does not suffice by itself
             for prefixer, snumber, sdiger, sigers in tsgs:  # iterate over each tsg
                 if sender != prefixer.qb64:  # sig not by aid
                     msg = (f"Skipped signature not from aid = "
@@ -95,27 +98,37 @@ class Exchanger:
                     raise MissingSignatureError(msg)
 
                 if prefixer.qb64 not in self.kevers or self.kevers[prefixer.qb64].sn < snumber.sn:
-                    if self.escrowPSEvent(serder=serder, tsgs=tsgs, pathed=ptds,
-                                          nests=nests):
-                        self.cues.append(dict(kin="query", q=dict(r="logs", pre=prefixer.qb64, sn=snumber.snh)))
-                    msg = f"Unable to find sender {prefixer.qb64} in kevers for evt = {serder.said}"
-                    logger.info(msg)
-                    logger.debug("Exchange message body=\n%s\n", serder.pretty())
-                    raise MissingSignatureError(msg)
+                    usable.append((prefixer, snumber, sdiger, sigers))
+                    lacking = f"Unable to find sender {prefixer.qb64} in kevers for evt = {serder.said}"
+                    continue
 
                 # Verify the signatures are valid and that the signature threshold as of the signing event is met
-                tholder, verfers = self.hby.db.resolveVerifiers(pre=prefixer.qb64, sn=snumber.sn, dig=sdiger.qb64)
-                _, indices = verifySigs(serder.raw, sigers, verfers)
+                try:
+                    tholder, verfers = self.hby.db.resolveVerifiers(pre=prefixer.qb64, sn=snumber.sn, dig=sdiger.qb64)
+                except ValidationError as ex:  # group of no use now or later
+                    lacking = f"Unusable signatures for evt = {serder.said}: {ex.args[0]}"
+                    continue
+                vsigers, indices = verifySigs(serder.raw, sigers, verfers)
+                if vsigers:
+                    usable.append((prefixer, snumber, sdiger, vsigers))
 
                 if not tholder.satisfy(indices):  # We still don't have all the sigers, need to escrow
-                    if self.escrowPSEvent(serder=serder, tsgs=tsgs, pathed=ptds,
-                                          nests=nests):
-                        self.cues.append(dict(kin="query", q=dict(r="logs", pre=prefixer.qb64, sn=snumber.snh)))
-                    msg = (f"Not enough signatures in idx={indices} route={route} "
-                           f"for evt = {serder.said} receiver={serder.ked.get('rp', '')}")
-                    logger.info(msg)
-                    logger.debug("Exchange message body=\n%s\n", serder.pretty())
-                    raise MissingSignatureError(msg)
+                    lacking = (f"Not enough signatures in idx={indices} route={route} "
+                               f"for evt = {serder.said} receiver={serder.ked.get('rp', '')}")
+                    continue
+
+                verified.append((prefixer, snumber, sdiger, vsigers))
+
+            if not verified:  # any one group that meets its threshold suffices
+                _, snumber, _, _ = tsgs[-1]
+                if self.escrowPSEvent(serder=serder, tsgs=usable, pathed=ptds,
+                                      nests=nests, essrs=essrs):
+                    self.cues.append(dict(kin="query", q=dict(r="logs", pre=sender, sn=snumber.snh)))
+                logger.info(lacking)
+                logger.debug("Exchange message body=\n%s\n", serder.pretty())
+                raise MissingSignatureError(lacking)
+
+            tsgs = verified
 
         elif cigars:
             for cigar in cigars:
@@ -134,7 +147,7 @@ class Exchanger:
                     raise MissingSignatureError(msg)
         else:
             self.escrowPSEvent(serder=serder, tsgs=[], pathed=ptds,
-                               nests=nests)
+                               nests=nests, essrs=essrs)
             msg = (
                 f"Failure satisfying exn, no cigs or sigs for evt = {serder.said} "
                 f"on route {route} receiver = {serder.ked.get('rp', '')}")
@@ -195,7 +208,7 @@ class Exchanger:
         """ Process all escrows for `exn` messages"""
         self.processEscrowPartialSigned()
 
-    def escrowPSEvent(self, serder, tsgs, pathed, nests=None):
+    def escrowPSEvent(self, serder, tsgs, pathed, nests=None, essrs=None):
         """ Escrow event that does not have enough signatures.
 
         Parameters:
@@ -203,9 +216,17 @@ class Exchanger:
             tsgs (list): quadlet of prefixer seqner, saider, sigers
             pathed (list): list of bytes of attached paths
             nests (list | None): parsed V2 nested substreams to preserve
+            essrs (list | None): ESSR streams as Texters to preserve
+
+        Returns:
+            escrowed (bool): True means not already in escrow, False otherwise.
+                A message already accepted is not escrowed again.
 
         """
         dig = serder.said
+        if self.hby.db.exns.get(keys=(dig,)) is not None:
+            return False
+
         for prefixer, seqner, ssaider, sigers in tsgs:  # iterate over each tsg
             quadkeys = (serder.said, prefixer.qb64, f"{seqner.sn:032x}", ssaider.qb64)
             for siger in sigers:
@@ -216,6 +237,8 @@ class Exchanger:
         if nests:
             self.hby.db.enst.pin(keys=(dig,),
                                  vals=[bytes(serializeParsedSubstream(nest)) for nest in nests])
+        for texter in essrs or []:
+            self.hby.db.essrs.add(keys=(dig,), val=texter)
         return self.hby.db.epse.put(keys=(dig,), val=serder)
 
     def processEscrowPartialSigned(self):
@@ -269,10 +292,11 @@ class Exchanger:
                 saved = self.hby.db.exns.get(keys=(dig,)) is not None
                 self.hby.db.epse.rem(dig)
                 self.hby.db.epsd.rem(dig)
-                self.hby.db.esigs.rem(dig)
                 if not saved:
+                    self.hby.db.esigs.trim(keys=(dig, ""))
                     self.hby.db.epath.rem(keys=(dig,))
                     self.hby.db.enst.rem(keys=(dig,))
+                    self.hby.db.essrs.rem(keys=(dig,))
                 if logger.isEnabledFor(logging.DEBUG):
                     logger.exception("Exchange partially signed unescrowed: %s", ex.args[0])
                 else:
@@ -281,10 +305,11 @@ class Exchanger:
                 saved = self.hby.db.exns.get(keys=(dig,)) is not None
                 self.hby.db.epse.rem(dig)
                 self.hby.db.epsd.rem(dig)
-                self.hby.db.esigs.rem(dig)
                 if not saved:
+                    self.hby.db.esigs.trim(keys=(dig, ""))
                     self.hby.db.epath.rem(keys=(dig,))
                     self.hby.db.enst.rem(keys=(dig,))
+                    self.hby.db.essrs.rem(keys=(dig,))
                     logger.info("Exchanger unescrow rejected exchange: said=%s", serder.said)
                     continue
                 logger.info("Exchanger unescrow succeeded in valid exchange: creder=%s", serder.said)
@@ -298,6 +323,12 @@ class Exchanger:
         cigars = cigars or []
         essrs = essrs or []
 
+        if self.hby.db.exns.get(keys=(dig,)) is None:  # drop what escrow holds unverified
+            self.hby.db.esigs.trim(keys=(dig, ""))
+            self.hby.db.essrs.rem(keys=(dig,))
+        self.hby.db.epse.rem(keys=(dig,))
+        self.hby.db.epsd.rem(keys=(dig,))
+
         for prefixer, seqner, ssaider, sigers in tsgs:  # iterate over each tsg
             quadkeys = (serder.said, prefixer.qb64, f"{seqner.sn:032x}", ssaider.qb64)
             for siger in sigers:
-- 
2.43.0


From 457e94854d70b73d889558e5263893c58e5d3358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:30 +0000
Subject: [PATCH 108/167] fix: a peer message whose behavior fails while
 verifying is not accepted

---
 src/keri/peer/exchanging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index aa6be4d..413ad67 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -183,13 +183,13 @@ class Exchanger:
                 raise ValidationError(f"essr diger={diger.qb64} is invalid against content")
 
         # Perform behavior specific verification, think IPEX chaining requirements
-        try:
+        if hasattr(behavior, "verify"):
             if not behavior.verify(serder=serder, **kwa):
                 logger.error("exn event for route %s failed behavior verification. said=%s", route, serder.said)
                 logger.debug(f"Event=\n%s\n", serder.pretty())
                 return
 
-        except AttributeError:
+        else:
             logger.debug("Behavior for %s missing or does not have verify for said %s", route, serder.said)
             logger.debug("Exn Event Body=\n%s\n", serder.pretty())
 
-- 
2.43.0


From 6bcb65ea8c1d418c565e10ef7e2c31789065ff21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:30 +0000
Subject: [PATCH 109/167] fix: a peer message is passed on with its sealed
 payload and any large embed

---
 src/keri/peer/exchanging.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index 413ad67..1dfbb9c 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -688,6 +688,7 @@ def serializeMessage(hby, said, framed=False):
     tsgs, cigars = verify(hby=hby, serder=exn)
     pathed = hby.db.epath.get(keys=(exn.said,))
     nests = hby.db.enst.get(keys=(exn.said,))
+    essrs = hby.db.essrs.get(keys=(exn.said,))
 
     if exn.pvrsn.major >= Vrsn_2_0.major and not pathed:
         return messagize(serder=exn,
@@ -709,18 +710,27 @@ def serializeMessage(hby, said, framed=False):
     # Pathed embeds are outside current messagize support — deliberate special
     # case until messagize gains path-material encoding.
     for p in pathed:
-        aims.extend(Counter(Codens.PathedMaterialCouples,
-                            count=(len(p) // 4), version=Vrsn_1_0).qb64b)
+        code = (Codens.PathedMaterialCouples if len(p) // 4 < 4096
+                else Codens.BigPathedMaterialCouples)
+        aims.extend(Counter(code, count=(len(p) // 4), version=Vrsn_1_0).qb64b)
         aims.extend(p.encode("utf-8"))
 
+    # ESSR payloads likewise
+    if essrs:
+        aims.extend(Counter(Codens.ESSRPayloadGroup,
+                            count=len(essrs), version=Vrsn_1_0).qb64b)
+        for texter in essrs:
+            aims.extend(texter.qb64b)
+
     msg = bytearray(exn.raw)
     if aims:
         if len(aims) % 4:
             raise ValueError("Invalid attachments size={}, nonintegral"
                              " quadlets.".format(len(aims)))
         if not framed:
-            msg.extend(Counter(Codens.AttachmentGroup,
-                               count=(len(aims) // 4), version=Vrsn_1_0).qb64b)
+            code = (Codens.AttachmentGroup if len(aims) // 4 < 4096
+                    else Codens.BigAttachmentGroup)
+            msg.extend(Counter(code, count=(len(aims) // 4), version=Vrsn_1_0).qb64b)
         msg.extend(aims)
 
     return msg
-- 
2.43.0


From d8c99322c72ec0970b00e08522e0195beb87ae61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:30 +0000
Subject: [PATCH 110/167] fix: an accepted peer message of a nontransferable
 sender can be read and passed on

---
 src/keri/peer/exchanging.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index 1dfbb9c..8fb9720 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -797,8 +797,10 @@ def verify(hby, serder):
             raise MissingSignatureError(msg)
         accepted = True
 
-    cigars = hby.db.ecigs.get(keys=(serder.said,))
-    for cigar in cigars:
+    cigars = []
+    for verfer, cigar in hby.db.ecigs.get(keys=(serder.said,)):
+        cigar.verfer = verfer
+        cigars.append(cigar)
         if not cigar.verfer.verify(cigar.raw, serder.raw):  # cig not verify
             msg = f"Failure satisfying exn on cigs for {cigar} for evt = {serder.said}"
             logger.info(msg)
-- 
2.43.0


From 46bcf32b5c32839a5647a436507386874a15f89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:56 +0000
Subject: [PATCH 111/167] fix: a sealed payload given in repeated or
 differently cut parts is kept whole

---
 src/keri/peer/exchanging.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index 8fb9720..03723c5 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -237,8 +237,9 @@ class Exchanger:
         if nests:
             self.hby.db.enst.pin(keys=(dig,),
                                  vals=[bytes(serializeParsedSubstream(nest)) for nest in nests])
-        for texter in essrs or []:
-            self.hby.db.essrs.add(keys=(dig,), val=texter)
+        if essrs:  # parts as one since a set would drop repeated parts
+            self.hby.db.essrs.add(keys=(dig,),
+                                  val=Texter(raw=b''.join(texter.raw for texter in essrs)))
         return self.hby.db.epse.put(keys=(dig,), val=serder)
 
     def processEscrowPartialSigned(self):
@@ -341,8 +342,9 @@ class Exchanger:
         if nests:
             self.hby.db.enst.pin(keys=(dig,),
                                  vals=[bytes(serializeParsedSubstream(nest)) for nest in nests])
-        for texter in essrs:
-            self.hby.db.essrs.add(keys=(dig,), val=texter)
+        if essrs:  # parts as one since a set would drop repeated parts
+            self.hby.db.essrs.add(keys=(dig,),
+                                  val=Texter(raw=b''.join(texter.raw for texter in essrs)))
         if pdig:
             self.hby.db.erpy.pin(keys=(pdig,), val=diger)
 
-- 
2.43.0


From ebbeb7a9c36be2a58c171c8195fda17e91b85a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:26 +0000
Subject: [PATCH 112/167] fix: a signature group that names no establishment
 event is refused as such

---
 src/keri/db/basing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keri/db/basing.py b/src/keri/db/basing.py
index 1d8b385..1d34973 100644
--- a/src/keri/db/basing.py
+++ b/src/keri/db/basing.py
@@ -2117,6 +2117,9 @@ class Baser(LMDBer):
                 raise ValidationError("Bad proof sig group at sn = {}"
                                              " for ksn = {}."
                                              "".format(sn, sserder.sad))
+            if not sserder.estive:  # only establishment events hold keys
+                raise ValidationError(f"Key event sn {sn} for pre {pre} is not"
+                                      f" an establishment event.")
 
             verfers = sserder.verfers
             tholder = sserder.tholder
-- 
2.43.0


From 9b6f97d74c72f428d033f194c4f88484eb1a3cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:46 +0000
Subject: [PATCH 113/167] fix: a name already taken is refused before the
 record of the new identifier is written

---
 src/keri/app/habbing.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/keri/app/habbing.py b/src/keri/app/habbing.py
index af91178..68d3e21 100644
--- a/src/keri/app/habbing.py
+++ b/src/keri/app/habbing.py
@@ -1141,12 +1141,14 @@ class BaseHab:
 
 
     def save(self, habord):
-        self.db.habs.pin(keys=self.pre,
-                         val=habord)
         ns = "" if self.ns is None else self.ns
-        if self.db.names.get(keys=(ns, self.name)) is not None:
+        pre = self.db.names.get(keys=(ns, self.name))
+        if pre is not None and self.db.habs.get(keys=(pre,)) is not None:
             raise ValueError("AID already exists with that name")
 
+        self.db.habs.pin(keys=self.pre,
+                         val=habord)
+
         self.db.names.pin(keys=(ns, self.name),
                           val=self.pre)
 
-- 
2.43.0


From d5c71f603971efff193f108cc6cb0d0dc0fe8318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:46 +0000
Subject: [PATCH 114/167] fix: reopened identifiers keep their namespace and
 next group members

---
 src/keri/app/habbing.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/keri/app/habbing.py b/src/keri/app/habbing.py
index 68d3e21..afc18fb 100644
--- a/src/keri/app/habbing.py
+++ b/src/keri/app/habbing.py
@@ -325,21 +325,23 @@ class Habery:
             if habord.mid and not habord.sid:
                 hab = GroupHab(ks=self.ks, db=self.db, cf=self.cf, mgr=self.mgr,
                                rtr=self.rtr, rvy=self.rvy, kvy=self.kvy, psr=self.psr,
-                               name=habord.name, pre=pre, temp=self.temp, smids=habord.smids)
+                               name=habord.name, ns=habord.domain, pre=pre,
+                               temp=self.temp, smids=habord.smids, rmids=habord.rmids)
                 groups.append(habord)
             elif habord.sid and not habord.mid:
                 hab = SignifyHab(ks=self.ks, db=self.db, cf=self.cf, mgr=self.mgr,
                                  rtr=self.rtr, rvy=self.rvy, kvy=self.kvy, psr=self.psr,
-                                 name=habord.name, pre=habord.sid)
+                                 name=habord.name, ns=habord.domain, pre=habord.sid)
             elif habord.sid and habord.mid:
-                hab = SignifyGroupHab(smids=habord.smids, ks=self.ks, db=self.db, cf=self.cf, mgr=self.mgr,
+                hab = SignifyGroupHab(smids=habord.smids, rmids=habord.rmids, ks=self.ks, db=self.db, cf=self.cf, mgr=self.mgr,
                                       rtr=self.rtr, rvy=self.rvy, kvy=self.kvy, psr=self.psr,
-                                      name=habord.name, pre=pre)
+                                      name=habord.name, ns=habord.domain, pre=pre)
                 groups.append(habord)
             else:
                 hab = Hab(ks=self.ks, db=self.db, cf=self.cf, mgr=self.mgr,
                           rtr=self.rtr, rvy=self.rvy, kvy=self.kvy, psr=self.psr,
-                          name=habord.name, pre=pre, temp=self.temp)
+                          name=habord.name, ns=habord.domain, pre=pre,
+                          temp=self.temp)
 
             # Rules for acceptance:
             # It is accepted into its own local KEL even if it has not been fully
-- 
2.43.0


From b009887eb39b2aa599d9de7fce7b14e8b312d677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:46 +0000
Subject: [PATCH 115/167] fix: a refused or interrupted rotation leaves no keys
 behind that the next one would take

---
 src/keri/app/habbing.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/keri/app/habbing.py b/src/keri/app/habbing.py
index afc18fb..d288a95 100644
--- a/src/keri/app/habbing.py
+++ b/src/keri/app/habbing.py
@@ -11,7 +11,7 @@ from hio.base import doing
 from hio.help import hicting, ogler
 
 from .configing import Configer
-from .keeping import Keeper, Manager
+from .keeping import Keeper, Manager, PubLot, riKey
 
 from ..peer import Exchanger,  specialExchange
 from ..db import Baser, dgKey, fetchTsgs
@@ -3053,6 +3053,7 @@ class Hab(BaseHab):
         # recall that kever.pre == self.pre
         kever = self.kever  # before rotation kever is prior next
 
+        given = ncount
         if ncount is None:
             ncount = len(kever.ndigers)  # use len of prior next digers as default
 
@@ -3063,6 +3064,19 @@ class Hab(BaseHab):
         # sync with the KEL (issue #819).
         ps_before = self.mgr.ks.sits.get(self.pre)
 
+        # When an earlier rotation was interrupted (such as by a crash) after the
+        # key store was advanced but before its event was accepted then go back to
+        # the keys of the key state.
+        keys = [verfer.qb64 for verfer in kever.verfers]
+        if ps_before.new.pubs != keys and ps_before.old.pubs == keys:
+            if given is not None and given != len(ps_before.nxt.pubs):
+                self.mgr.ks.pubs.rem(riKey(self.pre, ri=ps_before.nxt.ridx))
+            ps_before.nxt = ps_before.new
+            ps_before.new = ps_before.old
+            ps_before.old = PubLot()
+            self.mgr.ks.sits.pin(self.pre, val=ps_before)
+
+        created = False  # next keys created here instead of replayed
         try:
             verfers, digers = self.mgr.replay(pre=self.pre, erase=False)
         except IndexError:  # old next is new current
@@ -3070,6 +3084,7 @@ class Hab(BaseHab):
                                               ncount=ncount,
                                               temp=self.temp,
                                               erase=False)
+            created = True
 
         try:
             msg = super(Hab, self).rotate(verfers=verfers, digers=digers,
@@ -3083,6 +3098,8 @@ class Hab(BaseHab):
             # Rotation event validation failed. Rollback key state to
             # pre-rotation snapshot so KEL and key store stay in sync.
             self.mgr.ks.sits.pin(self.pre, val=ps_before)
+            if created:  # so not replayed by the next rotation
+                self.mgr.ks.pubs.rem(riKey(self.pre, ri=ps_before.nxt.ridx + 1))
             raise
 
         # Event validated successfully. Now safe to erase old stale
-- 
2.43.0


From 0b63af6f94b68f418d40ad9f6d4aed17d80501c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:46 +0000
Subject: [PATCH 116/167] fix: next keys are offered for replay only once the
 key state has advanced

---
 src/keri/app/keeping.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/keri/app/keeping.py b/src/keri/app/keeping.py
index 48f68c3..79cf6db 100644
--- a/src/keri/app/keeping.py
+++ b/src/keri/app/keeping.py
@@ -1244,13 +1244,14 @@ class Manager:
             self.ks.pris.put(keys=signer.verfer.qb64b, val=signer,
                              encrypter=self.encrypter)
 
-        # store public keys for lookup of private keys by public key for replay
-        self.ks.pubs.pin(riKey(pre, ri=ps.nxt.ridx), val=PubSet(pubs=ps.nxt.pubs))
-
         # only once its private keys are stored
         if not self.ks.sits.pin(pre, val=ps):
             raise ValueError("Problem updating pubsit db for pre={}.".format(pre))
 
+        # store public keys for lookup of private keys by public key for replay
+        # last so that when interrupted before the advance there is nothing to replay
+        self.ks.pubs.pin(riKey(pre, ri=ps.nxt.ridx), val=PubSet(pubs=ps.nxt.pubs))
+
         if erase:
             for pub in old.pubs:  # remove prior old prikeys not current old
                 self.ks.pris.rem(pub)
-- 
2.43.0


From eb9fc8e10a22dfffb8c62165eaaa162ae70cd996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:46 +0000
Subject: [PATCH 117/167] fix: an acceptance interrupted by a crash is
 completed, not first seen twice

---
 src/keri/core/eventing.py | 32 +++++++++++++++++++++++++++++++-
 src/keri/db/basing.py     |  2 ++
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 9aefbfe..eda9bc1 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -2055,6 +2055,7 @@ class Kever:
         self.db = db
         self.cues = cues
         local = True if local else False
+        self.fner = None  # nothing first seen yet
 
         if state:  # preload from state
             self.reload(state)
@@ -2334,6 +2335,31 @@ class Kever:
         # May want to do additional checks here
 
 
+    def resume(self):
+        """
+        Complete the acceptance of any event that is in the first seen log but,
+        interrupted such as by a crash, not yet in the stored key state.
+        """
+        pre = self.prefixer.qb64
+        while not self.db.readonly and (said := self.db.fels.get(keys=pre,
+                                            on=self.fner.num + 1)) is not None:
+            fn = self.fner.num
+            try:
+                esr = self.db.esrs.get(keys=(pre, said))
+                delsner, delsger = self.db.aess.get(keys=(pre, said)) or (None, None)
+                self.update(serder=self.db.evts.get(keys=(pre, said)),
+                            sigers=self.db.sigs.get(keys=(pre, said)),
+                            wigers=self.db.wigs.get(keys=(pre, said)),
+                            delsner=delsner, delsger=delsger, eager=True,
+                            dater=self.db.dtss.get(keys=(pre, said)),
+                            local=esr.local if esr is not None else False)
+            except Exception as ex:
+                logger.error("Kever: Unable to resume at fn=%s said=%s: %s",
+                             fn + 1, said, ex.args)
+            if self.fner.num == fn:
+                break
+
+
     def incept(self, serder, estOnly=None):
         """
         Verify incept key event message from serder
@@ -3689,7 +3715,11 @@ class Kever:
                 if len(verified) != len(escrowed):
                     if not db.pin(keys=dgkey, vals=verified):
                         db.rem(keys=dgkey)
-            fn = self.db.fels.append(keys=serder.preb, val=serder.saidb)
+            # when an earlier acceptance of the event was interrupted before its key
+            # state was stored then event is already at its place in the log
+            fn = self.fner.num + 1 if self.fner is not None else 0
+            if self.db.fels.get(keys=serder.preb, on=fn) != serder.said:
+                fn = self.db.fels.append(keys=serder.preb, val=serder.saidb)
             if firner and fn != firner.sn:  # cloned replay but replay fn not match
                 if self.cues is not None:  # cue to notice BadCloneFN
                     self.cues.push(dict(kin="noticeBadCloneFN", serder=serder,
diff --git a/src/keri/db/basing.py b/src/keri/db/basing.py
index 1d34973..e85ab4f 100644
--- a/src/keri/db/basing.py
+++ b/src/keri/db/basing.py
@@ -98,6 +98,7 @@ class statedict(dict):
             except MissingEntryError:  # no kel event for keystate
                 raise ex  # reraise KeyError
             self.__setitem__(k, kever)
+            kever.resume()  # when its last acceptance was interrupted
             return kever
 
     def __contains__(self, k):
@@ -1358,6 +1359,7 @@ class Baser(LMDBer):
                 self.prefixes.add(kever.prefixer.qb64)
                 if data.mid:  # group hab
                     self.groups.add(data.hid)
+                kever.resume()  # when its last acceptance was interrupted
 
             elif data.mid is None:  # in .habs but no corresponding key state and not a group so remove
                 removes.append(keys)  # no key state or KEL event for .hab record
-- 
2.43.0


From 8f357ffd5be9ebc29ee4ff3767e81308f6204fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:24 +0000
Subject: [PATCH 118/167] fix: an inception interrupted by a crash before its
 key state was stored is completed

---
 src/keri/core/eventing.py | 43 ++++++++++++++++++++++++++++-----------
 src/keri/db/basing.py     | 25 ++++++++++++++++-------
 2 files changed, 49 insertions(+), 19 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index eda9bc1..8a56ede 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -2341,25 +2341,44 @@ class Kever:
         interrupted such as by a crash, not yet in the stored key state.
         """
         pre = self.prefixer.qb64
-        while not self.db.readonly and (said := self.db.fels.get(keys=pre,
-                                            on=self.fner.num + 1)) is not None:
+        while not self.db.readonly and (kwa := self.firstSeen(self.db, pre,
+                                            self.fner.num + 1)) is not None:
             fn = self.fner.num
             try:
-                esr = self.db.esrs.get(keys=(pre, said))
-                delsner, delsger = self.db.aess.get(keys=(pre, said)) or (None, None)
-                self.update(serder=self.db.evts.get(keys=(pre, said)),
-                            sigers=self.db.sigs.get(keys=(pre, said)),
-                            wigers=self.db.wigs.get(keys=(pre, said)),
-                            delsner=delsner, delsger=delsger, eager=True,
-                            dater=self.db.dtss.get(keys=(pre, said)),
-                            local=esr.local if esr is not None else False)
+                self.update(**kwa)
             except Exception as ex:
-                logger.error("Kever: Unable to resume at fn=%s said=%s: %s",
-                             fn + 1, said, ex.args)
+                logger.error("Kever: Unable to resume %s at fn=%s: %s", pre,
+                             fn + 1, ex.args)
             if self.fner.num == fn:
                 break
 
 
+    @staticmethod
+    def firstSeen(db, pre, fn):
+        """
+        Returns:
+            kwa (dict | None): arguments with which the event of identifier
+                prefix pre at first seen ordinal number fn was accepted as
+                logged in db. None when there is no such event.
+
+        Parameters:
+            db (Baser): instance of database of log
+            pre (str): qb64 identifier prefix
+            fn (int): first seen ordinal number
+        """
+        if (said := db.fels.get(keys=pre, on=fn)) is None:
+            return None
+        keys = (pre, said)
+        if (serder := db.evts.get(keys=keys)) is None:
+            return None
+        esr = db.esrs.get(keys=keys)
+        delsner, delsger = db.aess.get(keys=keys) or (None, None)
+        return dict(serder=serder, sigers=db.sigs.get(keys=keys),
+                    wigers=db.wigs.get(keys=keys), delsner=delsner,
+                    delsger=delsger, dater=db.dtss.get(keys=keys), eager=True,
+                    local=esr.local if esr is not None else False)
+
+
     def incept(self, serder, estOnly=None):
         """
         Verify incept key event message from serder
diff --git a/src/keri/db/basing.py b/src/keri/db/basing.py
index e85ab4f..d85c875 100644
--- a/src/keri/db/basing.py
+++ b/src/keri/db/basing.py
@@ -90,13 +90,21 @@ class statedict(dict):
         except KeyError as ex:
             if not self.db:
                 raise ex  # reraise KeyError
+            from ..core.eventing import Kever
             if (ksr := self.db.states.get(keys=k)) is None:
-                raise ex  # reraise KeyError
-            try:
-                from ..core.eventing import Kever
-                kever = Kever(state=ksr, db=self.db)
-            except MissingEntryError:  # no kel event for keystate
-                raise ex  # reraise KeyError
+                # accepted but for its key state when interrupted
+                if (self.db.readonly or
+                        (kwa := Kever.firstSeen(self.db, k, 0)) is None):
+                    raise ex  # reraise KeyError
+                try:
+                    kever = Kever(db=self.db, **kwa)
+                except Exception:
+                    raise ex  # reraise KeyError
+            else:
+                try:
+                    kever = Kever(state=ksr, db=self.db)
+                except MissingEntryError:  # no kel event for keystate
+                    raise ex  # reraise KeyError
             self.__setitem__(k, kever)
             kever.resume()  # when its last acceptance was interrupted
             return kever
@@ -1362,7 +1370,10 @@ class Baser(LMDBer):
                 kever.resume()  # when its last acceptance was interrupted
 
             elif data.mid is None:  # in .habs but no corresponding key state and not a group so remove
-                removes.append(keys)  # no key state or KEL event for .hab record
+                self.prefixes.add(data.hid)
+                if data.hid not in self.kevers:  # nor interrupted acceptance
+                    self.prefixes.remove(data.hid)
+                    removes.append(keys)  # no key state or KEL event for .hab record
 
         for keys in removes:  # remove bare .habs records
             self.habs.rem(keys=keys)
-- 
2.43.0


From 053ffadbc936d15b18026abc612b3ad82ce682ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:24 +0000
Subject: [PATCH 119/167] fix: replacing the values at a key is one
 transaction, so a crash cannot lose them

---
 src/keri/db/dbing.py  | 81 ++++++++++++++++++++++++++++++++++++++++++-
 src/keri/db/koming.py |  3 +-
 src/keri/db/subing.py | 13 ++-----
 3 files changed, 84 insertions(+), 13 deletions(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 7747a5c..6ec605e 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -1163,8 +1163,17 @@ class LMDBer(filing.Filer):
         if not key or not vals:  # empty key or empty vals or vals None
             return result  # do not delete
 
-        self.remIoSet(db=db, key=key, sep=sep)
+        # one transaction so crash leaves either all prior or all new vals
         with self.env.begin(db=db, write=True, buffers=True) as txn:
+            cursor = txn.cursor()
+            if cursor.set_range(suffix(key, 0, sep=sep)):  # first entry if any
+                while (iokey := cursor.key()):
+                    ckey, cion = unsuffix(iokey, sep=sep)
+                    if ckey != key:
+                        break
+                    cursor.delete()  # delete moves cursor to next
+            cursor.close()
+
             vals = oset(vals)  # make set
 
             for i, val in enumerate(vals):
@@ -2388,6 +2397,76 @@ class LMDBer(filing.Filer):
     # IoDup class IoVals IoItems
     # dupsort==True and prepends and strips io val proem to each value.
     # because dupsort==True values are limited to 511 bytes including proem
+    def pinVals(self, db, key, vals):
+        """
+        Replaces all entries at key in db with entries from list of bytes vals
+        in one transaction, so that a crash leaves either all prior entries or
+        all new ones.
+        Returns True If successful Else False
+
+        Parameters:
+            db (lmdb._Database): instance of named sub db with dupsort=True
+            key (bytes):  within sub db's keyspace
+            vals (Iterable[bytes]): of values to be written"""
+        if not key:
+            return False
+
+        with self.env.begin(db=db, write=True, buffers=True) as txn:
+            result = True
+            try:
+                txn.delete(key)
+                for val in vals:
+                    result = result and txn.put(key, val, dupdata=True)
+            except lmdb.BadValsizeError as ex:
+                raise KeyError(f"Key: `{key}` is either too big (for lmdb)"
+                               " or wrong DUPFIXED size. ref) lmdb.BadValsizeError")
+            return result
+
+
+    def pinIoDupVals(self, db, key, vals):
+        """
+        Replaces all values at key in db with vals in insertion order, in one
+        transaction, so that a crash leaves either all prior values or all new
+        ones.
+        Returns True If at least one of vals is added as dup, False otherwise
+        Assumes DB opened with dupsort=True
+
+        Uses same insertion ordering proem as .putIoDupVals
+
+        Parameters:
+            db (lmdb._Database): instance of named sub db with dupsort=True
+            key (bytes): within sub db's keyspace
+            vals (Iterable[bytes]): of values to be written"""
+        result = False
+        if not key:
+            return result
+
+        with self.env.begin(db=db, write=True, buffers=True) as txn:
+            try:
+                txn.delete(key)
+                for idx, val in enumerate(vals):
+                    txn.put(key, (b'%032x.' % (idx)) + val, dupdata=True)
+                    result = True
+            except lmdb.BadValsizeError as ex:
+                raise KeyError(f"Key: `{key}` is either too big (for lmdb)"
+                               " or wrong DUPFIXED size. ref) lmdb.BadValsizeError")
+        return result
+
+
+    def pinOnIoDupVals(self, db, key, on=0, vals=b'', *, sep=b'.'):
+        """Replaces all values at key made from key + sep + on with vals in
+        insertion order, in one transaction.
+        Returns True If at least one of vals is added as dup, False otherwise
+        Assumes DB opened with dupsort=True
+
+        Parameters:
+            db: opened named sub db with dupsort=True
+            key: bytes of key within sub db's keyspace
+            on (int): ordinal number at which to replace
+            vals: list of bytes of values to be written"""
+        return self.pinIoDupVals(db, key=onKey(key, on, sep=sep), vals=vals)
+
+
     def putIoDupVals(self, db, key, vals):
         """
         Write each entry from list of bytes vals to key in db in insertion order
diff --git a/src/keri/db/koming.py b/src/keri/db/koming.py
index 3ef2a70..5df9bf9 100644
--- a/src/keri/db/koming.py
+++ b/src/keri/db/koming.py
@@ -694,9 +694,8 @@ class DupKomer(KomerBase):
         Returns:
             result (bool): True If successful, False otherwise."""
         key = self._tokey(keys)
-        self.db.delVals(db=self.sdb, key=key)  # delete all values
         vals = [self._ser(val) for val in vals]
-        return (self.db.putVals(db=self.sdb,
+        return (self.db.pinVals(db=self.sdb,
                                 key=key,
                                 vals=vals))
 
diff --git a/src/keri/db/subing.py b/src/keri/db/subing.py
index 1924ab8..5165f78 100644
--- a/src/keri/db/subing.py
+++ b/src/keri/db/subing.py
@@ -2100,10 +2100,9 @@ class DupSuber(SuberBase):
         Returns:
             result (bool): True If successful, False otherwise."""
         key = self._tokey(keys)
-        self.db.delVals(db=self.sdb, key=key)  # delete all values
         if not helping.isNonStringIterable(vals):  # not iterable
             vals = (vals, )  # make iterable
-        return (self.db.putVals(db=self.sdb,
+        return (self.db.pinVals(db=self.sdb,
                                 key=key,
                                 vals=[self._ser(val) for val in vals]))
 
@@ -2321,10 +2320,9 @@ class IoDupSuber(DupSuber):
         Returns:
             result (bool): True If successful, False otherwise."""
         key = self._tokey(keys)
-        self.db.delIoDupVals(db=self.sdb, key=key)  # delete all values
         if not helping.isNonStringIterable(vals):  # not iterable
             vals = (vals, )  # make iterable
-        return self.db.putIoDupVals(db=self.sdb,
+        return self.db.pinIoDupVals(db=self.sdb,
                                      key=key,
                                      vals=[self._ser(val) for val in vals])
 
@@ -2606,14 +2604,9 @@ class OnIoDupSuber(OnSuberBase, IoDupSuber):
         Returns:
             result (bool): True If successful, False otherwise."""
         key = self._tokey(keys)
-        self.db.delOnIoDups(db=self.sdb,
-                               key=key,
-                               on=on,
-                               sep=self.sep.encode())
-
         if not helping.isNonStringIterable(vals):  # not iterable
             vals = (vals, ) if vals else ()  # make iterable
-        return self.db.putOnIoDupVals(db=self.sdb,
+        return self.db.pinOnIoDupVals(db=self.sdb,
                                       key=key,
                                       on=on,
                                       vals=tuple(self._ser(val) for val in vals),
-- 
2.43.0


From 541b1df1454216637e7c384920206a347030beac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:40 +0000
Subject: [PATCH 120/167] fix: messagize takes nested message substreams given
 as str

---
 src/keri/core/eventing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 8a56ede..96cd4e6 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -1898,7 +1898,7 @@ def messagize(serder, *, sigers=None, tsgs=None, lsgs=None, wigers=None,
         if nests:
             for nest in nests:  # list of msg substreams
                 if hasattr(nest, 'encode'):
-                    nest.encode()
+                    nest = nest.encode()
                 if not Reb64.match(nest):  # idiot proof not at least Base64
                     raise ValueError("Substream not Base64")
 
-- 
2.43.0


From f116825079d11d04f1158f13bd6af1ef64bedf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:23 +0000
Subject: [PATCH 121/167] fix: a delegated rotation supersedes another under
 the documented rules only, comparing the right delegating events

---
 src/keri/core/eventing.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 96cd4e6..c31e708 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -3459,8 +3459,10 @@ class Kever:
         # recusively look up delegating events
 
         # set up recursive search for superseding delegations
-        # get original potentially superseded delegation
-        serfo = self.serder  # original accepted delegated event i.e. serf original
+        # get original potentially superseded delegation, i.e. the latest rotation
+        # which is not the latest event when interactions follow it
+        # original accepted delegated event i.e. serf original
+        serfo = self.db.evts.get(keys=(self.prefixer.qb64, self.lastEst.d))
         if not (bosso := self.fetchDelegatingEvent(delpre, serfo, original=True,
                                                    eager=eager)):
             self.escrowPDEvent(serder=serder, sigers=sigers, wigers=wigers,
@@ -3478,8 +3480,9 @@ class Kever:
             # Only get to here if same sn for delegated event and both
             # existing and superseding delegated events are rotations
             if (bossn.sn > bosso.sn or  # superseding delgation is later or
-                (bossn.Ilk == Ilks.drt and  # superseding  delegation is rotation and
-                 bosso.Ilk == Ilks.ixn) ): # superseded delegation is interaction
+                (bossn.sn == bosso.sn and  # at same sn and
+                 bossn.ilk in (Ilks.rot, Ilks.drt) and  # superseding  delegation is rotation and
+                 bosso.ilk == Ilks.ixn) ): # superseded delegation is interaction
                     # valid superseding delegation up chain so tail link valid
                     return (delsner, delsger)  # tail event's delegation source
 
@@ -3509,7 +3512,16 @@ class Kever:
                     logger.debug("Delegator Event Body=\n%s\n", serfn.pretty())
                     raise ValidationError(msg)
 
+            if (bossn.sn < bosso.sn or  # superseding delegation is earlier or
+                    bossn.ilk != Ilks.drt or bosso.ilk != Ilks.drt):  # root of chain
+                msg = f"Invalid delegation recovery rotation of {serfo.pre} by {serfn.pre}"
+                logger.info(msg)
+                logger.debug("Delegate Event Body=\n%s\n", serfo.pretty())
+                logger.debug("Delegator Event Body=\n%s\n", serfn.pretty())
+                raise ValidationError(msg)
+
             # tie condition same sn and drt so need to climb delegation chain
+            delpre = self.kevers[delpre].delpre  # delegator of delegator
             serfn = bossn
             if not (bossn := self.fetchDelegatingEvent(delpre, serfn,
                                                        original=False,
-- 
2.43.0


From 36d8f3cc39401c854368067b06a6e2e099e8f76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:23 +0000
Subject: [PATCH 122/167] fix: a superseding delegated rotation follows the
 establishment event before the one it supersedes

---
 src/keri/core/eventing.py | 64 +++++++++++++++++++++++++++++++--------
 1 file changed, 52 insertions(+), 12 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index c31e708..c0ebacd 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -2708,7 +2708,8 @@ class Kever:
                                       "".format(prior, self.serder.said, ked))
 
         # check derivation code of pre for non-transferable
-        if not self.ndigers:  # prior next list is empty so rotations not allowed
+        ndigers, _, _ = self.fetchPriorEst(serder)
+        if not ndigers:  # prior next list is empty so rotations not allowed
             raise ValidationError("Attempted rotation for nontransferable"
                                   " prefix = {} for evt = {}."
                                   "".format(self.prefixer.qb64, ked))
@@ -2738,6 +2739,38 @@ class Kever:
         return tholder, toader, wits, cuts, adds
 
 
+    def supersedes(self, serder):
+        """Returns True when serder would supersede the last establishment event
+        i.e. is another delegated rotation at the same sn. False otherwise
+
+        Parameters:
+            serder (SerderKERI): instance of event"""
+        return (serder.ilk == Ilks.drt and serder.sn == self.lastEst.s and
+                serder.said != self.lastEst.d)
+
+
+    def fetchPriorEst(self, serder):
+        """Returns tuple (ndigers, ntholder, wits) in force just before serder,
+        i.e. from the establishment event that serder follows. This is the
+        last one unless serder supersedes it.
+
+        Parameters:
+            serder (SerderKERI): instance of rotation event"""
+        if not self.supersedes(serder):
+            return self.ndigers, self.ntholder, self.wits
+
+        pre = self.prefixer.qb64
+        for sn in range(serder.sn - 1, -1, -1):
+            if ((said := self.db.kels.getLast(keys=pre, on=sn)) is not None and
+                    (eserder := self.db.evts.get(keys=(pre, said))) is not None and
+                    eserder.estive):
+                return (eserder.ndigers, eserder.ntholder,
+                        [wit.qb64 for wit in self.db.wits.get(keys=(pre, said))])
+
+        raise ValidationError(f"Missing establishment event prior to evt = "
+                              f"{serder.ked}.")
+
+
     def deriveBacks(self, serder):
         """Derives and return tuple of (wits, cuts, adds) for backers  given
         current set and any changes provided by serder.
@@ -2753,10 +2786,12 @@ class Kever:
         # a recovery rotation follows the last establishment event but not the
         # last event so its changes apply to the witnesses of that establishment
         if (serder.ilk not in (Ilks.rot, Ilks.drt) or
-                self.lastEst.s >= serder.sn):  # no changes
+                (self.lastEst.s >= serder.sn and
+                 not self.supersedes(serder))):  # no changes
             return self.wits, self.cuts, self.adds
 
-        witset = oset(self.wits)
+        _, _, bwits = self.fetchPriorEst(serder)
+        witset = oset(bwits)
         cuts = serder.cuts
         cutset = oset(cuts)
         if len(cutset) != len(cuts):
@@ -2778,14 +2813,14 @@ class Kever:
                                   f"for evt = {serder.ked}.")
 
         if witset & addset:  # non empty intersection
-            raise ValidationError(f"Intersecting wits = {self.wits} and  adds ="
+            raise ValidationError(f"Intersecting wits = {bwits} and  adds ="
                                   f"{adds} for evt = {serder.ked}.")
 
         wits = list((witset - cutset) | addset)
 
-        if len(wits) != (len(self.wits) - len(cuts) + len(adds)):  # redundant?
+        if len(wits) != (len(bwits) - len(cuts) + len(adds)):  # redundant?
             raise ValidationError(f"Invalid member combination among wits = "
-                                  f"{self.wits}, cuts ={cuts}, and adds = "
+                                  f"{bwits}, cuts ={cuts}, and adds = "
                                   f"{adds,} for evt = {serder.ked}.")
         return (wits, cuts, adds)
 
@@ -2914,12 +2949,14 @@ class Kever:
         # escrow if not fully signed vs prior next rotation threshold
         if serder.ilk in (Ilks.rot, Ilks.drt):  # rotation so check prior next threshold
             # prior next threshold in .ntholder and digers in .ndigers
-            ondices = self.exposeds(sigers)
-            if not self.ntholder.satisfy(indices=ondices):
+            # unless the rotation supersedes the last establishment event
+            ndigers, ntholder, _ = self.fetchPriorEst(serder)
+            ondices = self.exposeds(sigers, ndigers)
+            if not ntholder.satisfy(indices=ondices):
                 self.escrowPSEvent(serder=serder, sigers=sigers, wigers=wigers,
                                    delsner=delsner, delsger=delsger,local=local)
                 msg = (
-                    f"AID {pre[:4]}...{pre[-4:]}: Failure satisfying prior nsith = {self.ntholder.sith} "
+                    f"AID {pre[:4]}...{pre[-4:]}: Failure satisfying prior nsith = {ntholder.sith} "
                     f"with exposed sigs {[siger.qb64 for siger in sigers]} "
                     f"for new est evt={serder.said}")
                 logger.trace(msg)
@@ -3001,7 +3038,7 @@ class Kever:
 
 
 
-    def exposeds(self, sigers):
+    def exposeds(self, sigers, ndigers=None):
         """Returns list of ondices (indices) suitable for Tholder.satisfy
         from self.ndigers (prior next key digests ) as exposed by event sigers.
         Uses dual index feature of siger. Assumes that each siger.verfer is
@@ -3028,11 +3065,14 @@ class Kever:
         digests defined by the rotation event.
 
         Parameters:
-            sigers (list): of Siger instances  of indexed signature with .verfer"""
+            sigers (list): of Siger instances  of indexed signature with .verfer
+            ndigers (list|None): of Diger instances of prior next key digests.
+                None means use .ndigers"""
+        ndigers = ndigers if ndigers is not None else self.ndigers
         odxs = []
         for siger in sigers:
             try:
-                diger = self.ndigers[siger.ondex]
+                diger = ndigers[siger.ondex]
             except TypeError as ex:  # ondex may be None
                 continue
             except IndexError as ex:
-- 
2.43.0


From abf10142721ffe2460258405ec0791513075773c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:01 +0000
Subject: [PATCH 123/167] fix: a query signed by a nontransferable identifier
 waits for its answer like any other

---
 src/keri/core/eventing.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index c0ebacd..18e8a69 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -5681,9 +5681,8 @@ class Kevery:
         # src, dt, route
 
         if source is None and cigars:
-            dest = cigars[0].verfer.qb64
-        else:
-            dest = source.qb64
+            source = Prefixer(qb64=cigars[0].verfer.qb64)
+        dest = source.qb64
 
         if route == "logs":
             pre = qry["i"]
@@ -5897,7 +5896,7 @@ class Kevery:
         cigars = cigars if cigars is not None else []
         dgkey = dgKey(prefixer.qb64b, serder.saidb)
         self.db.dtss.put(keys=dgkey, val=Dater())
-        self.db.sigs.put(keys=dgkey, vals=sigers)
+        self.db.sigs.put(keys=dgkey, vals=sigers if sigers is not None else [])
         self.db.evts.put(keys=(prefixer.qb64b, serder.saidb), val=serder)
         self.db.qnfs.add(keys=(prefixer.qb64, serder.said), val=serder.saidb)
 
@@ -7183,7 +7182,7 @@ class Kevery:
 
                     #  get sigs and attach
                     sigers = self.db.sigs.get(keys=(pre, edig))
-                    if not sigers:  # otherwise its a list of sigs
+                    if not sigers and not self.db.rcts.get(keys=(pre, edig)):  # otherwise its a list of sigs
                         # no sigs so raise ValidationError which unescrows below
                         msg = f"QNF Missing escrowed evt sigs at dig = {edig}"
                         logger.trace("Kevery unescrow error: %s", msg)
@@ -7198,6 +7197,7 @@ class Kevery:
                     #  get nontrans endorsements
                     cigars = []
                     for prefixer, cigar in self.db.rcts.getIter(keys=(pre.encode("utf-8"), edig.encode("utf-8"))):
+                        cigar.verfer = Verfer(qb64=prefixer.qb64)
                         cigars.append(cigar)
 
                     source = Prefixer(qb64b=pre)
-- 
2.43.0


From e1c1c1a9e8ba261ae7603f29c82cc8b31f17cd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:01 +0000
Subject: [PATCH 124/167] fix: a key state notice from an untrusted source is
 refused with its own error

---
 src/keri/core/eventing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 18e8a69..b136ca3 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -5471,7 +5471,7 @@ class Kevery:
                     aid not in baks and \
                     aid not in wats:
                 raise UntrustedKeyStateSource("key state notice for {} from untrusted source {} "
-                                                     .format(ksr.pre, aid))
+                                                     .format(ksr.i, aid))
 
         if ksr.i in self.kevers:
             kever = self.kevers[ksr.i]
-- 
2.43.0


From 0b9222c3a6e5996829467ff8ffd9fc591bc59148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:42 +0000
Subject: [PATCH 125/167] fix: a request which gathered its signatures is not
 let through again

---
 src/keri/core/kraming.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/keri/core/kraming.py b/src/keri/core/kraming.py
index d25f4f7..529333b 100644
--- a/src/keri/core/kraming.py
+++ b/src/keri/core/kraming.py
@@ -1107,6 +1107,10 @@ class Kramer:
                 if existingSigs is None:
                     existingSigs = []
 
+                if (existingSigs and kever.tholder and kever.tholder.satisfy(
+                        indices=[sig.index for sig in existingSigs])):
+                    return None  # already let through once so drop
+
                 existingSigIndices = {sig.index for sig in existingSigs}
                 newSigs = [sig for sig in sigResult.sigers
                            if sig.index not in existingSigIndices]
@@ -1340,6 +1344,10 @@ class Kramer:
                 if existingSigs is None:
                     existingSigs = []
 
+                if (existingSigs and kever.tholder and kever.tholder.satisfy(
+                        indices=[sig.index for sig in existingSigs])):
+                    return None  # already let through once so drop
+
                 existingSigIndices = {sig.index for sig in existingSigs}
                 newSigs = [sig for sig in sigResult.sigers
                            if sig.index not in existingSigIndices]
-- 
2.43.0


From 93432ba4f649af2ced95e1ef7c8f0f6a554fce8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:42 +0000
Subject: [PATCH 126/167] fix: request signatures refer to the sender's last
 establishment event, not its last event

---
 src/keri/core/kraming.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/keri/core/kraming.py b/src/keri/core/kraming.py
index 529333b..315d1b2 100644
--- a/src/keri/core/kraming.py
+++ b/src/keri/core/kraming.py
@@ -20,7 +20,7 @@ from hio.base import doing
 from hio.help import ogler
 
 
-from .coring import Verser, Prefixer, Diger
+from .coring import Verser, Prefixer, Diger, Number
 from .indexing import Siger
 from .eventing import verifySigs
 
@@ -69,7 +69,7 @@ Fields:
 
 Key state ref and tholder are derivable from the sender's kever
 (current key state) and are not included here. Callers that need
-them should construct directly from kever.sner, kever.serder.said,
+them should construct directly from kever.lastEst.s, kever.lastEst.d,
 and kever.tholder.
 """
 
@@ -455,8 +455,8 @@ class Kramer:
                 exist (``kramit`` ensures this before calling).
         """
         tsgs = kwa.get('tsgs', [])
-        cur_sn = kever.sner.num
-        cur_said = kever.serder.said
+        cur_sn = kever.lastEst.s
+        cur_said = kever.lastEst.d
         for prefixer, number, sdiger, sigers in tsgs:
             if prefixer.qb64 != senderId:
                 continue
@@ -552,8 +552,8 @@ class Kramer:
         if not tsgs:
             return stale_tsgs
 
-        cur_sn = kever.sner.num
-        cur_said = kever.serder.said
+        cur_sn = kever.lastEst.s
+        cur_said = kever.lastEst.d
         new_tsgs = []
         for quad in tsgs:
             prefixer, number, sdiger, sigers = quad
@@ -608,8 +608,8 @@ class Kramer:
             if not kwa['lsgs']:
                 kwa.pop('lsgs', None)
 
-        curSn = kever.sner.num
-        curSaid = kever.serder.said
+        curSn = kever.lastEst.s
+        curSaid = kever.lastEst.d
         if kwa.get('tsgs'):
             newTsgs = []
             for quad in kwa['tsgs']:
@@ -694,8 +694,8 @@ class Kramer:
         for prefixer, number, sdiger, sigers in kwa.get('tsgs', []):
             if prefixer.qb64 != senderId:
                 continue
-            if (number.sn != kever.sner.num or
-                    sdiger.qb64 != kever.serder.said):
+            if (number.sn != kever.lastEst.s or
+                    sdiger.qb64 != kever.lastEst.d):
                 continue
             for siger in sigers:
                 pool.add(siger.qb64)
@@ -1093,8 +1093,8 @@ class Kramer:
 
                 # Key state change detection:
                 # Compare stored key state ref against current kever state
-                currentKeyState = (kever.sner,
-                                   Diger(qb64=kever.serder.said))
+                currentKeyState = (Number(num=kever.lastEst.s),
+                                   Diger(qb64=kever.lastEst.d))
                 storedKeyState = self.db.kramPMSK.get(key)
                 if storedKeyState:
                     storedSn, storedSaid = storedKeyState
@@ -1252,8 +1252,8 @@ class Kramer:
                         return msg
 
                     # Threshold not met, store partials for accumulation
-                    currentKeyState = (kever.sner,
-                                       Diger(qb64=kever.serder.said))
+                    currentKeyState = (Number(num=kever.lastEst.s),
+                                       Diger(qb64=kever.lastEst.d))
                     self.db.kramPMKM.put(key, msg)
                     for sig in sigResult.sigers:
                         self.db.kramPMKS.add(key, sig)
@@ -1330,8 +1330,8 @@ class Kramer:
                 # Key state change detection:
                 # Compare stored key state ref against current kever state.
                 # Partial dbs use (AID.MID) key per spec, not (AID.XID.MID).
-                currentKeyState = (kever.sner,
-                                   Diger(qb64=kever.serder.said))
+                currentKeyState = (Number(num=kever.lastEst.s),
+                                   Diger(qb64=kever.lastEst.d))
                 storedKeyState = self.db.kramPMSK.get(partialKey)
                 if storedKeyState:
                     storedSn, storedSaid = storedKeyState
@@ -1542,8 +1542,8 @@ class Kramer:
 
                     # Threshold not met, store partials for accumulation.
                     # Partial dbs use (AID.MID) key per spec, not (AID.XID.MID).
-                    currentKeyState = (kever.sner,
-                                       Diger(qb64=kever.serder.said))
+                    currentKeyState = (Number(num=kever.lastEst.s),
+                                       Diger(qb64=kever.lastEst.d))
                     self.db.kramPMKM.put(partialKey, msg)
                     for sig in sigResult.sigers:
                         self.db.kramPMKS.add(partialKey, sig)
-- 
2.43.0


From a5983f419e1b7f26d5ad933c7641e384d2e4f3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:42 +0000
Subject: [PATCH 127/167] fix: an exchange message is not forgotten while it
 could still be let through again

---
 src/keri/core/kraming.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/kraming.py b/src/keri/core/kraming.py
index 315d1b2..6835874 100644
--- a/src/keri/core/kraming.py
+++ b/src/keri/core/kraming.py
@@ -2149,11 +2149,17 @@ class Kramer:
             # Get the exchange time from the cache
             xdt_ms = int(helping.fromIso8601(cache.xdt).timestamp() * 1000)
 
-            # Get the prune lag values from the cache record
+            # Get the drift and prune lag values from the cache record
+            d = cache.d
             pxl = cache.pxl
 
+            # Keep at least as long as the message itself is timely, given
+            # drift, so a pruned message may not be replayed
+            mdt_ms = int(helping.fromIso8601(cache.mdt).timestamp() * 1000)
+            last_ms = max(xdt_ms + pxl, mdt_ms + d + cache.pml)
+
             # Apply the comparison
-            if not xdt_ms <= rdt_ms <= xdt_ms + pxl:
+            if not xdt_ms - d <= rdt_ms <= last_ms:
                 self.db.kramTMSC.rem(keys=(aid, xid, mid))
                 self.db.kramPMKM.rem(keys=(aid, mid))
                 self.db.kramPMKS.rem(keys=(aid, mid))
-- 
2.43.0


From f6c587f38608adb5086469e2a76af871c05675c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:42 +0000
Subject: [PATCH 128/167] fix: a change of windows replaces an earlier one that
 is still staged

---
 src/keri/core/kraming.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/keri/core/kraming.py b/src/keri/core/kraming.py
index 6835874..e96c703 100644
--- a/src/keri/core/kraming.py
+++ b/src/keri/core/kraming.py
@@ -1651,12 +1651,16 @@ class Kramer:
         else:
             deltaCase3 = None
 
+        # Old records in effect, whose accept windows are those before any
+        # increase that is still staged
+        oldRecords = {ctype: self.db.kramCTYP.get(ctype) for ctype in old}
+
         # Get the smallest old accept windows so that it cannot accept
         # messages earlier than any existing cache‑type
         if old:
-            min_sl = min(int(vals[1]) for vals in old.values())
-            min_ll = min(int(vals[2]) for vals in old.values())
-            min_xl = min(int(vals[3]) for vals in old.values())
+            min_sl = min(rec.sl for rec in oldRecords.values())
+            min_ll = min(rec.ll for rec in oldRecords.values())
+            min_xl = min(rec.xl for rec in oldRecords.values())
         else:
             # No old cache-types, new config is first-time initialization
             min_sl = min_ll = min_xl = 0
@@ -1705,7 +1709,7 @@ class Kramer:
 
             # Cache is already in old config, determine if case 1 or case 2
             # Old values
-            d_old, sl_old, ll_old, xl_old, psl_old, pll_old, pxl_old = map(int, old[ctype])
+            d_old, sl_old, ll_old, xl_old, psl_old, pll_old, pxl_old = astuple(oldRecords[ctype])
 
             # Case 1: pure decreases so changes can be made immediately
             if (sl_new <= sl_old and ll_new <= ll_old and xl_new <= xl_old and
@@ -1720,6 +1724,7 @@ class Kramer:
 
                 # Update the cache record inside db
                 self.db.kramCTYP.pin(ctype, rec)
+                self._pending.pop(ctype, None)  # supersedes any staged increase
                 continue
 
             # Case 2: increases = prune values changes immediately, accept window changes are staged
@@ -1770,6 +1775,7 @@ class Kramer:
         for ctype in list(old.keys()):
             if ctype not in new:
                 self.db.kramCTYP.rem(ctype)
+                self._pending.pop(ctype, None)  # nothing left to increase
 
         self._kramCTYPCf = new
 
-- 
2.43.0


From d620820a3e71b106241076e4ad9ee4d1b953685d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:42 +0000
Subject: [PATCH 129/167] fix: an acceptance window is decreased at once even
 when another is increased

---
 src/keri/core/kraming.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/keri/core/kraming.py b/src/keri/core/kraming.py
index e96c703..d357001 100644
--- a/src/keri/core/kraming.py
+++ b/src/keri/core/kraming.py
@@ -1699,7 +1699,7 @@ class Kramer:
                 }
                 rec = CacheTypeRecord(
                     d=d_new,
-                    sl=min_sl, ll=min_ll, xl=min_xl,
+                    sl=min(min_sl, sl_new), ll=min(min_ll, ll_new), xl=min(min_xl, xl_new),
                     psl=max(psl_new, sl_new),
                     pll=max(pll_new, ll_new),
                     pxl=max(pxl_new, xl_new),
@@ -1729,10 +1729,10 @@ class Kramer:
 
             # Case 2: increases = prune values changes immediately, accept window changes are staged
 
-            # Keep the old message lag values
-            sl_cur = sl_old
-            ll_cur = ll_old
-            xl_cur = xl_old
+            # Keep the old message lag values unless decreased
+            sl_cur = min(sl_old, sl_new)
+            ll_cur = min(ll_old, ll_new)
+            xl_cur = min(xl_old, xl_new)
 
             # Get the highest value for pruning to make sure it doesn't
             # go against the invariant pruning window >= accept window
-- 
2.43.0


From 1215ad7af4d6632bc9aabd9a03dcb0eac0daa33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:42 +0000
Subject: [PATCH 130/167] fix: a change to no windows at all is refused like
 any coverage hole

---
 src/keri/core/kraming.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/kraming.py b/src/keri/core/kraming.py
index d357001..1d86f8c 100644
--- a/src/keri/core/kraming.py
+++ b/src/keri/core/kraming.py
@@ -2078,10 +2078,10 @@ class Kramer:
         # Check each pattern in the old graph against the new ones
         for old_pat in set().union(*oldGraph.values()):
             covered = False
+            old_msg, old_route = old_pat
             for pats in newGraph.values():
                 for new_pat in pats:
                     new_msg, new_route = new_pat
-                    old_msg, old_route = old_pat
 
                     # Check if the new message type covers the old message type either by being ANY or the exact same message type
                     msg_ok = (new_msg == "ANY") or (new_msg == old_msg)
-- 
2.43.0


From 4862ff4a9c11326a1589194d54ec091698ee3f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:37 +0000
Subject: [PATCH 131/167] fix: a message is kept before its place in a mailbox
 topic refers to it

---
 src/keri/app/storing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/keri/app/storing.py b/src/keri/app/storing.py
index 718fa6b..92b6a7f 100644
--- a/src/keri/app/storing.py
+++ b/src/keri/app/storing.py
@@ -114,8 +114,10 @@ class Mailboxer(LMDBer):
             msg = msg.encode("utf-8")
 
         digb = Diger(ser=msg, code=MtrDex.Blake3_256).qb64b
-        on = self.tpcs.append(keys=topic, val=digb)
-        return self.msgs.pin(keys=digb, val=msg)
+        # message before its place in topic so that no place is without message
+        result = self.msgs.pin(keys=digb, val=msg)
+        self.tpcs.append(keys=topic, val=digb)
+        return result
 
 
     def cloneTopicIter(self, topic, fn=0):
-- 
2.43.0


From 36f5944705f3c9f4e2c39fd3acf7c6bd5a12af7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:37 +0000
Subject: [PATCH 132/167] fix: a mailbox gives back messages which are not text
 instead of failing

---
 src/keri/app/storing.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/keri/app/storing.py b/src/keri/app/storing.py
index 92b6a7f..73b8258 100644
--- a/src/keri/app/storing.py
+++ b/src/keri/app/storing.py
@@ -92,11 +92,23 @@ class Mailboxer(LMDBer):
                 to form key at at which to initiate retrieval"""
         msgs = []
         for keys, on, dig in self.tpcs.getAllItemIter(keys=topic, on=fn):
-            if msg := self.msgs.get(keys=dig):
-                msgs.append(msg.encode())  # want bytes not str
+            if msg := self._getMsg(dig):
+                msgs.append(msg)
         return msgs
 
 
+    def _getMsg(self, dig):
+        """
+        Returns:
+            msg (bytes | None): stored message whose digest is dig exactly as it
+                was stored whether or not it is text. None when no such message.
+
+        Parameters:
+            dig (str): qb64 digest of message"""
+        val = self.getVal(db=self.msgs.sdb, key=dig.encode())
+        return bytes(val) if val is not None else None
+
+
     def storeMsg(self, topic, msg):
         """
         Add exn event to mailbox topic and on that is 1 greater than last msg
@@ -138,8 +150,8 @@ class Mailboxer(LMDBer):
         Ordinal Numbered db.  since should not be using hidden ion has not
         hidden."""
         for keys, on, dig in self.tpcs.getAllItemIter(keys=topic, on=fn):
-            if msg := self.msgs.get(keys=dig):
-                yield (on, topic, msg.encode("utf-8"))
+            if msg := self._getMsg(dig):
+                yield (on, topic, msg)
 
 
 
-- 
2.43.0


From 6eeefed1e4f5727ce01a605f73354ed77a48967f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:37 +0000
Subject: [PATCH 133/167] fix: a value can be appended to a mailbox topic

---
 src/keri/app/storing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/app/storing.py b/src/keri/app/storing.py
index 73b8258..7cf4d1c 100644
--- a/src/keri/app/storing.py
+++ b/src/keri/app/storing.py
@@ -75,7 +75,7 @@ class Mailboxer(LMDBer):
         Parameters:
             topic (bytes):  topic identifier for message
             val (bytes): msg digest"""
-        return self.tpcs.append(key=topic, val=val)
+        return self.tpcs.append(keys=topic, val=val)
 
 
     def getTopicMsgs(self, topic, fn=0):
-- 
2.43.0


From 84af55330b828bfe6d03d0b2aae420ff05561088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:37 +0000
Subject: [PATCH 134/167] fix: a mailbox stream goes on after the last message
 given, not by how many were given

---
 src/keri/app/indirecting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/app/indirecting.py b/src/keri/app/indirecting.py
index fe4a3ef..897e5d6 100644
--- a/src/keri/app/indirecting.py
+++ b/src/keri/app/indirecting.py
@@ -1025,7 +1025,7 @@ class MailboxIterable:
                                           .encode("utf-8")))
                     data.extend(msg)
                     data.extend(b'\n\n')
-                    idx = idx + 1
+                    idx = fn + 1  # topic may have gaps
                     self.start = time.perf_counter()
 
                 self.topics[topic] = idx
-- 
2.43.0


From e4589abcf61c3296bef814ca54891b34353ab20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:37 +0000
Subject: [PATCH 135/167] fix: an endpoint whose role was cut is not among the
 ends of its controller

---
 src/keri/app/habbing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keri/app/habbing.py b/src/keri/app/habbing.py
index d288a95..acb545f 100644
--- a/src/keri/app/habbing.py
+++ b/src/keri/app/habbing.py
@@ -2097,6 +2097,8 @@ class BaseHab:
         ends = dict()
 
         for (_, erole, eid), end in self.db.ends.getTopItemIter(keys=(pre,)):
+            if not (end.enabled or end.allowed):
+                continue  # role was cut
             locs = dict()
             urls = self.fetchUrls(eid=eid, scheme="")
             for rscheme, url in urls.firsts():
-- 
2.43.0


From 2d5d7d0c3849a6fa9c35e22f37ecd28d1d23b81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:37 +0000
Subject: [PATCH 136/167] fix: what a forward carries is attached in the same
 genus version as its signatures

---
 src/keri/app/forwarding.py  | 3 +++
 src/keri/peer/exchanging.py | 9 ++++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/keri/app/forwarding.py b/src/keri/app/forwarding.py
index 1411af8..ab0b594 100644
--- a/src/keri/app/forwarding.py
+++ b/src/keri/app/forwarding.py
@@ -224,6 +224,7 @@ class Poster(doing.DoDoer):
                                    modifiers=dict(pre=recp, topic=topic),
                                    attributes={},
                                    embeds=dict(evt=evt),
+                                   gvrsn=gvrsn,
                                    **kwa)
         ims = hab.endorse(serder=fwd, last=False, framed=True, gvrsn=gvrsn)
 
@@ -262,6 +263,7 @@ class Poster(doing.DoDoer):
                                    modifiers=dict(pre=recp, topic=topic),
                                    attributes={},
                                    embeds=dict(evt=evt),
+                                   gvrsn=gvrsn,
                                    **kwa)
         ims = hab.endorse(serder=fwd, last=False, framed=True, gvrsn=gvrsn)
 
@@ -454,6 +456,7 @@ class StreamPoster:
                                    modifiers=dict(pre=self.recp, topic=topic),
                                    attributes={},
                                    embeds=dict(evt=evt),
+                                   gvrsn=gvrsn,
                                    **kwa)
         ims = hab.endorse(serder=fwd, last=False, framed=True, gvrsn=gvrsn)
         return fwd, ims + atc
diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index 03723c5..887d337 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -570,7 +570,10 @@ def specialExchange(*,
         exchange: serder of exchange message and atc is serialized path
             attachments of embeds"""
     pvrsn = pvrsn if pvrsn is not None else version
-    vs = versify(pvrsn=pvrsn, kind=kind, size=0, gvrsn=gvrsn)
+    # a version 1 body has no genus version, only its attachments do
+    pgvrsn = gvrsn if gvrsn is not None else Vrsn_1_0
+    vs = versify(pvrsn=pvrsn, kind=kind, size=0,
+                 gvrsn=gvrsn if pvrsn.major != Vrsn_1_0.major else None)
 
     #ilk = Ilks.exn
     #dt = stamp if stamp is not None else helping.nowIso8601()
@@ -598,11 +601,11 @@ def specialExchange(*,
             if len(pathed) // 4 < 4096:
                 end.extend(Counter(Codens.PathedMaterialCouples,
                                           count=(len(pathed) // 4),
-                                          version=Vrsn_1_0).qb64b)
+                                          version=pgvrsn).qb64b)
             else:
                 end.extend(Counter(Codens.BigPathedMaterialCouples,
                                           count=(len(pathed) // 4),
-                                          version=Vrsn_1_0).qb64b)
+                                          version=pgvrsn).qb64b)
             end.extend(pathed)
 
         if e:
-- 
2.43.0


From cdde8a31d91a70ff955f1518e62ab57dc8b371fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:37 +0000
Subject: [PATCH 137/167] fix: a forward in a stream is not preceded by an
 unsigned copy of itself

---
 src/keri/app/forwarding.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/keri/app/forwarding.py b/src/keri/app/forwarding.py
index ab0b594..0b1834d 100644
--- a/src/keri/app/forwarding.py
+++ b/src/keri/app/forwarding.py
@@ -459,6 +459,7 @@ class StreamPoster:
                                    gvrsn=gvrsn,
                                    **kwa)
         ims = hab.endorse(serder=fwd, last=False, framed=True, gvrsn=gvrsn)
+        del ims[:fwd.size]  # attachments only, caller puts them after fwd
         return fwd, ims + atc
 
     def forward(self, hab, ends, msg, topic):
-- 
2.43.0


From d55b3887311dbdfa0d71259a3f21fb99e021655e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:03 +0000
Subject: [PATCH 138/167] fix: locations looked up by scheme are those of that
 scheme, not of all it begins

---
 src/keri/app/habbing.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/keri/app/habbing.py b/src/keri/app/habbing.py
index acb545f..73ebdab 100644
--- a/src/keri/app/habbing.py
+++ b/src/keri/app/habbing.py
@@ -2015,7 +2015,8 @@ class BaseHab:
         Returns:
             hicting.Mict: urls keyed by scheme for the given ``eid``."""
         return hicting.Mict([(keys[1], loc.url) for keys, loc in
-                             self.db.locs.getTopItemIter(keys=(eid, scheme)) if loc.url])
+                             self.db.locs.getTopItemIter(keys=(eid, scheme))
+                             if loc.url and (not scheme or keys[1] == scheme)])
 
 
     def fetchRoleUrls(self, cid: str, *, role: str = "", scheme: str = "",
@@ -2360,7 +2361,9 @@ class BaseHab:
             bytearray: messagized location scheme records with attachments."""
         msgs = bytearray()
         keys = (eid, scheme) if scheme else (eid,)
-        for (pre, _), said in self.db.lans.getTopItemIter(keys=keys):
+        for (pre, rscheme), said in self.db.lans.getTopItemIter(keys=keys):
+            if scheme and rscheme != scheme:
+                continue  # scheme only begins with given scheme
             serder = self.db.rpys.get(keys=(said.qb64,))
             egvrsn = gvrsn if gvrsn is not None else Version
             cigars = self.db.scgs.get(keys=(said.qb64,))
-- 
2.43.0


From e86e5fb50da40dbe2e33e1c88f2b5fe069c097c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:03 +0000
Subject: [PATCH 139/167] fix: only the controller itself says which witnesses
 it has authorised when asked for its endpoints

---
 src/keri/app/habbing.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/keri/app/habbing.py b/src/keri/app/habbing.py
index 73ebdab..8fe5790 100644
--- a/src/keri/app/habbing.py
+++ b/src/keri/app/habbing.py
@@ -2455,7 +2455,6 @@ class BaseHab:
         msgs.extend(self.replay(cid, gvrsn=gvrsn))
 
         kever = self.kevers[cid]
-        witness = self.pre in kever.wits  # see if we are cid's witness
 
         if role == Roles.witness:
             # latest key state for cid
@@ -2466,7 +2465,7 @@ class BaseHab:
                     else:
                         msgs.extend(self.loadLocScheme(eid=eid, scheme=scheme,
                                                        gvrsn=gvrsn))
-                    if not witness:  # we are not witness, send auth records
+                    if cid == self.pre:  # we are controller, send auth records
                         msgs.extend(self.makeEndRole(eid=eid, role=role, **kwa))
 
         for (_, erole, eid), end in self.db.ends.getTopItemIter(keys=(cid,)):
@@ -3521,7 +3520,7 @@ class SignifyHab(BaseHab):
                     if not eids or eid in eids:
                         msgs.extend(self.loadLocScheme(eid=eid, scheme=scheme,
                                                        gvrsn=gvrsn))
-                        if not witness:  # we are not witness, send auth records
+                        if cid == self.pre:  # we are controller, send auth records
                             msgs.extend(self.makeEndRole(eid=eid, role=role, **kwa))
                 if witness:  # we are witness, set KEL as authz
                     msgs.extend(self.replay(cid, gvrsn=gvrsn))
-- 
2.43.0


From 7d896226a801638b728299f22837b6fa9ad01682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:03 +0000
Subject: [PATCH 140/167] fix: contacts can be listed and found when the name
 of a field holds the key separator

---
 src/keri/app/organizing.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/keri/app/organizing.py b/src/keri/app/organizing.py
index 460cf50..a1009a7 100644
--- a/src/keri/app/organizing.py
+++ b/src/keri/app/organizing.py
@@ -143,7 +143,8 @@ class BaseOrganizer:
         key = ""
         data = None
         contacts = []
-        for (pre, field), val in self.fielddb.getTopItemIter():
+        for (pre, *field), val in self.fielddb.getTopItemIter():
+            field = self.fielddb.sep.join(field)  # name may hold separator
             if pre != key:
                 if data is not None:
                     contacts.append(data)
@@ -170,7 +171,8 @@ class BaseOrganizer:
         """
         pres = []
         prog = re.compile(f".*{val}.*", re.I)
-        for (pre, f), v in self.fielddb.getTopItemIter():
+        for (pre, *f), v in self.fielddb.getTopItemIter():
+            f = self.fielddb.sep.join(f)  # name may hold separator
             if f == field and prog.match(v):
                 pres.append(pre)
 
@@ -192,7 +194,8 @@ class BaseOrganizer:
 
         """
         pres = []
-        for (pre, f), v in self.fielddb.getTopItemIter():
+        for (pre, *f), v in self.fielddb.getTopItemIter():
+            f = self.fielddb.sep.join(f)  # name may hold separator
             if f == field and v == val:
                 pres.append(pre)
 
@@ -212,7 +215,8 @@ class BaseOrganizer:
         prog = re.compile(f".*{val}.*", re.I) if val is not None else None
 
         vals = oset()
-        for (pre, f), v in self.fielddb.getTopItemIter():
+        for (pre, *f), v in self.fielddb.getTopItemIter():
+            f = self.fielddb.sep.join(f)  # name may hold separator
             if f == field and (prog is None or prog.match(v)):
                 vals.add(v)
 
-- 
2.43.0


From db57902318714c8b1a15daf1a6e452e3b4830242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:03 +0000
Subject: [PATCH 141/167] fix: expiring signals goes on when signals are
 pushed, replaced or consumed meanwhile

---
 src/keri/app/signaling.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/keri/app/signaling.py b/src/keri/app/signaling.py
index 9a2d088..da22755 100644
--- a/src/keri/app/signaling.py
+++ b/src/keri/app/signaling.py
@@ -146,13 +146,14 @@ class Signaler(doing.DoDoer):
         while True:  # loop checking for expired messages
             now = nowUTC()
             toRemove = []
-            for sig in self.signals:
+            for sig in list(self.signals):  # may change between turns
                 if now - fromIso8601(sig.dt) > self.SignalTimeout:  # Expire messages that are too old
                     toRemove.append(sig)
                 yield self.tock
 
             for sig in toRemove:
-                self.signals.remove(sig)
+                if sig in self.signals:  # not meanwhile consumed or replaced
+                    self.signals.remove(sig)
 
             yield self.tock
 
-- 
2.43.0


From 303e2ef74f5523ed0fa4753d38e251a40171d7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:03 +0000
Subject: [PATCH 142/167] fix: a signal without a topic can be given

---
 src/keri/app/signaling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/app/signaling.py b/src/keri/app/signaling.py
index da22755..4bbbf26 100644
--- a/src/keri/app/signaling.py
+++ b/src/keri/app/signaling.py
@@ -283,7 +283,7 @@ class SignalIterable:
                     data.extend(bytearray("id: {}\nretry: {}\nevent: {}\ndata: ".format(sig.rid, self.retry,
                                                                                         topic).encode("utf-8")))
                 else:
-                    data.extend(bytearray("id: {}\nretry: {}\ndata: ".format(sig.id, self.retry).encode(
+                    data.extend(bytearray("id: {}\nretry: {}\ndata: ".format(sig.rid, self.retry).encode(
                         "utf-8")))
 
                 data.extend(sig.raw)
-- 
2.43.0


From f52ea5e65251024c0ad27854fa0ed776e8c67cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:03 +0000
Subject: [PATCH 143/167] fix: setting or unsetting a contact's field does not
 make its identifier another field

---
 src/keri/app/organizing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keri/app/organizing.py b/src/keri/app/organizing.py
index a1009a7..9551f53 100644
--- a/src/keri/app/organizing.py
+++ b/src/keri/app/organizing.py
@@ -75,6 +75,7 @@ class BaseOrganizer:
         """
         data = self.get(pre) or dict()
         data[field] = val
+        data.pop("id", None)  # added by get, not a field of contact
         self.replace(pre, data)
         self.fielddb.pin(keys=(pre, field), val=val)
 
@@ -88,6 +89,7 @@ class BaseOrganizer:
         """
         data = self.get(pre)
         del data[field]
+        data.pop("id", None)  # added by get, not a field of contact
         self.replace(pre, data)
         self.fielddb.rem(keys=(pre, field))
 
-- 
2.43.0


From cbbd289ed438f4cdd2aab24f164cb096789b205b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:32 +0000
Subject: [PATCH 144/167] fix: cleaning a database keeps dates, sources, and
 replies with their signatures, and no unverified key states

---
 src/keri/db/basing.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/keri/db/basing.py b/src/keri/db/basing.py
index d85c875..c124d00 100644
--- a/src/keri/db/basing.py
+++ b/src/keri/db/basing.py
@@ -1561,7 +1561,7 @@ class Baser(LMDBer):
                     raise ValueError("Error while cleaning, no orig at {}."
                                      "".format(self.path))
                 from ..core.eventing import Kevery
-                kvy = Kevery(db=copy)  # promiscuous mode
+                kvy = Kevery(db=copy, cloned=True)  # promiscuous mode, keeps dates
 
                 # Revise in future to NOT parse msgs but to extract the processed
                 # objects so can pass directly to kvy.processEvent()
@@ -1574,15 +1574,23 @@ class Baser(LMDBer):
                     count = copy.fels.cntAll()
                     for msg in self.cloneAllPreIter(gvrsn=gvrsn):  # clone into copy
                         psr.parseOne(ims=msg)
-                    kvy.processEscrows()
+                kvy.processEscrows()  # only then since escrows do not keep dates
+                copy.clearEscrows()  # repeats and what did not verify
+
+                # keep who events came from, local or not, which events do not tell
+                for keys, esr in self.esrs.getTopItemIter():
+                    if copy.esrs.get(keys=keys):
+                        copy.esrs.pin(keys=keys, val=esr)
 
                 # This is the list of non-set based databases that are not created as part of event processing.
                 # for now we are just copying them from self to copy without worrying about being able to
                 # reprocess them.  We need a more secure method in the future
-                unsecured = ["hbys", "schema", "states", "rpys", "eans", "tops", "cgms", "exns", "erpy",
+                unsecured = ["hbys", "schema", "rpys", "sdts", "eans", "lans", "obvs", "wwas",
+                             "tops", "cgms", "exns", "erpy",
                              "kdts", "ksns", "knas", "oobis", "roobi", "woobi", "moobi", "mfa", "rmfa",
                              "cfld", "cons", "ccigs", "cdel", "migs",
-                             "ifld", "sids", "icigs"]
+                             "ifld", "sids", "icigs",
+                             "kramCTYP", "kramMSGC", "kramTMSC", "kramPMKM", "kramPMSK"]
 
                 for name in unsecured:
                     srcdb = getattr(self, name)
@@ -1593,7 +1601,9 @@ class Baser(LMDBer):
                 # This is the list of set based databases that are not created as part of event processing.
                 # for now we are just copying them from self to copy without worrying about being able to
                 # reprocess them.  We need a more secure method in the future
-                sets = ["esigs", "ecigs", "epath", "enst", "chas", "reps", "wkas", "meids", "maids"]
+                sets = ["tsgs", "scgs", "esigs", "ecigs", "epath", "enst", "essrs", "chas", "reps",
+                        "wkas", "meids", "maids", "kramPMKS", "kramTRQS", "kramSSCS", "kramSSTS",
+                        "kramFRCS", "kramTDCS", "kramPTDS", "kramBSQS", "kramBSSS", "kramTMQS"]
                 for name in sets:
                     srcdb = getattr(self, name)
                     cpydb = getattr(copy, name)
-- 
2.43.0


From 91dd898e95ea9ef5b252e6e0f6af9baeebfb14ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:32 +0000
Subject: [PATCH 145/167] fix: a database which holds pictures of contacts can
 be cleaned

---
 src/keri/db/basing.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/keri/db/basing.py b/src/keri/db/basing.py
index c124d00..cdd1eb9 100644
--- a/src/keri/db/basing.py
+++ b/src/keri/db/basing.py
@@ -1611,12 +1611,13 @@ class Baser(LMDBer):
                         cpydb.add(keys=keys, val=val)
 
                 # Copy imgs (blinded media for remote identifiers)
-                for keys, val in self.imgs.getTopItemIter():
-                    copy.imgs.pin(keys=keys, val=val)
+                # as bytes since media may be stored in chunks of any bytes
+                for key, val in self.getTopItemIter(self.imgs.sdb):
+                    copy.setVal(copy.imgs.sdb, bytes(key), bytes(val))
 
                 # Copy iimgs (blinded media for local identifiers)
-                for keys, val in self.iimgs.getTopItemIter():
-                    copy.iimgs.pin(keys=keys, val=val)
+                for key, val in self.getTopItemIter(self.iimgs.sdb):
+                    copy.setVal(copy.iimgs.sdb, bytes(key), bytes(val))
 
                 # clone .habs  habitat name prefix Komer subdb
                 # copy.habs = koming.Komer(db=copy, schema=HabitatRecord, subkey='habs.')  # copy
-- 
2.43.0


From 6571a55c66e1b6a04e1b2bbdbb2955ffa9b138bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:32 +0000
Subject: [PATCH 146/167] fix: cleaning a database keeps the locations of
 witnesses

---
 src/keri/db/basing.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/keri/db/basing.py b/src/keri/db/basing.py
index cdd1eb9..9c95669 100644
--- a/src/keri/db/basing.py
+++ b/src/keri/db/basing.py
@@ -1630,14 +1630,17 @@ class Baser(LMDBer):
                         if val.mid:  # a group hab
                             copy.groups.add(val.hid)
 
-                # clone .ends and .locs databases
+                # clone .ends and .locs databases, all locations since those of
+                # witnesses are not of any end
+                for keys, val in self.locs.getTopItemIter():
+                    copy.locs.put(keys=keys, val=val)
+
                 for (cid, role, eid), val in self.ends.getTopItemIter():
                     exists = False  # only copy if entries in both .ends and .locs
                     for scheme in ("https", "http", "tcp"):  # all supported schemes
                         lval = self.locs.get(keys=(eid, scheme))
                         if lval:
                             exists = True  # loc with matching cid and rol
-                            copy.locs.put(keys=(eid, scheme), val=lval)
                     if exists:  # only copy end if has at least one matching loc
                         copy.ends.put(keys=(cid, role, eid), val=val)
 
-- 
2.43.0


From 1fc4201261de14177b9734cf21f40053496c312d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:32 +0000
Subject: [PATCH 147/167] fix: a database which holds completed delegations can
 be cleaned

---
 src/keri/db/basing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/keri/db/basing.py b/src/keri/db/basing.py
index 9c95669..b3e6dd4 100644
--- a/src/keri/db/basing.py
+++ b/src/keri/db/basing.py
@@ -1588,7 +1588,7 @@ class Baser(LMDBer):
                 unsecured = ["hbys", "schema", "rpys", "sdts", "eans", "lans", "obvs", "wwas",
                              "tops", "cgms", "exns", "erpy",
                              "kdts", "ksns", "knas", "oobis", "roobi", "woobi", "moobi", "mfa", "rmfa",
-                             "cfld", "cons", "ccigs", "cdel", "migs",
+                             "cfld", "cons", "ccigs", "migs",
                              "ifld", "sids", "icigs",
                              "kramCTYP", "kramMSGC", "kramTMSC", "kramPMKM", "kramPMSK"]
 
@@ -1610,6 +1610,9 @@ class Baser(LMDBer):
                     for keys, val in srcdb.getTopItemIter():
                         cpydb.add(keys=keys, val=val)
 
+                for keys, on, val in self.cdel.getTopItemIter():
+                    copy.cdel.put(keys=keys, on=on, val=val)
+
                 # Copy imgs (blinded media for remote identifiers)
                 # as bytes since media may be stored in chunks of any bytes
                 for key, val in self.getTopItemIter(self.imgs.sdb):
-- 
2.43.0


From 933fc29490786bdb71e7110a8024106649b7ca03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:32 +0000
Subject: [PATCH 148/167] fix: a database with an own identifier whose last
 event is missing can be opened read only, so that it can be cleaned

---
 src/keri/db/basing.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/keri/db/basing.py b/src/keri/db/basing.py
index b3e6dd4..5b785eb 100644
--- a/src/keri/db/basing.py
+++ b/src/keri/db/basing.py
@@ -1375,8 +1375,9 @@ class Baser(LMDBer):
                     self.prefixes.remove(data.hid)
                     removes.append(keys)  # no key state or KEL event for .hab record
 
-        for keys in removes:  # remove bare .habs records
-            self.habs.rem(keys=keys)
+        if not self.readonly:
+            for keys in removes:  # remove bare .habs records
+                self.habs.rem(keys=keys)
 
     def migrate(self):
         """ Run all migrations required
-- 
2.43.0


From cf37bf4b2d4226e490e54fecf4da0019af18296c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:02 +0000
Subject: [PATCH 149/167] fix: a message can be forwarded through a mailbox
 with a transferable identifier

---
 src/keri/app/forwarding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/app/forwarding.py b/src/keri/app/forwarding.py
index 0b1834d..1425593 100644
--- a/src/keri/app/forwarding.py
+++ b/src/keri/app/forwarding.py
@@ -604,7 +604,7 @@ def introduce(hab, wit, gvrsn=None):
 
         # alt find in vrcsNew as preliminary to replace
         topkeys = (wit, iserder.said)
-        for keys, siger in hab.db.vrc.getTopItemIter(keys=topkeys):
+        for keys, siger in hab.db.vrcs.getTopItemIter(keys=topkeys):
             epre, edig, rpre, rsnh, rdig = keys  # expand keys tuple
             if rpre == hab.pre:
                 found = True  # yes so don't pre-send own inception
-- 
2.43.0


From a754d7652a85af175ebb1a9855dc0b953a3f28f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:02 +0000
Subject: [PATCH 150/167] fix: a group identifier not yet accepted stays its
 member's own over a restart

---
 src/keri/db/basing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/keri/db/basing.py b/src/keri/db/basing.py
index 5b785eb..af6ea4b 100644
--- a/src/keri/db/basing.py
+++ b/src/keri/db/basing.py
@@ -1375,6 +1375,10 @@ class Baser(LMDBer):
                     self.prefixes.remove(data.hid)
                     removes.append(keys)  # no key state or KEL event for .hab record
 
+            else:  # group hab whose inception is not yet accepted
+                self.prefixes.add(data.hid)
+                self.groups.add(data.hid)
+
         if not self.readonly:
             for keys in removes:  # remove bare .habs records
                 self.habs.rem(keys=keys)
-- 
2.43.0


From 81c8c07308ea9ba67a4e408dc81da9d6dbc3d665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:02 +0000
Subject: [PATCH 151/167] fix: the member who proposes a group rotation keeps
 its new members too

---
 src/keri/app/habbing.py                  | 19 ++++++++++++++-----
 src/keri/cli/commands/multisig/rotate.py |  3 ++-
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/keri/app/habbing.py b/src/keri/app/habbing.py
index 8fe5790..4ba6ef5 100644
--- a/src/keri/app/habbing.py
+++ b/src/keri/app/habbing.py
@@ -3808,8 +3808,9 @@ class GroupHab(BaseHab):
                         nested=False, gvrsn=Version, genusify=False, **kwa):
         """Perform a rotation operation and update group member lists.
 
-        When ``serder`` is ``None``, delegates entirely to
-        ``BaseHab.rotate(**kwa)`` for a locally-driven rotation.  When a
+        When ``serder`` is ``None``, delegates to
+        ``BaseHab.rotate(**kwa)`` for a locally-driven rotation, and updates
+        the member lists when ``smids`` is given.  When a
         pre-built rotation ``serder`` is provided, the local member hab signs
         it, the result is processed through the local Kevery, and the
         ``smids``/``rmids`` member lists are updated on both the instance and
@@ -3851,9 +3852,17 @@ class GroupHab(BaseHab):
                 for any reason other than a missing signature."""
 
         if serder is None:
-            return super(GroupHab, self).rotate(framed=framed, nested=nested,
-                                                gvrsn=gvrsn, genusify=genusify,
-                                                **kwa)
+            msg = super(GroupHab, self).rotate(framed=framed, nested=nested,
+                                               gvrsn=gvrsn, genusify=genusify,
+                                               **kwa)
+            if smids is not None:
+                self.smids = smids
+                self.rmids = rmids if rmids is not None else smids
+                habord = self.db.habs.get(keys=(self.pre,))
+                habord.smids = self.smids
+                habord.rmids = self.rmids
+                self.db.habs.pin(keys=(self.pre,), val=habord)
+            return msg
 
         if (habord := self.db.habs.get(keys=(self.pre,))) is None:
             raise ValidationError(f"Missing HabitatRecord for pre={self.pre}")
diff --git a/src/keri/cli/commands/multisig/rotate.py b/src/keri/cli/commands/multisig/rotate.py
index 19aea33..dc31cf2 100644
--- a/src/keri/cli/commands/multisig/rotate.py
+++ b/src/keri/cli/commands/multisig/rotate.py
@@ -211,7 +211,8 @@ class GroupMultisigRotate(doing.DoDoer):
         kwa = dict(version=self.version, gvrsn=self.version) if self.version is not None else {}
         rot = ghab.rotate(isith=self.isith, nsith=self.nsith,
                           toad=self.toad, cuts=list(self.cuts), adds=list(self.adds), data=self.data,
-                          verfers=merfers, digers=migers, framed=True, **kwa)
+                          verfers=merfers, digers=migers,
+                          smids=smids, rmids=rmids, framed=True, **kwa)
 
         rserder = SerderKERI(raw=rot)
         # Create a notification EXN message to send to the other agents
-- 
2.43.0


From 550662644deef52c66aef5861ee3ff0b7393555a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:02 +0000
Subject: [PATCH 152/167] fix: a group member whose own keys have moved on
 still sends the group's event to its witnesses

---
 src/keri/app/grouping.py    | 13 +++++++------
 src/keri/app/habbing.py     |  4 ++--
 src/keri/peer/exchanging.py |  4 ++--
 3 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/keri/app/grouping.py b/src/keri/app/grouping.py
index dcc5169..a258b51 100644
--- a/src/keri/app/grouping.py
+++ b/src/keri/app/grouping.py
@@ -152,7 +152,6 @@ class Counselor(doing.DoDoer):
                 self.hby.db.gpse.rem(keys=(pre,))
                 ghab = self.hby.habs[pre]
                 kever = ghab.kever
-                keys = [verfer.qb64 for verfer in kever.verfers]
                 sigers = self.hby.db.sigs.get(keys=(pre, sdig))
                 if not sigers:  # otherwise its a list of sigs
                     continue
@@ -160,7 +159,8 @@ class Counselor(doing.DoDoer):
                 windex = min([siger.index for siger in sigers])
 
                 # True if Elected to perform delegation and witnessing
-                witered = ghab.mhab.kever.verfers[0].qb64 == keys[windex]
+                witered = ghab.mhab.kever.fetchLatestContribTo(
+                    verfers=[kever.verfers[windex]]) is not None
 
                 if kever.delegated and kever.ilk in (Ilks.dip, Ilks.drt):
                     # We are a delegated identifier, must wait for delegator approval for dip and drt
@@ -202,8 +202,9 @@ class Counselor(doing.DoDoer):
             ghab = self.hby.habs[pre]
             kever = ghab.kevers[pre]
 
-            keys = [verfer.qb64 for verfer in kever.verfers]
-            witer = ghab.mhab.kever.verfers[0].qb64 == keys[0]  # We are elected to perform delegation and witnessing
+            # We are elected to perform delegation and witnessing
+            witer = ghab.mhab.kever.fetchLatestContribTo(
+                verfers=[kever.verfers[0]]) is not None
 
             if witer:  # We are elected witnesser, We've already done out part in Boatswain, we are done.
                 if self.swain.complete(prefixer=kever.prefixer, number=Number(num=kever.sn, code=NumDex.Huge)):
@@ -240,8 +241,8 @@ class Counselor(doing.DoDoer):
             # Load all the witness receipts we have so far
             wigers = self.hby.db.wigs.get(keys=(pre, diger.qb64))
             ghab = self.hby.habs[pre]
-            keys = [verfer.qb64 for verfer in kever.verfers]
-            witer = ghab.mhab.kever.verfers[0].qb64 == keys[0]
+            witer = ghab.mhab.kever.fetchLatestContribTo(
+                verfers=[kever.verfers[0]]) is not None
             if len(wigers) == len(kever.wits):  # We have all of them, this event is finished
                 if witer and len(kever.wits) > 0:
                     witnessed = False
diff --git a/src/keri/app/habbing.py b/src/keri/app/habbing.py
index 4ba6ef5..ff46f65 100644
--- a/src/keri/app/habbing.py
+++ b/src/keri/app/habbing.py
@@ -4037,7 +4037,6 @@ class GroupHab(BaseHab):
                 key at the lowest recorded signer index; ``False`` otherwise, including
                 when no signatures are found in the database for the current event."""
         kever = self.kever
-        keys = [verfer.qb64 for verfer in kever.verfers]
         sigers = self.db.sigs.get(keys=(self.pre, kever.serder.saidb))
         if not sigers:  # otherwise its a list of sigs
             return False
@@ -4045,4 +4044,5 @@ class GroupHab(BaseHab):
         windex = min([siger.index for siger in sigers])
 
         # True if Elected to perform delegation and witnessing
-        return self.mhab.kever.verfers[0].qb64 == keys[windex]
+        return self.mhab.kever.fetchLatestContribTo(
+            verfers=[kever.verfers[windex]]) is not None
diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index 887d337..d1dafc9 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -366,7 +366,6 @@ class Exchanger:
         if not isinstance(hab, GroupHab):
             return True
 
-        keys = [verfer.qb64 for verfer in hab.kever.verfers]
         tsgs = fetchTsgs(self.hby.db.esigs, Diger(qb64=said))
         if not tsgs:  # otherwise it contains a list of sigs
             return False
@@ -375,7 +374,8 @@ class Exchanger:
         windex = min([siger.index for siger in sigers])
 
         # True if Elected to send an EXN to its receiver
-        return hab.mhab.kever.verfers[0].qb64 == keys[windex]
+        return hab.mhab.kever.fetchLatestContribTo(
+            verfers=[hab.kever.verfers[windex]]) is not None
 
     def complete(self, said):
         """
-- 
2.43.0


From bd80aedc47d9db1784bed3f03d99a70c1dcfe5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:02 +0000
Subject: [PATCH 153/167] fix: a member can wait for several events of a group
 at once

---
 src/keri/app/grouping.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/keri/app/grouping.py b/src/keri/app/grouping.py
index a258b51..fec0fac 100644
--- a/src/keri/app/grouping.py
+++ b/src/keri/app/grouping.py
@@ -149,7 +149,7 @@ class Counselor(doing.DoDoer):
             sdig = self.hby.db.kels.getLast(keys=pre, on=number.sn)
             if sdig:
                 sdig = sdig.encode("utf-8")
-                self.hby.db.gpse.rem(keys=(pre,))
+                self.hby.db.gpse.rem(keys=(pre,), val=(number, diger))
                 ghab = self.hby.habs[pre]
                 kever = ghab.kever
                 sigers = self.hby.db.sigs.get(keys=(pre, sdig))
@@ -208,7 +208,7 @@ class Counselor(doing.DoDoer):
 
             if witer:  # We are elected witnesser, We've already done out part in Boatswain, we are done.
                 if self.swain.complete(prefixer=kever.prefixer, number=Number(num=kever.sn, code=NumDex.Huge)):
-                    self.hby.db.gdee.rem(keys=(pre,))
+                    self.hby.db.gdee.rem(keys=(pre,), val=(number, diger))
                     logger.info("AID %s...%s: Delegation approval for %s received.", pre[:4], pre[-4:], pre)
 
                     self.hby.db.cgms.put(keys=(pre, number.qb64), val=diger)
@@ -220,12 +220,11 @@ class Counselor(doing.DoDoer):
                     adiger = Diger(qb64b=serder.saidb)
                     self.hby.db.aess.pin(keys=(pre, diger.qb64b),
                                          val=(sner, adiger))  # authorizer event seal (delegator/issuer)
-                    self.hby.db.gdee.rem(keys=(pre,))
+                    self.hby.db.gdee.rem(keys=(pre,), val=(number, diger))
                     logger.info("AID %s...%s: Delegation approval for %s received.", pre[:4], pre[-4:], pre)
 
                     # Move to escrow waiting for witness receipts
                     logger.info("AID %s...%s: Waiting for witness receipts for %s", pre[:4], pre[-4:], pre)
-                    self.hby.db.gdee.rem(keys=(pre,))
                     self.hby.db.gpwe.add(keys=(pre,), val=(number, diger))
 
     def processPartialWitnessEscrow(self):
@@ -252,7 +251,7 @@ class Counselor(doing.DoDoer):
                     if not witnessed:
                         continue
                 logger.info("AID %s...%s: Witness receipts complete, %s confirmed.", pre[:4], pre[-4:], pre)
-                self.hby.db.gpwe.rem(keys=(pre,))
+                self.hby.db.gpwe.rem(keys=(pre,), val=(number, diger))
                 self.hby.db.cgms.put(keys=(pre, number.qb64), val=diger)
             elif not witer:
                 self.witDoer.gets.append(dict(pre=pre, sn=number.sn))
-- 
2.43.0


From 110a0f5ed04c5799f751c97b76785ca944181c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:03 +0000
Subject: [PATCH 154/167] fix: a group event displaced by another does not
 count as complete

---
 src/keri/app/grouping.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keri/app/grouping.py b/src/keri/app/grouping.py
index fec0fac..8804c66 100644
--- a/src/keri/app/grouping.py
+++ b/src/keri/app/grouping.py
@@ -150,6 +150,8 @@ class Counselor(doing.DoDoer):
             if sdig:
                 sdig = sdig.encode("utf-8")
                 self.hby.db.gpse.rem(keys=(pre,), val=(number, diger))
+                if sdig != diger.qb64b:  # another event was accepted instead
+                    continue
                 ghab = self.hby.habs[pre]
                 kever = ghab.kever
                 sigers = self.hby.db.sigs.get(keys=(pre, sdig))
-- 
2.43.0


From 2603b8b292f961aeb9c84b7677bb8fc15bce4486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:13 +0000
Subject: [PATCH 155/167] fix: waiting for a group's events works on what is
 accepted only

---
 src/keri/app/grouping.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/keri/app/grouping.py b/src/keri/app/grouping.py
index 8804c66..8e3054e 100644
--- a/src/keri/app/grouping.py
+++ b/src/keri/app/grouping.py
@@ -145,13 +145,12 @@ class Counselor(doing.DoDoer):
         then this escrow waits for signatures from all other participants
 
         """
+        waits = []  # of an identifier with others which are done
         for (pre,), (number, diger) in self.hby.db.gpse.getTopItemIter():  # group partially signed escrow
             sdig = self.hby.db.kels.getLast(keys=pre, on=number.sn)
             if sdig:
                 sdig = sdig.encode("utf-8")
-                self.hby.db.gpse.rem(keys=(pre,), val=(number, diger))
-                if sdig != diger.qb64b:  # another event was accepted instead
-                    continue
+                self.hby.db.gpse.rem(keys=(pre,))
                 ghab = self.hby.habs[pre]
                 kever = ghab.kever
                 sigers = self.hby.db.sigs.get(keys=(pre, sdig))
@@ -161,8 +160,7 @@ class Counselor(doing.DoDoer):
                 windex = min([siger.index for siger in sigers])
 
                 # True if Elected to perform delegation and witnessing
-                witered = ghab.mhab.kever.fetchLatestContribTo(
-                    verfers=[kever.verfers[windex]]) is not None
+                witered = ghab.mhab.kever.verfers[0].qb64 == kever.verfers[windex].qb64
 
                 if kever.delegated and kever.ilk in (Ilks.dip, Ilks.drt):
                     # We are a delegated identifier, must wait for delegator approval for dip and drt
@@ -182,7 +180,8 @@ class Counselor(doing.DoDoer):
                     logger.info("AID %s...%s: Waiting for delegation approval...", pre[:4], pre[-4:])
                     self.hby.db.gdee.add(keys=(pre,), val=(number, diger))
                 else:  # Non-delegation, move on to witnessing
-                    if witered:  # We are elected witnesser, send off event to witnesses
+                    if witered or ghab.mhab.kever.fetchLatestContribTo(
+                            verfers=[kever.verfers[windex]]) is not None:  # We are elected witnesser, send off event to witnesses
                         logger.info(
                             "AID %s...%s: We are the fully signed witnesser %s, sending to witnesses",
                             pre[:4], pre[-4:], number.sn)
@@ -192,6 +191,11 @@ class Counselor(doing.DoDoer):
                     logger.info("AID %s...%s: Waiting for fully signed witness receipts for %s",
                                 pre[:4], pre[-4:], number.sn)
                     self.hby.db.gpwe.add(keys=(pre,), val=(number, diger))
+            else:
+                waits.append((pre, number, diger))
+
+        for pre, number, diger in waits:
+            self.hby.db.gpse.add(keys=(pre,), val=(number, diger))
 
     def processDelegateEscrow(self):
         """
@@ -239,6 +243,11 @@ class Counselor(doing.DoDoer):
         for (pre,), (number, diger) in self.hby.db.gpwe.getTopItemIter():  # group partial witness escrow
             kever = self.hby.kevers[pre]
 
+            if self.hby.db.kels.getLast(keys=pre, on=number.sn) != diger.qb64:
+                # another event was accepted instead
+                self.hby.db.gpwe.rem(keys=(pre,), val=(number, diger))
+                continue
+
             # Load all the witness receipts we have so far
             wigers = self.hby.db.wigs.get(keys=(pre, diger.qb64))
             ghab = self.hby.habs[pre]
-- 
2.43.0


From 630b136577c333a288909da4e362c09281e595b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:08 +0000
Subject: [PATCH 156/167] fix: a registry event made before it is anchored
 waits for its anchor instead of being dropped

---
 src/keri/vdr/eventing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index a386b1d..40eee11 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -2027,7 +2027,7 @@ class Tevery:
                 traw = self.reger.tvts.get(keys=dgkey)
                 if traw is None:
                     # no event so raise ValidationError which unescrows below
-                    msg = f"OOO Missing escrowed event at dig = {bytes(digb).decode()}"
+                    msg = f"OOO Missing escrowed event at dig = {digb}"
                     logger.info("Tevery unescrow error: %s", msg)
                     raise ValidationError(msg)
 
@@ -2037,7 +2037,7 @@ class Tevery:
 
                 couple = self.reger.ancs.get(keys=dgkey)
                 if couple is None:
-                    msg = f"OOO Missing escrowed anchor at dig = {bytes(digb).decode()}"
+                    msg = f"OOO Missing escrowed anchor at dig = {digb}"
                     logger.info("Tevery unescrow error: %s", msg)
                     raise ValidationError(msg)
                 number, diger = couple
@@ -2084,7 +2084,7 @@ class Tevery:
                 traw = self.reger.tvts.get(keys=dgkey)
                 if traw is None:
                     # no event so raise ValidationError which unescrows below
-                    msg = f"ANC Missing escrowed event at dig = {bytes(digb).decode()}"
+                    msg = f"ANC Missing escrowed event at dig = {digb}"
                     logger.trace("Tevery unescrow error: %s", msg)
                     raise ValidationError(msg)
 
@@ -2094,7 +2094,7 @@ class Tevery:
 
                 couple = self.reger.ancs.get(keys=dgkey)
                 if couple is None:
-                    msg = f"ANC Missing escrowed anchor at dig = {bytes(digb).decode()}"
+                    msg = f"ANC Missing escrowed anchor at dig = {digb}"
                     logger.trace("Tevery unescrow error: %s", msg)
                     raise MissingAnchorError(msg)
                 number, diger = couple
-- 
2.43.0


From 65e93ccade4c8649597eb8d95811b7afd206da28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:08 +0000
Subject: [PATCH 157/167] fix: a credential is sent with attachments all of the
 environment's version

---
 src/keri/cli/commands/ipex/grant.py |  2 +-
 src/keri/vdr/credentialing.py       | 22 +++++++++++-----------
 src/keri/vdr/eventing.py            |  9 ++++++---
 3 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/keri/cli/commands/ipex/grant.py b/src/keri/cli/commands/ipex/grant.py
index 6ed48b1..be0b773 100644
--- a/src/keri/cli/commands/ipex/grant.py
+++ b/src/keri/cli/commands/ipex/grant.py
@@ -152,7 +152,7 @@ class GrantDoer(doing.DoDoer):
             print(f"Sending message {exn.said} to {recp}")
             postman = StreamPoster(hby=self.hby, hab=sender, recp=recp, topic="credential")
 
-            sources = self.rgy.reger.sources(self.hby.db, creder)
+            sources = self.rgy.reger.sources(self.hby.db, creder, gvrsn=self.hby.version)
             credentialing.sendArtifacts(self.hby, self.rgy.reger, postman, creder, recp)
             for source, atc in sources:
                 credentialing.sendArtifacts(self.hby, self.rgy.reger, postman, source, recp)
diff --git a/src/keri/vdr/credentialing.py b/src/keri/vdr/credentialing.py
index e7a066a..5a9b473 100644
--- a/src/keri/vdr/credentialing.py
+++ b/src/keri/vdr/credentialing.py
@@ -1038,7 +1038,7 @@ def sendCredential(hby, hab, reger, postman, creder, recp):
     """
     sendArtifacts(hby, reger, postman, creder, recp)
 
-    sources = reger.sources(hby.db, creder)
+    sources = reger.sources(hby.db, creder, gvrsn=hby.version)
     for source, atc in sources:
         sendArtifacts(hby, reger, postman, source, recp)
         postman.send(serder=source, attachment=atc)
@@ -1046,7 +1046,7 @@ def sendCredential(hby, hab, reger, postman, creder, recp):
     serder, prefixer, seqner, saider = reger.cloneCred(creder.said)
     msg = messagize(creder,
                     bonds=[SealEvent(i=prefixer, s=seqner, d=saider)],
-                    framed=True, gvrsn=Version)
+                    framed=True, gvrsn=hby.version)
     atc = bytes(msg[creder.size:])
     postman.send(serder=creder, attachment=atc)
 
@@ -1066,35 +1066,35 @@ def sendArtifacts(hby, reger, postman, creder, recp):
     regk = creder.regid
 
     ikever = hby.db.kevers[issr]
-    for msg in hby.db.cloneDelegation(ikever):
+    for msg in hby.db.cloneDelegation(ikever, gvrsn=hby.version):
         serder = SerderKERI(raw=msg)
         atc = msg[serder.size:]
         postman.send(serder=serder, attachment=atc)
 
-    for msg in hby.db.clonePreIter(pre=issr):
+    for msg in hby.db.clonePreIter(pre=issr, gvrsn=hby.version):
         serder = SerderKERI(raw=msg)
         atc = msg[serder.size:]
         postman.send(serder=serder, attachment=atc)
 
     if isse is not None and isse != recp:
         ikever = hby.db.kevers[isse]
-        for msg in hby.db.cloneDelegation(ikever):
+        for msg in hby.db.cloneDelegation(ikever, gvrsn=hby.version):
             serder = SerderKERI(raw=msg)
             atc = msg[serder.size:]
             postman.send(serder=serder, attachment=atc)
 
-        for msg in hby.db.clonePreIter(pre=isse):
+        for msg in hby.db.clonePreIter(pre=isse, gvrsn=hby.version):
             serder = SerderKERI(raw=msg)
             atc = msg[serder.size:]
             postman.send(serder=serder, attachment=atc)
 
     if regk is not None:
-        for msg in reger.clonePreIter(pre=regk):
+        for msg in reger.clonePreIter(pre=regk, gvrsn=hby.version):
             serder = SerderKERI(raw=msg)
             atc = msg[serder.size:]
             postman.send(serder=serder, attachment=atc)
 
-    for msg in reger.clonePreIter(pre=creder.said):
+    for msg in reger.clonePreIter(pre=creder.said, gvrsn=hby.version):
         serder = SerderKERI(raw=msg)
         atc = msg[serder.size:]
         postman.send(serder=serder, attachment=atc)
@@ -1118,17 +1118,17 @@ def sendRegistry(hby, reger, postman, creder, sender, recp):
         return
 
     ikever = hby.db.kevers[issr]
-    for msg in hby.db.cloneDelegation(ikever):
+    for msg in hby.db.cloneDelegation(ikever, gvrsn=hby.version):
         serder = SerderKERI(raw=msg)
         atc = msg[serder.size:]
         postman.send(serder=serder, attachment=atc)
 
-    for msg in hby.db.clonePreIter(pre=issr):
+    for msg in hby.db.clonePreIter(pre=issr, gvrsn=hby.version):
         serder = SerderKERI(raw=msg)
         atc = msg[serder.size:]
         postman.send(serder=serder, attachment=atc)
 
-    for msg in reger.clonePreIter(pre=regk):
+    for msg in reger.clonePreIter(pre=regk, gvrsn=hby.version):
         serder = SerderKERI(raw=msg)
         atc = msg[serder.size:]
         postman.send(serder=serder, attachment=atc)
diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 40eee11..094e642 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -2578,12 +2578,14 @@ class Reger(LMDBer):
         return coreMessagize(serder, wigers=tibs or None, bonds=seal,
                              framed=False, gvrsn=gvrsn)
 
-    def sources(self, db, creder):
+    def sources(self, db, creder, gvrsn=None):
         """ Returns raw bytes of any source ('e') credential that is in our database
 
         Parameters:
             db (LMDBer): table to search
             creder (Creder): root credential
+            gvrsn (Versionage | None): CESR genus version for attachments. None
+                means protocol version of each source
 
         Returns:
             list: credential sources as resolved from `e` in creder.crd"""
@@ -2604,11 +2606,12 @@ class Reger(LMDBer):
 
             msg = coreMessagize(screder,
                                 bonds=[SealEvent(i=prefixer, s=number, d=saider)],
-                                framed=True, gvrsn=screder.pvrsn)
+                                framed=True,
+                                gvrsn=gvrsn if gvrsn is not None else screder.pvrsn)
             atc = bytearray(msg[screder.size:])
 
             sources.append((screder, atc))
-            sources.extend(self.sources(db, screder))
+            sources.extend(self.sources(db, screder, gvrsn=gvrsn))
 
         return sources
 
-- 
2.43.0


From ca2e8d9b6ecac6a1b70daca48b2f325cb2bebe12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:08 +0000
Subject: [PATCH 158/167] fix: a registry whose name has a dot is loaded again

---
 src/keri/vdr/credentialing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/vdr/credentialing.py b/src/keri/vdr/credentialing.py
index 5a9b473..2d72aa5 100644
--- a/src/keri/vdr/credentialing.py
+++ b/src/keri/vdr/credentialing.py
@@ -82,7 +82,7 @@ class Regery:
         """
 
         for name, regord in self.reger.regs.getTopItemIter():
-            name, = name
+            name = self.reger.regs.sep.join(name)
             regk = regord.registryKey
             pre = regord.prefix
 
-- 
2.43.0


From 08ce23300bc5d03974cb223d5b5e2ca0f49e99fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:59 +0000
Subject: [PATCH 159/167] fix: a registry event is taken as anchored by the
 event which anchors it, not by the newest

---
 src/keri/vdr/credentialing.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/keri/vdr/credentialing.py b/src/keri/vdr/credentialing.py
index 2d72aa5..65cc473 100644
--- a/src/keri/vdr/credentialing.py
+++ b/src/keri/vdr/credentialing.py
@@ -584,8 +584,8 @@ class Registrar(doing.DoDoer):
         rnum = Number(num=0, code=NumDex.Huge)
 
         if not isinstance(hab, GroupHab):  # not a multisig group
-            number = Number(sn=hab.kever.sner.num)
-            diger = Diger(qb64=hab.kever.serder.said)
+            number = Number(sn=anc.sn)
+            diger = Diger(qb64=anc.said)
             registry.anchorMsg(pre=iserder.pre,
                                regd=iserder.said,
                                seqner=number,
@@ -629,8 +629,8 @@ class Registrar(doing.DoDoer):
         rnum = Number(num=iserder.ked["s"], code=NumDex.Huge)
 
         if not isinstance(hab, GroupHab):  # not a multisig group
-            number = Number(sn=hab.kever.sner.num)
-            diger = Diger(qb64=hab.kever.serder.said)
+            number = Number(sn=anc.sn)
+            diger = Diger(qb64=anc.said)
             registry.anchorMsg(pre=vcid, regd=iserder.said, seqner=number, saider=diger)
 
             print("Waiting for TEL event witness receipts")
@@ -673,8 +673,8 @@ class Registrar(doing.DoDoer):
         rnum = Number(num=rserder.ked["s"], code=NumDex.Huge)
 
         if not isinstance(hab, GroupHab):  # not a multisig group
-            number = Number(sn=hab.kever.sner.num)
-            diger = Diger(qb64=hab.kever.serder.said)
+            number = Number(sn=anc.sn)
+            diger = Diger(qb64=anc.said)
             registry.anchorMsg(pre=vcid, regd=rserder.said, seqner=number, saider=diger)
 
             print("Waiting for TEL event witness receipts")
-- 
2.43.0


From 5111f9a9599775e87dafc051dbfac32a8d980870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:55 +0000
Subject: [PATCH 160/167] fix: an OOBI followed again ends as its newest answer
 says, not as its first

---
 src/keri/app/oobiing.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/keri/app/oobiing.py b/src/keri/app/oobiing.py
index a93578a..4f55818 100644
--- a/src/keri/app/oobiing.py
+++ b/src/keri/app/oobiing.py
@@ -509,7 +509,7 @@ class Oobiery:
                     print("invalid status for oobi response: {}".format(response["status"]))
                     self.hby.db.coobi.rem(keys=(url,))
                     obr.state = Result.failed
-                    self.hby.db.roobi.put(keys=(url,), val=obr)
+                    self.hby.db.roobi.pin(keys=(url,), val=obr)
 
                 elif response["headers"]["Content-Type"] in (
                     CESR_CONTENT_TYPE,
@@ -525,7 +525,7 @@ class Oobiery:
 
                     self.hby.db.coobi.rem(keys=(url,))
                     obr.state = Result.resolved
-                    self.hby.db.roobi.put(keys=(url,), val=obr)
+                    self.hby.db.roobi.pin(keys=(url,), val=obr)
 
                 elif response["headers"]["Content-Type"] == "application/schema+json":  # Schema response to data OOBI
                     try:
@@ -541,7 +541,7 @@ class Oobiery:
 
                     obr.state = result
                     self.hby.db.coobi.rem(keys=(url,))
-                    self.hby.db.roobi.put(keys=(url,), val=obr)
+                    self.hby.db.roobi.pin(keys=(url,), val=obr)
 
                 elif response["headers"]["Content-Type"].startswith("application/json"):  # Unsigned rpy OOBI or Schema
 
@@ -555,7 +555,7 @@ class Oobiery:
 
                         obr.state = result
                         self.hby.db.coobi.rem(keys=(url,))
-                        self.hby.db.roobi.put(keys=(url,), val=obr)
+                        self.hby.db.roobi.pin(keys=(url,), val=obr)
                         continue
 
                     except (ValidationError, ValueError):
@@ -566,12 +566,12 @@ class Oobiery:
                     except ValueError:
                         obr.state = Result.failed
                         self.hby.db.coobi.rem(keys=(url,))
-                        self.hby.db.roobi.put(keys=(url,), val=obr)
+                        self.hby.db.roobi.pin(keys=(url,), val=obr)
                         continue
                     if not serder.ked['t'] == Ilks.rpy:
                         obr.state = Result.failed
                         self.hby.db.coobi.rem(keys=(url,))
-                        self.hby.db.roobi.put(keys=(url,), val=obr)
+                        self.hby.db.roobi.pin(keys=(url,), val=obr)
 
                     elif serder.ked['r'] in ('/oobi/witness', '/oobi/controller'):
                         self.processMultiOobiRpy(url, serder, obr)
@@ -579,12 +579,12 @@ class Oobiery:
                     else:
                         obr.state = Result.failed
                         self.hby.db.coobi.rem(keys=(url,))
-                        self.hby.db.roobi.put(keys=(url,), val=obr)
+                        self.hby.db.roobi.pin(keys=(url,), val=obr)
 
                 else:
                     self.hby.db.coobi.rem(keys=(url,))
                     obr.state = Result.failed
-                    self.hby.db.roobi.put(keys=(url,), val=obr)
+                    self.hby.db.roobi.pin(keys=(url,), val=obr)
                     logger.error("invalid content type for oobi response: {}"
                                  .format(response["headers"]["Content-Type"]))
 
@@ -606,7 +606,7 @@ class Oobiery:
             if complete:
                 obr.state = result
                 self.hby.db.coobi.rem(keys=(url,))
-                self.hby.db.roobi.put(keys=(url,), val=obr)
+                self.hby.db.roobi.pin(keys=(url,), val=obr)
 
     def processRetries(self):
         """ Process Client responses by parsing the messages and removing the client/doer"""
-- 
2.43.0


From 38b8ee097b16ccda7be3305a9b39779b4bd74f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:55 +0000
Subject: [PATCH 161/167] fix: a multi OOBI whose parts are all followed is
 done, and given again takes its newest parts

---
 src/keri/app/oobiing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/app/oobiing.py b/src/keri/app/oobiing.py
index 4f55818..eaa705d 100644
--- a/src/keri/app/oobiing.py
+++ b/src/keri/app/oobiing.py
@@ -605,7 +605,7 @@ class Oobiery:
 
             if complete:
                 obr.state = result
-                self.hby.db.coobi.rem(keys=(url,))
+                self.hby.db.moobi.rem(keys=(url,))
                 self.hby.db.roobi.pin(keys=(url,), val=obr)
 
     def processRetries(self):
@@ -646,7 +646,7 @@ class Oobiery:
             self.hby.db.oobis.put(keys=(murl,), val=obr)
 
         self.hby.db.coobi.rem(keys=(url,))
-        self.hby.db.moobi.put(keys=(url,), val=mobr)
+        self.hby.db.moobi.pin(keys=(url,), val=mobr)
 
 
 class Authenticator:
-- 
2.43.0


From 57d525869665d9a86ed97105823222fc192e2e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:55 +0000
Subject: [PATCH 162/167] fix: an answer to an OOBI which makes no sense fails
 that OOBI and stops no other

---
 src/keri/app/oobiing.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/keri/app/oobiing.py b/src/keri/app/oobiing.py
index eaa705d..74061fb 100644
--- a/src/keri/app/oobiing.py
+++ b/src/keri/app/oobiing.py
@@ -17,7 +17,7 @@ from .httping import Clienter,CESR_CONTENT_TYPE
 from .organizing import Organizer
 from .. import (Vrsn_2_0, Version, Roles, Schemes, Ilks, Kinds,
                 ValidationError, UnverifiedReplyError,
-                ConfigurationError)
+                ConfigurationError, KeriError)
 from ..help import nowIso8601, fromIso8601, toIso8601, nowUTC
 from ..core import (Prefixer, Router, Revery, Kevery,
                     Parser, Schemer, SerderKERI, exchange)
@@ -498,6 +498,7 @@ class Oobiery:
             if client.responses:
                 response = client.responses.popleft()
                 self.clienter.remove(client)
+                ctype = response["headers"].get("Content-Type") or ""
 
                 if response["status"] == 404:
                     print(f"{url} not found")
@@ -511,7 +512,7 @@ class Oobiery:
                     obr.state = Result.failed
                     self.hby.db.roobi.pin(keys=(url,), val=obr)
 
-                elif response["headers"]["Content-Type"] in (
+                elif ctype in (
                     CESR_CONTENT_TYPE,
                     "application/json+cesr",
                     "application/cesr+json",
@@ -527,7 +528,7 @@ class Oobiery:
                     obr.state = Result.resolved
                     self.hby.db.roobi.pin(keys=(url,), val=obr)
 
-                elif response["headers"]["Content-Type"] == "application/schema+json":  # Schema response to data OOBI
+                elif ctype == "application/schema+json":  # Schema response to data OOBI
                     try:
                         schemer = Schemer(raw=bytearray(response["body"]))
                         if schemer.said == obr.said:
@@ -536,14 +537,14 @@ class Oobiery:
                         else:
                             result = Result.failed
 
-                    except (ValidationError, ValueError):
+                    except (KeriError, ValueError):
                         result = Result.failed
 
                     obr.state = result
                     self.hby.db.coobi.rem(keys=(url,))
                     self.hby.db.roobi.pin(keys=(url,), val=obr)
 
-                elif response["headers"]["Content-Type"].startswith("application/json"):  # Unsigned rpy OOBI or Schema
+                elif ctype.startswith("application/json"):  # Unsigned rpy OOBI or Schema
 
                     try:
                         schemer = Schemer(raw=bytearray(response["body"]))
@@ -558,12 +559,12 @@ class Oobiery:
                         self.hby.db.roobi.pin(keys=(url,), val=obr)
                         continue
 
-                    except (ValidationError, ValueError):
+                    except (KeriError, ValueError):
                         pass
 
                     try:
                         serder = SerderKERI(raw=bytearray(response["body"]))
-                    except ValueError:
+                    except (KeriError, ValueError):
                         obr.state = Result.failed
                         self.hby.db.coobi.rem(keys=(url,))
                         self.hby.db.roobi.pin(keys=(url,), val=obr)
@@ -574,7 +575,10 @@ class Oobiery:
                         self.hby.db.roobi.pin(keys=(url,), val=obr)
 
                     elif serder.ked['r'] in ('/oobi/witness', '/oobi/controller'):
-                        self.processMultiOobiRpy(url, serder, obr)
+                        if self.processMultiOobiRpy(url, serder, obr) == Result.failed:
+                            obr.state = Result.failed
+                            self.hby.db.coobi.rem(keys=(url,))
+                            self.hby.db.roobi.pin(keys=(url,), val=obr)
 
                     else:
                         obr.state = Result.failed
@@ -586,7 +590,7 @@ class Oobiery:
                     obr.state = Result.failed
                     self.hby.db.roobi.pin(keys=(url,), val=obr)
                     logger.error("invalid content type for oobi response: {}"
-                                 .format(response["headers"]["Content-Type"]))
+                                 .format(ctype))
 
                 self.cues.append(dict(kin=obr.state, oobi=url))
 
@@ -631,12 +635,17 @@ class Oobiery:
 
     def processMultiOobiRpy(self, url, serder, mobr):
         data = serder.ked["a"]
-        cid = data["aid"]
+        if not isinstance(data, dict):
+            return Result.failed
+
+        cid = data.get("aid")
+        if cid is None or cid != mobr.cid:
+            return Result.failed
 
-        if cid != mobr.cid:
+        urls = data.get("urls")
+        if not isinstance(urls, list) or not all(isinstance(u, str) and u for u in urls):
             return Result.failed
 
-        urls = data["urls"]
         mobr.urls = urls
 
         for murl in urls:
-- 
2.43.0


From 0df42a4dacca939c1d61e55c93920aafdca95b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:55 +0000
Subject: [PATCH 163/167] fix: an OOBI which cannot be asked for fails instead
 of being tried forever or forgotten

---
 src/keri/app/oobiing.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/keri/app/oobiing.py b/src/keri/app/oobiing.py
index 74061fb..2a83c1a 100644
--- a/src/keri/app/oobiing.py
+++ b/src/keri/app/oobiing.py
@@ -483,8 +483,12 @@ class Oobiery:
 
                     self.request(url, obr)
 
+                else:
+                    raise ValueError("not an OOBI path")
+
             except ValueError as ex:
                 print(f"error requesting invalid OOBI URL {ex}", url)
+                self.fail(url, obr)
 
     def processClients(self):
         """ Process Client responses by parsing the messages and removing the client/doer"""
@@ -625,14 +629,26 @@ class Oobiery:
     def request(self, url, obr):
         client = self.clienter.request("GET", url=url)
         if client is None:
-            self.hby.db.oobis.rem(keys=(url,))
             print(f"error getting client for {url}, aborting OOBI")
+            self.fail(url, obr)
             return
 
         self.clients[url] = client
         self.hby.db.oobis.rem(keys=(url,))
         self.hby.db.coobi.pin(keys=(url,), val=obr)
 
+    def fail(self, url, obr):
+        """ Record OOBI that can not be requested as failed
+
+        Parameters:
+            url (str): OOBI URL
+            obr (OobiRecord): record of OOBI
+        """
+        obr.state = Result.failed
+        self.hby.db.oobis.rem(keys=(url,))
+        self.hby.db.coobi.rem(keys=(url,))
+        self.hby.db.roobi.pin(keys=(url,), val=obr)
+
     def processMultiOobiRpy(self, url, serder, mobr):
         data = serder.ked["a"]
         if not isinstance(data, dict):
-- 
2.43.0


From 042b4e136831d133e74e2d405bc6b9d305ffc815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:55 +0000
Subject: [PATCH 164/167] fix: an answer to an OOBI of one identifier cannot
 name another identifier

---
 src/keri/app/oobiing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/app/oobiing.py b/src/keri/app/oobiing.py
index 2a83c1a..555ed8c 100644
--- a/src/keri/app/oobiing.py
+++ b/src/keri/app/oobiing.py
@@ -522,7 +522,7 @@ class Oobiery:
                     "application/cesr+json",
                 ):  # CESR Stream response to OOBI (canonical + legacy variants)
                     self.parser.parse(ims=bytearray(response["body"]))
-                    if OOBI_AID_HEADER in response["headers"]:
+                    if obr.cid is None and OOBI_AID_HEADER in response["headers"]:
                         obr.cid = response["headers"][OOBI_AID_HEADER]
 
                     if obr.oobialias is not None and obr.cid:
-- 
2.43.0


From b35d8900144038f7c694abdef374b1a0937fdb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:55 +0000
Subject: [PATCH 165/167] fix: only a successful answer authenticates a well
 known OOBI

---
 src/keri/app/oobiing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/app/oobiing.py b/src/keri/app/oobiing.py
index 555ed8c..e34e230 100644
--- a/src/keri/app/oobiing.py
+++ b/src/keri/app/oobiing.py
@@ -751,7 +751,7 @@ class Authenticator:
             if client.responses:
                 response = client.responses.popleft()
 
-                if 200 >= response["status"] <= 399:
+                if 200 <= response["status"] <= 399:
                     print(wurl, "succeeded")
                     self.addAuthToAid(obr.cid, wurl)
                     state = Result.resolved
-- 
2.43.0


From 78f42f1449632e5f52031686c24d9095615364c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:55 +0000
Subject: [PATCH 166/167] fix: a schema which is not a map or whose identifier
 is not text is refused

---
 src/keri/core/scheming.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keri/core/scheming.py b/src/keri/core/scheming.py
index 54dd528..df04f7b 100644
--- a/src/keri/core/scheming.py
+++ b/src/keri/core/scheming.py
@@ -166,6 +166,9 @@ class JSONSchema:
         else:
             raise ValueError("Invalid serialization kind = {}".format(kind))
 
+        if not isinstance(sed, dict) or not isinstance(sed.get(self.id_, ""), str):
+            raise ValidationError("invalid schema, not a map with text ID field {}".format(self.id_))
+
         if self.id_ in sed:
             saider = Saider(qb64=sed[self.id_], label=self.id_)
             said = sed[self.id_]
-- 
2.43.0


From 936113acd745867499583c882db746ad42b7abad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:55 +0000
Subject: [PATCH 167/167] fix: a well known OOBI which cannot be asked for
 fails and stops no other

---
 src/keri/app/oobiing.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/keri/app/oobiing.py b/src/keri/app/oobiing.py
index e34e230..95c28af 100644
--- a/src/keri/app/oobiing.py
+++ b/src/keri/app/oobiing.py
@@ -689,9 +689,14 @@ class Authenticator:
 
     def request(self, wurl, obr):
         client = self.clienter.request("GET", wurl)
+        self.hby.db.woobi.rem(keys=(wurl,))
+        if client is None:
+            obr.state = Result.failed
+            self.hby.db.mfa.rem(keys=(wurl,))
+            self.hby.db.rmfa.pin(keys=(wurl,), val=obr)
+            return
 
         self.clients[wurl] = client
-        self.hby.db.woobi.rem(keys=(wurl,))
         self.hby.db.mfa.pin(keys=(wurl,), val=obr)
 
     def addAuthToAid(self, cid, url):
-- 
2.43.0

