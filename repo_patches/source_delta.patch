From 46874f13c1546bb9fae9bf8da1d3d317f3b41c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:28 +0000
Subject: [PATCH 01/17] fix: create_database passed the transformed key to
 save() as the file name

---
 pykeepass/pykeepass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index ec8b506..cfa5c57 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -1056,7 +1056,7 @@ def create_database(
     keepass_instance.password = password
     keepass_instance.keyfile = keyfile
 
-    keepass_instance.save(transformed_key)
+    keepass_instance.save(transformed_key=transformed_key)
     return keepass_instance
 
 def debug_setup():
-- 
2.43.0


From 71bd2c133c27487a5bd4abba13db2612fa8937a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:28 +0000
Subject: [PATCH 02/17] fix: save() used the database itself as temporary file
 when it is named *.tmp

with_suffix() replaced the suffix, so a failed save of 'x.tmp' deleted it, and
a save of 'x.kdbx' clobbered an unrelated sibling 'x.tmp'.
---
 pykeepass/pykeepass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index cfa5c57..cf443c1 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -166,7 +166,7 @@ class PyKeePass:
         else:
             # save to temporary file to prevent database clobbering
             # see issues 223, 101
-            filename_tmp = Path(filename).with_suffix('.tmp')
+            filename_tmp = Path('{}.tmp'.format(filename))
             try:
                 KDBX.build_file(
                     self.kdbx,
-- 
2.43.0


From 7c42fc9b11ef4179ef5bd057dff29c27f6d8616e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:28 +0000
Subject: [PATCH 03/17] fix: delete_binary left history attachments pointing at
 a different binary

---
 pykeepass/pykeepass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index cf443c1..90aa566 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -861,7 +861,7 @@ class PyKeePass:
             raise BinaryError('No such binary with id {}'.format(id))
 
         # remove all entry references to this attachment
-        for reference in self.find_attachments(id=id):
+        for reference in self.find_attachments(id=id, history=True):
             reference.delete()
 
         # decrement references greater than this id
-- 
2.43.0


From 3e0ac1f8460646fc2576f3ef346781e4d851c686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:28 +0000
Subject: [PATCH 04/17] fix: delete_binary accepted negative ids and corrupted
 attachment references

---
 pykeepass/pykeepass.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 90aa566..6509777 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -850,6 +850,8 @@ class PyKeePass:
             `IndexError`: raised when binary with given ID does not exist
         """
         try:
+            if id < 0:
+                raise IndexError
             if self.version >= (4, 0):
                 # remove binary element from inner header
                 self.payload.inner_header.binary.pop(id)
-- 
2.43.0


From 2b62ddc66e74ae7d640c8de0f8028df30b22be4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:28 +0000
Subject: [PATCH 05/17] fix: delete_binary left stale IDs in KDBX3 binaries

Attachment references were decremented but the ID attributes of the remaining
binaries were not, so other KDBX readers resolved them to the wrong binary.
---
 pykeepass/pykeepass.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 6509777..d17d1be 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -859,6 +859,9 @@ class PyKeePass:
                 # remove binary element from XML
                 binaries = self._xpath('/KeePassFile/Meta/Binaries', first=True)
                 binaries.remove(binaries.getchildren()[id])
+                # keep the ID attributes in step with the decremented references
+                for n, elem in enumerate(binaries.getchildren()):
+                    elem.attrib['ID'] = str(n)
         except IndexError:
             raise BinaryError('No such binary with id {}'.format(id))
 
-- 
2.43.0


From 81f6021bfc911ca7d20f919ede25613f73541d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:28 +0000
Subject: [PATCH 06/17] fix: plaintext times with a UTC offset were read as a
 different instant

Also fall back to plaintext times in KDBX4 when the text happens to be valid
base64 of another length, e.g. '2020-01-01T00:00:00Z'.
---
 pykeepass/pykeepass.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index d17d1be..d81c5ce 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -1029,10 +1029,13 @@ class PyKeePass:
                         seconds=struct.unpack('<Q', base64.b64decode(text))[0]
                     )
                 )
-            except BinasciiError:
-                return datetime.fromisoformat(text.replace('Z','+00:00')).replace(tzinfo=timezone.utc)
-        else:
-            return datetime.fromisoformat(text.replace('Z','+00:00')).replace(tzinfo=timezone.utc)
+            except (BinasciiError, struct.error):
+                pass
+
+        time = datetime.fromisoformat(text.replace('Z','+00:00'))
+        if time.tzinfo is None:
+            return time.replace(tzinfo=timezone.utc)
+        return time.astimezone(timezone.utc)
 
 def create_database(
         filename, password=None, keyfile=None, transformed_key=None
-- 
2.43.0


From 3b452ef50e4a4987d0e3ead524db3ed81532b9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:28 +0000
Subject: [PATCH 07/17] fix: a rejected value (None, control characters) erased
 the previous subelement

---
 pykeepass/baseelement.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykeepass/baseelement.py b/pykeepass/baseelement.py
index 048e5cf..b0fd10b 100644
--- a/pykeepass/baseelement.py
+++ b/pykeepass/baseelement.py
@@ -46,10 +46,11 @@ class BaseElement:
             return v.text
 
     def _set_subelement_text(self, tag, value):
+        new = getattr(E, tag)(value)
         v = self._element.find(tag)
         if v is not None:
             self._element.remove(v)
-        self._element.append(getattr(E, tag)(value))
+        self._element.append(new)
 
     @property
     def group(self):
-- 
2.43.0


From 3197fb4a0f0693a5ddbc5bdec8a13ce1a59e73aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:28 +0000
Subject: [PATCH 08/17] fix: a rejected value (None, control characters) erased
 the previous string field

---
 pykeepass/entry.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index 3ef7e4e..301fc86 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -114,13 +114,14 @@ class Entry(BaseElement):
         else:
             protected_str = str(protected)
 
-        if field is not None:
-            self._element.remove(field)
-
         if protected_str is None:
-            self._element.append(E.String(E.Key(key), E.Value(value)))
+            new_field = E.String(E.Key(key), E.Value(value))
         else:
-            self._element.append(E.String(E.Key(key), E.Value(value, Protected=protected_str)))
+            new_field = E.String(E.Key(key), E.Value(value, Protected=protected_str))
+
+        if field is not None:
+            self._element.remove(field)
+        self._element.append(new_field)
 
     def _get_string_field_keys(self, exclude_reserved=False):
         results = [x.find('Key').text for x in self._element.findall('String')]
-- 
2.43.0


From 3e481d30d4d059385fae75c96a201d55dab9e1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:28 +0000
Subject: [PATCH 09/17] fix: elements with different UUIDs compared equal when
 the hashes collided

---
 pykeepass/baseelement.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pykeepass/baseelement.py b/pykeepass/baseelement.py
index b0fd10b..edb08e4 100644
--- a/pykeepass/baseelement.py
+++ b/pykeepass/baseelement.py
@@ -169,12 +169,16 @@ class BaseElement:
     def __repr__(self):
         return self.__str__()
 
+    @property
+    def _identity(self):
+        return (self.uuid,)
+
     def __hash__(self):
-        return hash((self.uuid,))
+        return hash(self._identity)
 
     def __eq__(self, other):
         if isinstance(other, BaseElement):
-            return hash(self) == hash(other)
+            return self._identity == other._identity
         return NotImplemented
 
     def touch(self, modify=False):
-- 
2.43.0


From 85feffe889c2c13070119222119e8d9f70dd911f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:28 +0000
Subject: [PATCH 10/17] fix: history entries define their identity for
 comparison and hashing

---
 pykeepass/entry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index 301fc86..979d8a3 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -453,7 +453,8 @@ class HistoryEntry(Entry):
         pathstr = super().__str__()
         return 'HistoryEntry: {}'.format(pathstr)
 
-    def __hash__(self):
+    @property
+    def _identity(self):
         # All history items share the same UUID with themselves and their
         # parent, so consider the mtime also
-        return hash((self.uuid, self.mtime))
+        return (self.uuid, self.mtime)
-- 
2.43.0


From 37208a9a4ea4feb62cfcb42921ce5ac12c31948b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:28 +0000
Subject: [PATCH 11/17] fix: deref raised TypeError for references to a UUID or
 to an unset field

---
 pykeepass/pykeepass.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index d81c5ce..25674f3 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -912,7 +912,10 @@ class PyKeePass:
             ref_entry = self.find_entries(first=True, **{search_in: search_value})
             if ref_entry is None:
                 return None
-            value = value.replace(ref, getattr(ref_entry, wanted_field))
+            replacement = getattr(ref_entry, wanted_field)
+            if wanted_field == 'uuid':
+                replacement = replacement.hex.upper()
+            value = value.replace(ref, replacement or '')
         return self.deref(value)
 
 
-- 
2.43.0


From fc9f444c488a21f9ebc0602c5dfa4af6d0134510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:28 +0000
Subject: [PATCH 12/17] fix: delete_history(all=True) raised TypeError for an
 entry without history

---
 pykeepass/entry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index 979d8a3..35695e1 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -437,7 +437,9 @@ class Entry(BaseElement):
         """
 
         if all:
-            self._element.remove(self._element.find('History'))
+            history = self._element.find('History')
+            if history is not None:
+                self._element.remove(history)
         else:
             self._element.find('History').remove(history_entry._element)
 
-- 
2.43.0


From bfb1cfcdb9d521438e884b5a55b34e9f44d34557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:08 +0000
Subject: [PATCH 13/17] fix: find_attachments() without criteria failed on
 KDBX3 databases with binaries

---
 pykeepass/pykeepass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 25674f3..e27497f 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -757,7 +757,7 @@ class PyKeePass:
                 `False`).
         """
 
-        prefix = '//Binary' if recursive else '/Binary'
+        prefix = '//Binary[Key]' if recursive else '/Binary[Key]'
         res = self._find(prefix, attachment_xp, path=path, tree=element, **kwargs)
 
         return res
-- 
2.43.0


From 4c188c23337ffe9529eabefe23c47873a3cb1087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:11 +0000
Subject: [PATCH 14/17] fix: a rejected autotype sequence or window erased the
 previous one

---
 pykeepass/baseelement.py | 10 ++++++++++
 pykeepass/entry.py       |  4 ++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/pykeepass/baseelement.py b/pykeepass/baseelement.py
index edb08e4..2c1e41d 100644
--- a/pykeepass/baseelement.py
+++ b/pykeepass/baseelement.py
@@ -52,6 +52,16 @@ class BaseElement:
             self._element.remove(v)
         self._element.append(new)
 
+    @staticmethod
+    def _set_text(element, value):
+        # lxml clears the text before it rejects an invalid value
+        previous = element.text
+        try:
+            element.text = value
+        except (TypeError, ValueError):
+            element.text = previous
+            raise
+
     @property
     def group(self):
         return self._xpath(
diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index 35695e1..52f90db 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -306,7 +306,7 @@ class Entry(BaseElement):
 
     @autotype_sequence.setter
     def autotype_sequence(self, value):
-        self._element.find('AutoType/DefaultSequence').text = value
+        self._set_text(self._element.find('AutoType/DefaultSequence'), value)
 
     @property
     def autotype_window(self):
@@ -318,7 +318,7 @@ class Entry(BaseElement):
 
     @autotype_window.setter
     def autotype_window(self, value):
-        self._element.find('AutoType/Association/Window').text = value
+        self._set_text(self._element.find('AutoType/Association/Window'), value)
 
     @property
     def is_a_history_entry(self):
-- 
2.43.0


From 6d38bdf3396d5b92b85b12ca9e645f2204b1de79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:29 +0000
Subject: [PATCH 15/17] fix: 64-byte key files that only resemble a hexadecimal
 number could not be used

---
 pykeepass/kdbx_parsing/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykeepass/kdbx_parsing/common.py b/pykeepass/kdbx_parsing/common.py
index 00630ef..8d780f1 100644
--- a/pykeepass/kdbx_parsing/common.py
+++ b/pykeepass/kdbx_parsing/common.py
@@ -154,7 +154,7 @@ def compute_key_composite(password=None, keyfile=None):
         except (etree.XMLSyntaxError, UnicodeDecodeError, AttributeError):
             try:
                 try:
-                    int(keyfile_bytes, 16)
+                    codecs.decode(keyfile_bytes, 'hex')
                     is_hex = True
                 except ValueError:
                     is_hex = False
-- 
2.43.0


From 95afd45815e5e008825f9b75d4ce9a05cf6757c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:25 +0000
Subject: [PATCH 16/17] fix: save() left its temporary file behind when the
 final move failed

---
 pykeepass/pykeepass.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index e27497f..20c9394 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -176,10 +176,11 @@ class PyKeePass:
                     transformed_key=transformed_key,
                     decrypt=True
                 )
+                shutil.move(filename_tmp, filename)
             except Exception as e:
-                os.remove(filename_tmp)
+                if filename_tmp.exists():
+                    os.remove(filename_tmp)
                 raise e
-            shutil.move(filename_tmp, filename)
 
     @property
     def version(self):
-- 
2.43.0


From cd46b208c544818248b6768fa6a90b73f6fcd941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:51 +0000
Subject: [PATCH 17/17] fix: credential ageing of a database without the ageing
 settings

credchange_required and credchange_recommended raised TypeError when
MasterKeyChangeForce or MasterKeyChangeRec is absent: an unset period
calls for no change.
---
 pykeepass/pykeepass.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 20c9394..ad8f06b 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -984,19 +984,21 @@ class PyKeePass:
     def credchange_required(self):
         """`bool`: Check if credential change is required"""
         change_date = self.credchange_date
-        if change_date is None or self.credchange_required_days == -1:
+        days = self.credchange_required_days
+        if change_date is None or days is None or days == -1:
             return False
         now_date = datetime.now(timezone.utc)
-        return (now_date - change_date).days > self.credchange_required_days
+        return (now_date - change_date).days > days
 
     @property
     def credchange_recommended(self):
         """`bool`: Check if credential change is recommended"""
         change_date = self.credchange_date
-        if change_date is None or self.credchange_recommended_days == -1:
+        days = self.credchange_recommended_days
+        if change_date is None or days is None or days == -1:
             return False
         now_date = datetime.now(timezone.utc)
-        return (now_date - change_date).days > self.credchange_recommended_days
+        return (now_date - change_date).days > days
 
     # ---------- Datetime Functions ----------
 
-- 
2.43.0

