From 6651d530c8cb86e8f60f75ed63fa2325a5df1655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:37 +0000
Subject: [PATCH 01/60] fix: do not overwrite modified objects nor memoize
 superseded ones when an object stream is read

---
 pdfsyntax/docstruct.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index f989b16..cca6e72 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -275,12 +275,18 @@ def memoize_obj_in_cache(idx: list, fdata: Callable, key: int, cache=None, rev=-
         stream_obj = parse_obj(text, i)
         if container >= len(cache):
             cache += (container-len(cache)+1) * [None]
-        cache[container] = stream_obj
+        if cache[container] is None:
+            cache[container] = stream_obj
         _, _, _, obj_list = parse_object_stream(stream_obj, container)
         for o_num, embedded_obj, _, _, _ in obj_list:
+            if o_num >= len(idx[rev]) or not idx[rev][o_num]:
+                continue
+            if idx[rev][o_num].get('env_num') != container:
+                continue
             if o_num >= len(cache):
                 cache += (o_num-len(cache)+1) * [None]
-            cache[o_num] = embedded_obj
+            if cache[o_num] is None:
+                cache[o_num] = embedded_obj
     return cache
 
 
-- 
2.43.0


From 6f8c8eb118c7f0c80bbc50f63455d697cf8a5c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:39 +0000
Subject: [PATCH 02/60] fix: force_xref_stream does not change the trailer of
 the given doc

---
 pdfsyntax/docstruct.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index cca6e72..6133f66 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -692,6 +692,7 @@ def force_xref_stream(doc: Doc, placeholder: bool = False, filt: str = '/FlateDe
         new_doc.index[-1][0] = deepcopy(new_doc.index[-1][0])
         new_doc.index[-1][0]['xref_stream_num'] = -1
     if filt:
+        new_doc.cache[0] = new_doc.cache[0].copy()
         new_doc.cache[0]['/Filter'] = filt
     return new_doc
 
-- 
2.43.0


From 26b3b7773206b904086e62ce2160e8437b787fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:41 +0000
Subject: [PATCH 03/60] fix: group_obj_into_stream does not change the index of
 the given doc

---
 pdfsyntax/docstruct.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 6133f66..98fe0f4 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -416,6 +416,7 @@ def group_obj_into_stream(doc: Doc , env_num: int = None, o_nums: set = None):
         elif current[o]['o_gen'] != 0:
             continue
         # TODO Add another elif for encryption dict
+        current[o] = current[o].copy()
         current[o]['env_num'] = env_num
     new_doc.cache[env_num] = Stream({'/Type': '/ObjStm'}, b'', b'')
     return new_doc
-- 
2.43.0


From 9b1c8018216e19bac77a425d610ae905fe959f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:43 +0000
Subject: [PATCH 04/60] fix: commit allots a cache slot to a new xref stream
 and leaves the index of the given doc unchanged

---
 pdfsyntax/docstruct.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 98fe0f4..c101f2a 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -570,6 +570,8 @@ def commit(doc: Doc) -> Doc:
             x_num = len(current_index)
             new_index_xs = {'o_num': x_num, 'o_gen': 0, 'o_ver': 0, 'doc_ver': nb_rev-1}
             new_doc.index[-1].append(new_index_xs)
+            new_doc.cache.append(None)
+            new_doc.index[-1][0] = deepcopy(new_doc.index[-1][0])
             new_doc.index[-1][0]['xref_stream_num'] = x_num
         if new_doc.cache[0].get('/DecodeParms'):
             del new_doc.cache[0]['/DecodeParms']
-- 
2.43.0


From 71182f15ca56b12a03ed00a64ac5a3e0a5a8b3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:45 +0000
Subject: [PATCH 05/60] fix: append_to_stream_fragment does not extend the list
 of the given envelope

---
 pdfsyntax/filestruct.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index ddd4525..1dbd072 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -500,10 +500,7 @@ def append_to_stream_fragment(num, obj, envelope):
     """Concatenate object at the end of stream."""
     ser = serialize(obj) + b'\n'
     entries = envelope['entries'].copy()
-    if '/FirstLine' not in entries:
-        entries['/FirstLine'] = []
-    entries['/FirstLine'].append(num)
-    entries['/FirstLine'].append(len(envelope['stream']))
+    entries['/FirstLine'] = entries.get('/FirstLine', []) + [num, len(envelope['stream'])]
     new_ser = envelope['stream'] + ser
     #Do not encode/forge this temporary Stream yet
     envelope = Stream(entries, new_ser, None)
-- 
2.43.0


From bd8fd9363b6e95335d2c4541e84fdc4ec2d8f2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:50 +0000
Subject: [PATCH 06/60] fix: flat_page_tree does not keep inherited attributes
 from one call to the next

---
 pdfsyntax/docstruct.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index c101f2a..e19e748 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -308,9 +308,10 @@ def obj(doc: Doc, o_num, o_gen = None):
     return get_object(doc, iref)
 
 
-def flat_page_tree(doc: Doc, num=None, inherited={}, max_nb=None) -> list:
+def flat_page_tree(doc: Doc, num=None, inherited=None, max_nb=None) -> list:
     """Recursively list the pages of a node."""
     accu = []
+    inherited = dict(inherited or {})
     if num:
         node = get_object(doc, num)
     else:
-- 
2.43.0


From 6c9009c699614bfc82a5e9374b0828d42041e76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:52 +0000
Subject: [PATCH 07/60] fix: decode_stream feeds each filter with the output of
 the previous one

---
 pdfsyntax/filters.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/filters.py b/pdfsyntax/filters.py
index bcfc9e8..b14e12c 100644
--- a/pdfsyntax/filters.py
+++ b/pdfsyntax/filters.py
@@ -38,10 +38,11 @@ def decode_stream(stream, stream_def):
         parms = stream_def['/DecodeParms']
         if type(parms) == dict:
             parms = [parms]
+    res = s
     for i, f in enumerate(filters):
         if f == '/FlateDecode':
             try:
-                res = zlib.decompress(s)
+                res = zlib.decompress(res)
                 if parms[i] and '/Predictor' in parms[i]:
                     predictor = int(parms[i]['/Predictor'])
                     columns = int(parms[i]['/Columns'])
@@ -50,12 +51,12 @@ def decode_stream(stream, stream_def):
                 return b'#PDFSyntaxException: cannot decode Flate'
         elif f == '/ASCIIHexDecode':
             try:
-                res = binascii.unhexlify(s)
+                res = binascii.unhexlify(res)
             except:
                 return b'#PDFSyntaxException: cannot decode ASCIIHex'
         elif f == '/ASCII85Decode':
             try:
-                res = base64.a85decode(s, adobe=True)
+                res = base64.a85decode(res, adobe=True)
             except:
                 return b'#PDFSyntaxException: cannot decode ASCII85'
         else:
-- 
2.43.0


From 92648db30710309db9a016ef73777cbd84632091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:54 +0000
Subject: [PATCH 08/60] fix: encode_stream applies filters in the reverse order
 of decoding

---
 pdfsyntax/filters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/filters.py b/pdfsyntax/filters.py
index b14e12c..4708d09 100644
--- a/pdfsyntax/filters.py
+++ b/pdfsyntax/filters.py
@@ -65,14 +65,14 @@ def decode_stream(stream, stream_def):
 
 
 def encode_stream(stream, stream_def):
-    """Apply all specified filters in order to encode stream."""
+    """Apply all specified filters in reverse order to encode stream."""
     if '/Filter' not in stream_def:
         return stream
     filters = stream_def['/Filter']
     if type(filters) == str:
-        filters = [filters]
+        filters = filters.split()
     res = stream
-    for _, f in enumerate(filters):
+    for f in reversed(filters):
         if f == '/FlateDecode':
             try:
                 res = zlib.compress(res)
-- 
2.43.0


From 53354f85d62424db2227bf1b5dd1d5a12e3b5cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:09 +0000
Subject: [PATCH 09/60] fix: xref table entries are 20 bytes long

---
 pdfsyntax/filestruct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 1dbd072..a695e9b 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -408,10 +408,10 @@ def format_xref_table(elems: list, trailer: dict, next_free: dict) -> bytes:
     xref_table = []
     for use, num, o_gen, counter, _ in elems:
         if use == 'f':
-            ref = f'{next_free[num]:010} {(o_gen+1):05} f'.encode('ascii')
+            ref = f'{next_free[num]:010} {(o_gen+1):05} f '.encode('ascii')
             xref_table.append((ref, num))
         else:
-            ref = f'{counter:010} {o_gen:05} n'.encode('ascii')
+            ref = f'{counter:010} {o_gen:05} n '.encode('ascii')
             xref_table.append((ref, num))
     # add_xref_table_subsections
     i = len(xref_table) - 1
-- 
2.43.0


From 57ff33b2435f6f417d816c48ee284f5091fe14c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:11 +0000
Subject: [PATCH 10/60] fix: the xref stream of a revision spans its own block

---
 pdfsyntax/filestruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index a695e9b..3b6cbf1 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -584,7 +584,7 @@ def build_revision_byte_stream(
         xref_table.append(('n', xref_stream_num, 0, counter, None))
         built_xref = format_xref_stream(xref_table, cache[0], next_free, xref_stream_num)
         new_index[xref_stream_num]['abs_pos'] = counter
-        new_index[xref_stream_num]['abs_next'] = counter + len(block)
+        new_index[xref_stream_num]['abs_next'] = counter + len(built_xref)
         new_index[0]['xref_stream_pos'] = counter
         new_index[0]['abs_pos'] = counter
         new_index[0]['abs_next'] = counter + len(built_xref)
-- 
2.43.0


From ab24978a02198339fb5375d63a05885c95ed61dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:13 +0000
Subject: [PATCH 11/60] fix: squash keeps the document information and file
 identifier

---
 pdfsyntax/docstruct.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index e19e748..14cc05a 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -867,7 +867,8 @@ def squash(doc: Doc) -> Doc:
         new_index[0]['xref_stream_num'] = xref_stream_num
     new_cache = len(new_index) * [None]
     new_data = [{}]
-    new_cache[0] = {'/Root': trailer(doc)['/Root']}
+    trail = trailer(doc)
+    new_cache[0] = {k: trail[k] for k in ('/Root', '/Info', '/ID') if k in trail}
     new_cache[0] = deep_ref_retarget(new_cache[0], mapping)
     for i in range(1, len(new_index)):
         old_ref = new_index[i]['OLD_REF']
-- 
2.43.0


From 8472a5d82c0484a7388b20853c52ca8198e8f00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:15 +0000
Subject: [PATCH 12/60] fix: references keep their generation number when
 parsed

---
 pdfsyntax/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 6eede1e..1f7a617 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -179,7 +179,7 @@ def replace_ref(tokens: list) -> list:
     i = 0
     while i < size:
         if i < size - 2 and tokens[i + 2]  == 'R':
-            new_list.append(complex(0, tokens[i]))
+            new_list.append(complex(tokens[i + 1], tokens[i]))
             i += 3
         else:
             new_list.append(tokens[i])
-- 
2.43.0


From 6ade22af5c5f0eab75266f66991ce93aa210fa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:17 +0000
Subject: [PATCH 13/60] fix: an empty stream is serialized as a stream

---
 pdfsyntax/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 1f7a617..269dd80 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -480,7 +480,7 @@ def serialize(obj, depth=0) -> bytes:
             ret += b' '
         ret += b' ' * depth
         ret += b'>>'
-        if content:
+        if content is not None:
             ret += b'\nstream\n'
             #ret += b'\n'
             ret += content
-- 
2.43.0


From 1c61ca222b47127ae019971b8f428c80084e7eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:45 +0000
Subject: [PATCH 14/60] fix: floats are serialized without exponent

---
 pdfsyntax/objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 269dd80..bcd5918 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -3,6 +3,7 @@
 from typing import Any
 from collections import namedtuple
 from dataclasses import dataclass
+from decimal import Decimal
 from .filters import *
 #from .filestruct import expand_xref_index
 
@@ -448,7 +449,7 @@ def to_str(obj) -> bytes:
     elif type(obj) == int:
         return str(obj).encode('ascii')
     elif type(obj) == float:
-        return str(obj).encode('ascii')
+        return format(Decimal(str(obj)), 'f').encode('ascii')
     elif type(obj) == str:
         return obj.encode('ascii')
     elif type(obj) == complex:
-- 
2.43.0


From 9d1b597ee14cb587e1720792b66bc92b9b663b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:47 +0000
Subject: [PATCH 15/60] fix: squash and compress cope with free object numbers

---
 pdfsyntax/docstruct.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 14cc05a..0488fb7 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -389,6 +389,8 @@ def envelopes(doc: Doc):
     res = {}
     current = doc.index[-1]
     for i, x in enumerate(current):
+        if i == 0 or not x:
+            continue
         env_num = x.get('env_num')
         if env_num:
             if env_num not in res:
@@ -425,7 +427,7 @@ def group_obj_into_stream(doc: Doc , env_num: int = None, o_nums: set = None):
 
 def envelope_objects(doc: Doc):
     """List objects streams that envelope other objects."""
-    return {o.get('env_num') for o in doc.index[-1] if o.get('env_num')}
+    return {o.get('env_num') for o in doc.index[-1][1:] if o and o.get('env_num')}
 
 
 def version(doc: Doc) -> str:
@@ -833,7 +835,7 @@ def defragment_map(current_index: list, excluded={}) -> tuple:
     for i, o in enumerate(current_index):
         if i == 0: #trailer
             continue
-        if 'DELETED' in o or i in excluded:
+        if not o or 'DELETED' in o or i in excluded:
             continue
         else:
             nb += 1
-- 
2.43.0


From 428fc3ffb61ad05f676ffc67468388d3f64f9e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:49 +0000
Subject: [PATCH 16/60] fix: a reference to an undefined object is null

---
 pdfsyntax/docstruct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 0488fb7..4bb1f2a 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -224,7 +224,7 @@ def memoize_obj_in_cache(idx: list, fdata: Callable, key: int, cache=None, rev=-
     """
     if cache is None:
         cache = (key + 1) * [None]
-    if 'DELETED' in idx[rev][key]:
+    if key >= len(idx[rev]) or not idx[rev][key] or 'DELETED' in idx[rev][key]:
         return cache
     if  cache[key] != None:
         return cache
@@ -295,7 +295,7 @@ def get_object(doc: Doc, obj):
     if isinstance(obj, complex) == True:
         ref = int(obj.imag)
         res = memoize_obj_in_cache(doc.index, doc.data[-1]['fdata'], ref, doc.cache)
-        return deepcopy(res[ref])
+        return deepcopy(res[ref]) if ref < len(res) else None
     else: 
         return deepcopy(obj)
 
-- 
2.43.0


From d4402a2695d18023e748ee03bdee74addc8b11dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:51 +0000
Subject: [PATCH 17/60] fix: references held by stream dictionaries are
 retargeted, and a bare reference is detected

---
 pdfsyntax/objects.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index bcd5918..57c8866 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -509,6 +509,8 @@ def deep_ref_retarget(obj: Any, mapping: dict) -> Any:
     elif type(obj) == list:
         for k in range(len(obj)):
             obj[k] = deep_ref_retarget(obj[k], mapping)
+    elif type(obj) == Stream:
+        deep_ref_retarget(obj['entries'], mapping)
     return obj
 
 
@@ -517,7 +519,7 @@ def deep_ref_detect(obj: Any, l = None) -> set:
     if l is None:
         l = set()
     if type(obj) == complex:
-        return l.add(obj)
+        l.add(obj)
     elif type(obj) == Stream:
             deep_ref_detect(obj['entries'], l)
     elif type(obj) == dict:
-- 
2.43.0


From c934cf3636b2b9112994d96c09b34435b1dd9b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:53 +0000
Subject: [PATCH 18/60] fix: objects referenced by a stream dictionary are
 dependencies

---
 pdfsyntax/docstruct.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 4bb1f2a..24c8783 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -756,7 +756,9 @@ def concat(doc_left: Doc, doc_right: Doc, target_left: bool = True) -> Doc:
 
 def dependencies(doc: Doc, obj: Any) -> set:
     """Recursively list indirect references found inside object.""" 
-    if type(obj) == dict:
+    if type(obj) == Stream:
+        return dependencies(doc, obj['entries'])
+    elif type(obj) == dict:
         res = set()
         for k, v in obj.items():
             if k == '/Parent' or k == '/P':
-- 
2.43.0


From 7f2f85ca8c0265789e4a291bdb254fed5b9c6c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:32 +0000
Subject: [PATCH 19/60] fix: a stray closing bracket does not stall the parser

---
 pdfsyntax/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 57c8866..c48e1d2 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -75,7 +75,7 @@ def next_token(text: bytes, i=0) -> tuple:
         double = text[i:i+2]
         if search == "TBD":
             if single == b']':
-                return (h, i, None)
+                return (h, i+1, None)
             elif double == b'>>':
                 return (h, i+1, None)
             elif double == b'<<':
-- 
2.43.0


From 11edc5cb9cdbf3d0b08a757c2daf285bae2fcb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:35 +0000
Subject: [PATCH 20/60] fix: dependencies terminates when objects refer to each
 other

---
 pdfsyntax/docstruct.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 24c8783..ca912b7 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -754,25 +754,29 @@ def concat(doc_left: Doc, doc_right: Doc, target_left: bool = True) -> Doc:
     return new_doc
 
 
-def dependencies(doc: Doc, obj: Any) -> set:
+def dependencies(doc: Doc, obj: Any, seen: set = None) -> set:
     """Recursively list indirect references found inside object.""" 
+    if seen is None:
+        seen = set()
     if type(obj) == Stream:
-        return dependencies(doc, obj['entries'])
+        return dependencies(doc, obj['entries'], seen)
     elif type(obj) == dict:
         res = set()
         for k, v in obj.items():
             if k == '/Parent' or k == '/P':
                 continue
-            res = res | dependencies(doc, v)
+            res = res | dependencies(doc, v, seen)
         return res
     elif type(obj) == list:
         res = set()
         for i in obj:
-            res = res | dependencies(doc, i)
+            res = res | dependencies(doc, i, seen)
         return res
     elif type(obj) == complex:
         res = {obj}
-        res = res | dependencies(doc, get_object(doc, obj))
+        if obj not in seen:
+            seen.add(obj)
+            res = res | dependencies(doc, get_object(doc, obj), seen)
         return res
     else:   
         return set()
-- 
2.43.0


From 9040f5eeead0ef6c22545d2b23e8b6e3474ba4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:36 +0000
Subject: [PATCH 21/60] fix: listing pages terminates when a page tree node is
 its own ancestor

---
 pdfsyntax/docstruct.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index ca912b7..40c97f9 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -188,8 +188,10 @@ def pprint_data_history(doc: Doc):
     return
 
 
-def pprint_page_hierarchy(doc: Doc, iref: complex = None, n: int = 0, level: int = 0, accu: str =''):
+def pprint_page_hierarchy(doc: Doc, iref: complex = None, n: int = 0, level: int = 0, accu: str ='', ancestors=()):
     """Pretty print the tree hierarchy of pages."""
+    if iref in ancestors:
+        return accu, n
     if not iref:
         cat, cat_iref = catalog(doc)
         pages = get_object(doc, cat['/Pages'])
@@ -205,7 +207,7 @@ def pprint_page_hierarchy(doc: Doc, iref: complex = None, n: int = 0, level: int
         kids = node['/Kids']
         accu += f"{offset} /Pages node at {iref}, kids count = {len(kids)}:\n"
         for kid in kids:
-            accu, n = pprint_page_hierarchy(doc, kid, n, level, accu)
+            accu, n = pprint_page_hierarchy(doc, kid, n, level, accu, ancestors + (iref,))
     elif node['/Type'] == '/Page':
         accu += f"{offset} /Page [{n}] at {iref} with content(s) at {node.get('/Contents')}\n"
         n += 1
@@ -308,9 +310,11 @@ def obj(doc: Doc, o_num, o_gen = None):
     return get_object(doc, iref)
 
 
-def flat_page_tree(doc: Doc, num=None, inherited=None, max_nb=None) -> list:
+def flat_page_tree(doc: Doc, num=None, inherited=None, max_nb=None, ancestors=()) -> list:
     """Recursively list the pages of a node."""
     accu = []
+    if num in ancestors:
+        return accu
     inherited = dict(inherited or {})
     if num:
         node = get_object(doc, num)
@@ -320,7 +324,7 @@ def flat_page_tree(doc: Doc, num=None, inherited=None, max_nb=None) -> list:
         for kid in node['/Kids']:
             e = {k: node.get(k) for k in INHERITABLE_ATTRS if node.get(k) is not None}
             inherited.update(e)
-            accu = accu + flat_page_tree(doc, kid, inherited.copy(), max_nb)
+            accu = accu + flat_page_tree(doc, kid, inherited.copy(), max_nb, ancestors + (num,))
             if max_nb is not None and len(accu) == max_nb:
                 return accu
         return accu
-- 
2.43.0


From fcf11070fc056cb3d6d95e42d86f6219ba6b3496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:38 +0000
Subject: [PATCH 22/60] fix: reading the chain of xref sections terminates when
 it loops

---
 pdfsyntax/filestruct.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 3b6cbf1..8daa498 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -254,6 +254,7 @@ def build_xref_sequence(fdata: Callable) -> tuple:
     prev_eof = None
     chrono = []
     seq = []
+    visited = set()
     while start or prev or xrefstm:
         a0 = 0
         o0 = 0
@@ -277,6 +278,9 @@ def build_xref_sequence(fdata: Callable) -> tuple:
             eof_pos = o0 + bdata.find(EOF, xref_pos)
             last = eof_pos
             prev = False
+        if xref_pos in visited:
+            continue
+        visited.add(xref_pos)
         bdata, a0, o0, _ = fdata(xref_pos, last - xref_pos)
         if bdata[a0:a0+4] == XREF:
             xref_index = parse_xref_table(bdata, a0, o0)
-- 
2.43.0


From 8a2a5bd5a243a39091012b4e89116a95df57476b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:26 +0000
Subject: [PATCH 23/60] fix: text taken from the file is escaped in the HTML
 view

---
 pdfsyntax/display.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/pdfsyntax/display.py b/pdfsyntax/display.py
index 12542eb..5230072 100644
--- a/pdfsyntax/display.py
+++ b/pdfsyntax/display.py
@@ -290,7 +290,7 @@ def build_nav_objects(articles) -> str:
                 c = c['entries']
             t = c.get("/Type", "")
         ret += '<li>'
-        ret += f'<a class="nav-idx" href="#idx{pos}">{q}</a> {t}'
+        ret += f'<a class="nav-idx" href="#idx{pos}">{html.escape(str(q))}</a> {html.escape(str(t))}'
         ret += '</li>\n'
     ret += '</ul>\n'
     ret += '</pre>\n'
@@ -330,7 +330,7 @@ def build_nav_info(structure, file_size) -> str:
     attrs.append(f'{"Linearized: ":{INFO_MAX_WIDTH}}{bool2yesno(structure["Linearized"])}')
     attrs.append(f'{"File size: ":{INFO_MAX_WIDTH}}{file_size} bytes')
     for x in attrs:
-        ret += f' <li class="">{x}</li>'
+        ret += f' <li class="">{html.escape(x)}</li>'
     ret += '</ul>\n'
     ret += '</pre>\n'
     ret += '</details>\n'
@@ -359,7 +359,7 @@ def build_header(filename: str) -> str:
     ret = ''
     ret += f'<div class="header b3">\n'
     ret += f'<pre>\n'
-    ret += f'{os.path.basename(filename)} - '
+    ret += f'{html.escape(os.path.basename(filename))} - '
     ret += f'internal view generated by '
     ret += f'<a href="https://pdfsyntax.dev">PDFSyntax</a>\n'
     ret += f'</pre>\n'
@@ -390,7 +390,7 @@ def add_comment(article: dict) -> str:
     """ """
     pos, _, _, comment = article
     try:
-        detail = comment[:10].decode('ascii')
+        detail = html.escape(comment[:10].decode('ascii'))
     except:
         detail = '&lt;' + comment.hex() + '&gt;'
     ret = ''
@@ -429,7 +429,7 @@ def build_xref_table(table: list, index: list) -> str:
         else:
             _, _, _, y = x
             _, pos, o_num, o_gen, st = y
-            ret += f'{pos:010} {o_gen:05} {st.decode("ascii")}'
+            ret += f'{pos:010} {o_gen:05} {html.escape(st.decode("ascii"))}'
             if st != b'f':
                 ret += '    '
                 ret += f'<a href="#idx{pos}">'
@@ -495,18 +495,19 @@ def follow_obj(obj, index: list, depth=0, display_stream=True) -> str:
         keys = move_list_item(keys, '/Subtype', 1)
         for i in keys:
             name = i #name = i.decode('ascii')
+            label = html.escape(f'{name:{NAME_MAX_WIDTH}}')
             value = follow_obj(obj[i], index, depth + 1)
             ret += ' ' * (NAME_MAX_WIDTH + 2) * depth
             if name == '/Type' or name == '/Subtype':
-                ret += f'  {name:{NAME_MAX_WIDTH}}<span class="important">{value}</span>\n'
+                ret += f'  {label}<span class="important">{value}</span>\n'
             elif name == '/JS':
-                ret += f'  <span class="warning">{name:{NAME_MAX_WIDTH}}</span>{value}\n'
+                ret += f'  <span class="warning">{label}</span>{value}\n'
             elif value == '/JavaScript':
-                ret += f'  {name:{NAME_MAX_WIDTH}}<span class="warning">{value}</span>\n'
+                ret += f'  {label}<span class="warning">{value}</span>\n'
             elif name == '/Prev':
-                ret += f'  {name:{NAME_MAX_WIDTH}}<a class="obj-link" href="#idx{value}">{value}</a>\n'
+                ret += f'  {label}<a class="obj-link" href="#idx{value}">{value}</a>\n'
             else:
-                ret += f'  {name:{NAME_MAX_WIDTH}}{value}\n'
+                ret += f'  {label}{value}\n'
         ret += ' ' * (NAME_MAX_WIDTH + 2) * depth
         ret += '&gt;&gt;'
         if content and display_stream:
@@ -589,11 +590,11 @@ def build_obj_header(article, index, cross) -> str:
                 if n == 0:
                     ret += f'<a href="#idx{p}">trailer</a> '
                 else:
-                    ret += f'<a href="#idx{p}">{n}</a> '
+                    ret += f'<a href="#idx{p}">{html.escape(str(n))}</a> '
             ret += f'</span></em>'
     elif type(addon) == tuple:
         env_pos, pos_in_env, seq = addon
-        o_num, o_gen, o_ver = obj['o_num'], 0, 0
+        o_num, o_gen, o_ver = html.escape(str(obj['o_num'])), 0, 0
         _, _, _, used_by = cross[pos]
         ret += f'\n'
         ret += f'<div class="block" id="idx{pos}">\n'
@@ -609,7 +610,7 @@ def build_obj_header(article, index, cross) -> str:
                 if n == 0:
                     ret += f'<a href="#idx{p}">trailer</a> '
                 else:
-                    ret += f'<a href="#idx{p}">{n}</a> '
+                    ret += f'<a href="#idx{p}">{html.escape(str(n))}</a> '
             ret += f'</span></em>'
     ret += f'<div class="obj-body b0">\n'
     return ret
-- 
2.43.0


From 6a6a78b2ee4b02d3301ae454338d77287ac477ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:41 +0000
Subject: [PATCH 24/60] fix: files are closed on every path

---
 pdfsyntax/api.py |  5 ++---
 pdfsyntax/cli.py | 12 ++++++------
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 6882cac..ccb4c6d 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -121,9 +121,8 @@ def writefile(doc: Doc, filename: str = None) -> Doc:
         bdata += fragment
         idx += len(fragment)
     if filename:
-        bfile = open(filename, 'wb')
-        bfile.write(bdata)
-        bfile.close()
+        with open(filename, 'wb') as bfile:
+            bfile.write(bdata)
     else:
         sys.stdout.buffer.write(bdata)
         sys.stdout.buffer.flush()
diff --git a/pdfsyntax/cli.py b/pdfsyntax/cli.py
index 99b327f..2422437 100644
--- a/pdfsyntax/cli.py
+++ b/pdfsyntax/cli.py
@@ -193,8 +193,8 @@ def print_disasm_columns(lines: list, columns_mode: str = 'VARIABLE'):
 def dump_disasm(filename: str, columns_mode: str = 'VARIABLE') -> str:
     """Disassemble file sequence."""
     res = ""
-    file_obj = open(filename, 'rb')
-    fdata = bdata_provider(file_obj)
+    with open(filename, 'rb') as file_obj:
+        fdata = bdata_provider(file_obj)
     sections = file_object_map(fdata)
     i, d, n = build_xref_sequence(fdata)
     wrong_targets = check_index_targets(sections, i)
@@ -413,8 +413,8 @@ def file_map(fdata: Callable) -> tuple:
 
 def browse(filename: str) -> None:
     """Print html view of the file map."""
-    file_obj = open(filename, 'rb')
-    fdata = bdata_provider(file_obj)
+    with open(filename, 'rb') as file_obj:
+        fdata = bdata_provider(file_obj)
     _, _, _, file_size = fdata(None, -1)
     sections, index = file_map(fdata)
     cross = cross_map_index(sections, index)
@@ -435,8 +435,8 @@ def compress_file(filename: str, output: str) -> None:
 
 def hexdump_cli(filename: str) -> None:
     """Print hex dump of file."""
-    file_obj = open(filename, 'rb')
-    fdata = bdata_provider(file_obj)
+    with open(filename, 'rb') as file_obj:
+        fdata = bdata_provider(file_obj)
     print(hexdump(fdata))
     return
 
-- 
2.43.0


From d01036ff5fe0552ed690c485d4d0bb7851ce8655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:43 +0000
Subject: [PATCH 25/60] fix: the continuous data provider returns an index into
 its own buffer

---
 pdfsyntax/filestruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 8daa498..22cdd4d 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -52,7 +52,7 @@ def bdata_provider(data_source, mode: str = "SINGLE"):
                 nb_read = min(file_size - i, length)
             file_obj.seek(i)
             bdata = file_obj.read(nb_read)
-            return (bdata, i, 0, nb_read)
+            return (bdata, 0, i, nb_read)
         return continuous_load
 
 
-- 
2.43.0


From 1a5089e488ff9a3ea63eb6e292e23302842389ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:53:15 +0000
Subject: [PATCH 26/60] fix: the data provider of a new document answers the
 size query

---
 pdfsyntax/filestruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 22cdd4d..e2a09c1 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -59,7 +59,7 @@ def bdata_provider(data_source, mode: str = "SINGLE"):
 def bdata_dummy(bdata: bytes):
     """ """
     def dummy_load(start_pos: int, length: int) -> tuple:
-        if start_pos == -1 and length == 0:
+        if start_pos is None and length == -1:
             return (None, None, None, len(bdata))
         if length == -1:
             length = len(bdata) - start_pos
-- 
2.43.0


From 3079139f7d9dd7788e288c3ee4f8d1563744168a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:53:17 +0000
Subject: [PATCH 27/60] fix: pprint_data_history shows each revision with its
 own end of file

---
 pdfsyntax/docstruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 40c97f9..4a8c45c 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -173,7 +173,7 @@ def pprint_data_history(doc: Doc):
     for i in range(ver):
         fd = doc.data[i].get('fdata')
         bd = doc.data[i].get('bdata')
-        cut = doc.data[-i].get('eof_cut')
+        cut = doc.data[i].get('eof_cut')
         _, _, _, sz = fd(None, -1)
         n = fd.__name__
         hist[i]['data_f()'] = n.split('_')[0]
-- 
2.43.0


From 62e138ad26ae6129c09191c56152a234eed57840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:53:19 +0000
Subject: [PATCH 28/60] fix: a composite data provider reads the first byte of
 its last part

---
 pdfsyntax/docstruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 4a8c45c..596d06b 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -541,7 +541,7 @@ def merge_fdata(fdata: Callable, index: int, bdata: bytes):
             #_, _, _, sz = fdata(None, -1)
             sz = index
             return (None, None, None, sz + len(bdata))
-        if start_pos > index:
+        if start_pos >= index:
             start_pos = start_pos - index
             #if start_pos == -1 and length == 0:
             #    return (None, None, None, len(bdata))
-- 
2.43.0


From fae7975ad873f2d573fbd90e76a487ca41efb4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:53:20 +0000
Subject: [PATCH 29/60] fix: apply_filter leaves undecodable streams alone and
 drops obsolete filter parameters

---
 pdfsyntax/api.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index ccb4c6d..4a7d6a7 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -219,10 +219,14 @@ def apply_filter(doc: Doc, streams: list, flt: str = '/FlateDecode') -> Doc:
             if entries['/Filter'] == flt:
                 continue
             else:
-                for e in entries['/Filter'].split():
-                    if e not in DECODED_FILTERS:
-                        continue
+                old_filters = entries['/Filter']
+                if type(old_filters) == str:
+                    old_filters = old_filters.split()
+                if any(e not in DECODED_FILTERS for e in old_filters):
+                    continue
         entries = deepcopy(entries)
+        if '/DecodeParms' in entries:
+            del entries['/DecodeParms']
         if '/Filter' in entries and flt == '':
             del entries['/Filter']
         else:
-- 
2.43.0


From 37f9f3b649da0c8f98ac37618f704cc07a6da912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:53:34 +0000
Subject: [PATCH 30/60] fix: a forged stream always gets its actual length

---
 pdfsyntax/objects.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index c48e1d2..10b7c28 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -35,8 +35,7 @@ def update_internal_stream_length(stream: Stream):
     entries = stream['entries']
     encoded = stream['encoded']
     length = len(encoded) + 1
-    if '/Length' in entries and type(entries['/Length']) == int:
-        entries['/Length'] = length
+    entries['/Length'] = length
     return length
 
 
-- 
2.43.0


From fed1d507119d08f81c6f942df48d64768aa1229f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:53:35 +0000
Subject: [PATCH 31/60] fix: the length of a stream does not include the end of
 line before endstream

---
 pdfsyntax/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 10b7c28..67ad490 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -34,7 +34,7 @@ def update_internal_stream_length(stream: Stream):
     """Calculate and apply /Length."""
     entries = stream['entries']
     encoded = stream['encoded']
-    length = len(encoded) + 1
+    length = len(encoded)
     entries['/Length'] = length
     return length
 
-- 
2.43.0


From 86e064275ae8c0e763ca183f967ad30505774457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:54:13 +0000
Subject: [PATCH 32/60] fix: an escaped backslash before a closing parenthesis
 ends a string

---
 pdfsyntax/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 67ad490..dcdb6c9 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -120,7 +120,7 @@ def next_token(text: bytes, i=0) -> tuple:
             if single in EOL:
                 return (h, i, 'COMMENT')
         elif search == "LSTRING":
-            if double == b'\\(' or double == b'\\)':
+            if double == b'\\(' or double == b'\\)' or double == b'\\\\':
                 i += 1
             elif single == b'(':
                 nested += 1
-- 
2.43.0


From 89f3eccae0a80c5c58048841c7aa05650390b988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:54:15 +0000
Subject: [PATCH 33/60] fix: the text of an annotation is escaped or encoded

---
 pdfsyntax/api.py  | 2 +-
 pdfsyntax/text.py | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 4a7d6a7..64f3d9f 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -242,7 +242,7 @@ def add_text_annotation(doc: Doc, page_num: int, text: str, rect: list, opened:
         '/Type': '/Annot',
         '/Subtype': '/Text',
         '/Rect': rect,
-        '/Contents': f"({text})",
+        '/Contents': escape_text_string(text),
         '/Open': opened,
     }
     doc, a_iref = add_object(doc, annot)
diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index d7ab9c2..0205eb9 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -49,6 +49,15 @@ def text_string(string: bytes) -> str:
     return res
 
 
+def escape_text_string(text: str) -> str:
+    """Transform text into a fundamental string."""
+    if text.isascii() and text.isprintable():
+        for c in '\\()':
+            text = text.replace(c, '\\' + c)
+        return f'({text})'
+    return f'<FEFF{text.encode("utf-16be").hex().upper()}>'
+
+
 def unescape_literal_string(string: bytes) -> bytes:
     """ """
     sequences = {
-- 
2.43.0


From 45f494dbaf40a77fc78d5aed5e2575008cb70aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:54:17 +0000
Subject: [PATCH 34/60] fix: an annotation can be added to a page whose
 annotations are listed inline

---
 pdfsyntax/api.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 64f3d9f..547a6a0 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -252,7 +252,11 @@ def add_text_annotation(doc: Doc, page_num: int, text: str, rect: list, opened:
         annot_obj = new_page['/Annots']
         new_array = deepcopy(get_object(doc, new_page['/Annots']))
         new_array.append(a_iref)
-        doc = update_object(doc, int(annot_obj.imag), new_array)
+        if type(annot_obj) == complex:
+            doc = update_object(doc, int(annot_obj.imag), new_array)
+        else:
+            new_page['/Annots'] = new_array
+            doc = update_object(doc, int(page_ref.imag), new_page)
     else:
         annot_array = [a_iref]
         doc, aa_iref = add_object(doc, annot_array)
-- 
2.43.0


From dbd04f6ca639522d14e7a66d4517e3f8344fc792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:54:18 +0000
Subject: [PATCH 35/60] fix: pprint_page_contents calls an existing function

---
 pdfsyntax/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 547a6a0..45a79f5 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -396,9 +396,9 @@ def pprint_page_contents(doc: Doc, page_num: int) -> str:
     ret = ''
     contents = get_page_contents(doc, page_num)
     for content in contents:
-        f = format_stream_content(content)
+        f = printable_stream_content(content['stream'], False)
         ret += '$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$\n'
-        ret += f
+        ret += f or ''
     print(ret)
     return ret
 
-- 
2.43.0


From d1ce1dfea0e6fc6b568697a8e96f8fac8f655b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:54:50 +0000
Subject: [PATCH 36/60] fix: emphasis signs are joined in tokenize instead of
 raising NameError

---
 pdfsyntax/markdown.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index aba1991..73f3642 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -352,11 +352,6 @@ def tokenize(md: str) -> list:
         elif c in '*_' and line and line[-1][-1] in '*_' and tok == '':
             # Concatenate signs for em & strong styles
             line[-1] = line[-1] + c
-            if tok:
-                line.append(tok)
-                tok = ''
-            line.append(t)
-            line.append('[')
         elif c in '\n[]()-+.>*_`':
             if tok:
                 line.append(tok)
-- 
2.43.0


From 8832096e88ab66bfe6a36ab1c30cb5d4953023f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:54:52 +0000
Subject: [PATCH 37/60] fix: remove_pages terminates when a page tree node is
 its own ancestor

---
 pdfsyntax/docstruct.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 596d06b..7cdaa01 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -817,8 +817,10 @@ def remove_pages(doc: Doc, del_pages) -> Doc:
         kids.remove(ref)
         new_parent['/Count'] = new_parent['/Count'] - 1
         new_doc = update_object(new_doc, int(parent.imag), new_parent, immut=False)
-        while '/Parent' in new_parent:
+        visited = {parent}
+        while '/Parent' in new_parent and new_parent['/Parent'] not in visited:
             p = new_parent['/Parent']
+            visited.add(p)
             new_parent = get_object(new_doc, p)
             new_parent['/Count'] = new_parent['/Count'] - 1
             new_doc = update_object(new_doc, int(p.imag), new_parent, immut=False)
-- 
2.43.0


From 3d65f60e5167bb51ac4188a6c365a19b7d0b0aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:54:54 +0000
Subject: [PATCH 38/60] fix: concat attaches the imported page tree to its new
 parent

---
 pdfsyntax/docstruct.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 7cdaa01..7f337a2 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -743,6 +743,8 @@ def concat(doc_left: Doc, doc_right: Doc, target_left: bool = True) -> Doc:
     for iref in objs:
         obj = get_object(source_doc, iref)
         new_obj = deep_ref_retarget(obj, mapping)
+        if iref == source_pages_iref:
+            new_obj['/Parent'] = cat['/Pages']
         new_doc, _ = add_object(new_doc, new_obj, immut=False)
     pages_iref = cat['/Pages']
     pages = get_object(new_doc, pages_iref)
-- 
2.43.0


From 0743903547d597b581a5b88dcb4f9abae4f66844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:53:26 +0000
Subject: [PATCH 39/60] fix: escape & in the stream contents shown by browse
 (an entity in a stream was displayed decoded)

---
 pdfsyntax/graphics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfsyntax/graphics.py b/pdfsyntax/graphics.py
index c1276db..7c53040 100644
--- a/pdfsyntax/graphics.py
+++ b/pdfsyntax/graphics.py
@@ -144,6 +144,7 @@ def printable_stream_content(content_stream: bytes, escape = True) -> str:
             return None
     ret = c.decode('latin-1')
     if escape:
+        ret = ret.replace('&', '&amp;')
         ret = ret.replace('<', '&lt;')
         ret = ret.replace('>', '&gt;')
     return ret
-- 
2.43.0


From ef3b55896880f66b0d1d5cd6f3392d5ea910617c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:22:50 +0000
Subject: [PATCH 40/60] fix: octal escapes of one or two digits and line
 continuations in literal strings

---
 pdfsyntax/text.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index 0205eb9..f37705e 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -76,9 +76,14 @@ def unescape_literal_string(string: bytes) -> bytes:
         first = string[i:i+1]
         second = string[i+1:i+2]
         if first == b'\x5c': # or b'\\'
-            if second in b'0123456789':
-                ret += bytes([int(string[i+1:i+4], 8)])
-                i += 3
+            if second and second in b'01234567': # 1 to 3 octal digits
+                j = i + 2
+                while j < i + 4 and string[j:j+1] and string[j:j+1] in b'01234567':
+                    j += 1
+                ret += bytes([int(string[i+1:j], 8) & 0xff])
+                i = j - 1
+            elif second and second in b'\r\n': # line continuation
+                i += 2 if string[i+1:i+3] == b'\r\n' else 1
             elif second in sequences :
                 ret += sequences[second]
                 i += 1
-- 
2.43.0


From 7b595947a794990bdc394fc3d164a3397e3b07ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:22:52 +0000
Subject: [PATCH 41/60] fix: byte order mark in lower case hexadecimal

---
 pdfsyntax/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index f37705e..75f8ed9 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -40,7 +40,7 @@ def text_string(string: bytes) -> str:
             # = s.replace(b'\x5c)', b')')
             res = decode_pdfdoc(s)
     elif string[0:1] == b'<': # Hexadecimal string
-        if string[1:5] == b'FEFF':
+        if string[1:5].upper() == b'FEFF':
             b = bytes.fromhex(string[5:-1].decode('ascii'))
             res = b.decode('utf-16be')
         else:
-- 
2.43.0


From bc1261825fd9a608267ba696bda52cce48872149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:03:33 +0000
Subject: [PATCH 42/60] fix: fields of the cross-reference stream wide enough
 for every value (compressing a small document raised OverflowError)

---
 pdfsyntax/filestruct.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index e2a09c1..dd315a1 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -449,8 +449,13 @@ def format_xref_stream(elems: list, trailer: dict, next_free: dict, o_num: int)
     index = []
     trailer['/Type'] = '/XRef'
     trailer['/Length'] = -1
-    max_counter = max([e[3] for e in elems if e[3] is not None])
-    b = (int(math.log2(max_counter+1)) // 8) + 1
+    max_field = 0
+    for use, num, o_gen, counter, env_num in elems:
+        if use == 'f':
+            max_field = max(max_field, next_free[num], o_gen+1)
+        else:
+            max_field = max(max_field, counter, env_num or o_gen)
+    b = (max_field.bit_length() + 7) // 8
     trailer['/W'] = [1, b, b]
     for use, num, o_gen, counter, env_num in elems:
         if use == 'f':
-- 
2.43.0


From 686cf978366182a868dbed60353aa0749a837911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:04:24 +0000
Subject: [PATCH 43/60] fix: squash keeps object, object stream and
 cross-reference stream numbers consistent after renumbering

---
 pdfsyntax/docstruct.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 7f337a2..5d8335f 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -855,6 +855,7 @@ def defragment_map(current_index: list, excluded={}) -> tuple:
             nb += 1
             old_ref = complex(o['o_gen'], o['o_num'])
             new_o = deepcopy(o)
+            new_o['o_num'] = nb
             new_o['o_gen'] = 0
             new_o['o_ver'] = 0
             new_o['doc_ver'] = 0
@@ -867,6 +868,10 @@ def defragment_map(current_index: list, excluded={}) -> tuple:
             new_ref = complex(0, nb) 
             if old_ref != new_ref:
                 mapping[old_ref] = new_ref
+    for o in new_index[1:]:
+        if 'env_num' in o:
+            env_ref = complex(current_index[o['env_num']]['o_gen'], o['env_num'])
+            o['env_num'] = int(mapping.get(env_ref, env_ref).imag)
     return new_index, mapping
 
 
@@ -880,7 +885,11 @@ def squash(doc: Doc) -> Doc:
     old_index = doc.index[-1]
     new_index, mapping = defragment_map(old_index, set())
     if xref_stream_num:
-        new_index[0]['xref_stream_num'] = xref_stream_num
+        x_ref = complex(0, xref_stream_num)
+        if x_ref in in_use(doc):
+            new_index[0]['xref_stream_num'] = int(mapping.get(x_ref, x_ref).imag)
+        else:
+            new_index[0]['xref_stream_num'] = -1
     new_cache = len(new_index) * [None]
     new_data = [{}]
     trail = trailer(doc)
-- 
2.43.0


From 65ab74dfff6477ce84f07dbb68e89419a7aed7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:04:47 +0000
Subject: [PATCH 44/60] fix: objects added and deleted in the same revision are
 deleted (commit failed on them)

---
 pdfsyntax/docstruct.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 5d8335f..337b0c7 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -375,12 +375,12 @@ def changes(doc: Doc, rev: int=-1):
             continue
         if 'xref_stream_num' in current[0] and current[0]['xref_stream_num'] == i:
             continue
-        if i > len(previous)-1:
-            res.append((iref, 'a'))
-        elif i < len(previous) and previous[i] == current[i]:
+        if i < len(previous) and previous[i] == current[i]:
             pass
-        elif previous[i] != None and 'DELETED' not in previous[i] and 'DELETED' in current[i]:
+        elif 'DELETED' in current[i]:
             res.append((iref, 'd'))
+        elif i > len(previous)-1:
+            res.append((iref, 'a'))
         elif previous[i] != None and current[i] != previous[i]:
             res.append((iref, 'u'))
         else:
-- 
2.43.0


From 0a110341177ecb35d72e506d3acdf105b852c2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:05:00 +0000
Subject: [PATCH 45/60] fix: objects of object streams survive squash (the new
 content was appended to the old one), empty object streams accepted

---
 pdfsyntax/docstruct.py  | 4 ++++
 pdfsyntax/filestruct.py | 3 +--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 337b0c7..ae275ee 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -901,6 +901,10 @@ def squash(doc: Doc) -> Doc:
         obj = deep_ref_retarget(obj, mapping)
         new_cache[i] = obj
     new_doc = Doc([new_index], new_cache, new_data)
+    for env_num in envelope_objects(new_doc): # to be filled again
+        entries = new_cache[env_num]['entries']
+        entries = {k: entries[k] for k in ('/Type', '/Filter') if k in entries}
+        new_cache[env_num] = Stream(entries, b'', b'')
     chg = changes(new_doc)
     if not chg:
         return b''
diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index dd315a1..63f732e 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -528,13 +528,12 @@ def finalize_stream(envelope):
     header = b''
     entries = envelope['entries'].copy()
     if '/First' not in entries and '/N' not in entries:
-        tokens = entries['/FirstLine']
+        tokens = entries.pop('/FirstLine', [])
         for i in tokens:
             header += f'{i} '.encode('ascii')
         header += b'\n'
         entries['/First'] = len(header)
         entries['/N'] = len(tokens) // 2
-        del entries['/FirstLine']
     entries['/Length'] = -1
     new_ser = header + envelope['stream']
     envelope, _ = forge_stream(entries, new_ser)
-- 
2.43.0


From d433c714a11e1fc396776670d575c63dc68bc554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:13:50 +0000
Subject: [PATCH 46/60] fix: updates of a linearized file give the position of
 the previous cross-reference section (commit crashed)

---
 pdfsyntax/docstruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index ae275ee..3d402ad 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -605,7 +605,7 @@ def commit(doc: Doc) -> Doc:
     new_doc.index.append(new_v)
     new_trailer = new_doc.cache[0]
     if type(new_doc.index[-2][0]) == list: #Linearized
-        new_trailer['/Prev'] = new_doc.index[-2][1].get('xref_table_pos') or new_doc.index[-2][1].get('xref_stream_pos')
+        new_trailer['/Prev'] = new_doc.index[-2][0][-1].get('xref_table_pos') or new_doc.index[-2][0][-1].get('xref_stream_pos')
     else:
         new_trailer['/Prev'] = new_doc.index[-2][0].get('xref_table_pos') or new_doc.index[-2][0].get('xref_stream_pos')
     if '/XRefStm' in new_trailer:
-- 
2.43.0


From deab022e5681ca4df38f1885d4cbe4f107cce191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:14:26 +0000
Subject: [PATCH 47/60] fix: objects listed in the table of a hybrid section
 are found, and its updates refer to the table (/Prev led to the stream)

---
 pdfsyntax/filestruct.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 63f732e..8c1a8df 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -334,6 +334,8 @@ def build_index_from_xref_sequence(xref_seq: list, nxt: dict, nb: int) -> list:
             p = deepcopy(p)
             p[0]['xref_stm'] = True
             p[0]['abs_pos'] = x[0]['abs_pos']
+            p[0]['xref_table_pos'] = x[0]['xref_table_pos']
+            p[-1:-1] = x[1:-1]
             new_xref_seq[-1] = p
         else:
             new_xref_seq.append(x)
-- 
2.43.0


From db8cc301f7111236b3cd4dd0dc8acb2e63385237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:18:55 +0000
Subject: [PATCH 48/60] fix: a cross-reference stream that does not list itself
 has an index slot (updates of such a file failed)

---
 pdfsyntax/filestruct.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 8c1a8df..893ff71 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -225,6 +225,8 @@ def parse_xref_stream(xref_stream: dict, trailer_pos: int, o_num: int) -> list:
             xref.append({'abs_pos': offset, 'o_num': o_num, 'o_gen': o_gen})
         table.append((raw_line, o_num))
         o_num += 1
+    if all(x['o_num'] != xref_stream_num for x in xref): # the stream does not list itself
+        xref.append({'abs_pos': trailer_pos, 'o_num': xref_stream_num, 'o_gen': 0})
     trailer = {
         'o_num': 0,
         'o_gen': 0,
-- 
2.43.0


From 329d6d0bb39e414e5085885195b1d78015eb56f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:24:48 +0000
Subject: [PATCH 49/60] fix: squash of a document without cross-reference
 stream takes objects out of their object streams (their entries led nowhere)

---
 pdfsyntax/docstruct.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 3d402ad..bea82f1 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -864,6 +864,8 @@ def defragment_map(current_index: list, excluded={}) -> tuple:
                 del new_o['abs_pos']
             if 'abs_next' in new_o:
                 del new_o['abs_next']
+            if new_o.get('env_num') in excluded:
+                del new_o['env_num']
             new_index.append(new_o)
             new_ref = complex(0, nb) 
             if old_ref != new_ref:
@@ -883,7 +885,9 @@ def squash(doc: Doc) -> Doc:
     else: #TODO
         xref_stream_num = doc.index[0][0][0].get('xref_stream_num')
     old_index = doc.index[-1]
-    new_index, mapping = defragment_map(old_index, set())
+    # without cross-reference stream, objects cannot stay in object streams
+    excluded = set() if xref_stream_num else obj_stms
+    new_index, mapping = defragment_map(old_index, excluded)
     if xref_stream_num:
         x_ref = complex(0, xref_stream_num)
         if x_ref in in_use(doc):
-- 
2.43.0


From f01c030acf531a65c8f32b2c3de5fb63c1681ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:17:46 +0000
Subject: [PATCH 50/60] fix: index has a slot for objects whose number is
 greater than any object outside object streams

---
 pdfsyntax/filestruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 893ff71..1ce03b0 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -315,7 +315,7 @@ def build_xref_sequence(fdata: Callable) -> tuple:
     #idx.append(None)
     nxt = {idx[i]: idx[i+1] for i in range(len(idx)-1) if idx[i] < idx[i+1]}
     #nxt = {idx[i]: idx[i+1] for i in range(len(idx)-1)}
-    nb = max(seq, key = lambda i: i[1])[1]
+    nb = max(i['o_num'] for xref_index in chrono for i in xref_index)
     return chrono, nxt, nb
 
 
-- 
2.43.0


From 4683ed5f33395676c4f1f8d2a78cf8732f0dfba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:32:03 +0000
Subject: [PATCH 51/60] fix: deleted objects no longer reappear when the file
 is loaded again

---
 pdfsyntax/api.py        |  5 ++++-
 pdfsyntax/filestruct.py | 25 ++++++++++++++++++++-----
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 45a79f5..277f5d4 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -465,7 +465,10 @@ def cross_map_index(sections, index):
             continue
         for target in targets:
             target_num = int(target.imag)
-            target_pos = index[-1][target_num]['abs_pos']
+            target_entry = index[-1][target_num] if target_num < len(index[-1]) else None
+            if not target_entry or 'DELETED' in target_entry:
+                continue
+            target_pos = target_entry['abs_pos']
             _, _, _, target_used_by = ret[target_pos]
             target_used_by.append((o_num, abs_pos))
     return ret
diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 1ce03b0..e2d5efb 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -178,6 +178,8 @@ def parse_xref_table(bdata: bytes, start_pos: int, general_offset: int) -> list:
             offset, o_num, o_gen, keyword = line
             if keyword != b'f' and o_num != 0:
                 xref.append({'abs_pos': offset, 'o_num': o_num, 'o_gen': o_gen})
+            elif o_num != 0:
+                xref.append({'o_num': o_num, 'o_gen': o_gen, 'DELETED': True})
             table.append((f"{offset:010d} {o_gen:05d} {keyword.decode('ascii')} ".encode('ascii'), o_num))
             o_num += 1
     trailer = {
@@ -216,6 +218,7 @@ def parse_xref_stream(xref_stream: dict, trailer_pos: int, o_num: int) -> list:
             table.append((raw_line, o_num))
             continue
         if keyword == b'f':
+            xref.append({'o_num': o_num, 'o_gen': o_gen, 'DELETED': True})
             continue
         if env_iref:
             #float_pos = envs[env_iref] + (offset + 1) / 10000
@@ -315,7 +318,7 @@ def build_xref_sequence(fdata: Callable) -> tuple:
     #idx.append(None)
     nxt = {idx[i]: idx[i+1] for i in range(len(idx)-1) if idx[i] < idx[i+1]}
     #nxt = {idx[i]: idx[i+1] for i in range(len(idx)-1)}
-    nb = max(i['o_num'] for xref_index in chrono for i in xref_index)
+    nb = max(i['o_num'] for xref_index in chrono for i in xref_index if 'DELETED' not in i)
     return chrono, nxt, nb
 
 
@@ -337,7 +340,8 @@ def build_index_from_xref_sequence(xref_seq: list, nxt: dict, nb: int) -> list:
             p[0]['xref_stm'] = True
             p[0]['abs_pos'] = x[0]['abs_pos']
             p[0]['xref_table_pos'] = x[0]['xref_table_pos']
-            p[-1:-1] = x[1:-1]
+            hidden = [o['o_num'] for o in p]
+            p[-1:-1] = [o for o in x[1:-1] if 'DELETED' not in o or o['o_num'] not in hidden]
             new_xref_seq[-1] = p
         else:
             new_xref_seq.append(x)
@@ -354,6 +358,17 @@ def build_index_from_xref_sequence(xref_seq: list, nxt: dict, nb: int) -> list:
         trailer['o_ver'] = doc_ver
         trailer['doc_ver'] = doc_ver
         for obj in x[1:]:
+            if 'DELETED' in obj:
+                old_obj = m[obj['o_num']] if obj['o_num'] < nb - 1 else None
+                if old_obj and 'DELETED' not in old_obj:
+                    m[obj['o_num']] = {
+                        'o_num': obj['o_num'],
+                        'o_gen': old_obj['o_gen'],
+                        'o_ver': old_obj['o_ver'] + 1,
+                        'doc_ver': doc_ver,
+                        'DELETED': True,
+                    }
+                continue
             if m[obj['o_num']] is None:
                 obj['o_ver'] = 0
                 obj['doc_ver'] = doc_ver
@@ -373,7 +388,7 @@ def build_index_from_xref_sequence(xref_seq: list, nxt: dict, nb: int) -> list:
             elif type(x) == dict:
                 x = [x]
             for y in x:
-                if y.get('abs_next'):
+                if y.get('abs_next') or 'DELETED' in y:
                     continue
                 abs_pos = y.get('abs_pos')
                 env_num = y.get('env_num')
@@ -640,7 +655,7 @@ def check_index_targets(object_map: list, xref_seq: list):
                 if pos is None:
                     pos = o.get('xref_stream_pos')
                 continue
-            elif o['o_num'] < 0:
+            elif o['o_num'] < 0 or 'DELETED' in o:
                 continue
             if 'env_num' in o:
                 k = ('EMB', o['o_num'], o['env_num'], o['o_pos'])
@@ -660,7 +675,7 @@ def check_not_indexed_objects(object_map: list, xref_seq: list):
     for xref in xref_seq:
         errors = []
         for o in xref:
-            if o['o_num'] <= 0:
+            if o['o_num'] <= 0 or 'DELETED' in o:
                 continue
             if 'env_num' in o:
                 k = ('EMB', o['o_num'], o['env_num'], o['o_pos'])
-- 
2.43.0


From 7e5ca00ae861b31db492747e3ee431d89dd0fd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:32:21 +0000
Subject: [PATCH 52/60] fix: cross-reference stream without type field: its
 entries are objects in use

---
 pdfsyntax/objects.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index dcdb6c9..ea630c9 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -389,6 +389,8 @@ def parse_xref_stream_raw(xref_stream: Stream, start_pos=None) -> tuple:
             params.append(int.from_bytes(x, byteorder='big'))
             i += int(col)
             ppr += asciihex(x) + b' '
+        if int(cols[0]) == 0: # no type field: the default type is 1
+            params[0] = 1
         if params[0] == 0:
             offset = params[1]
             o_gen = params[2]
-- 
2.43.0


From 5d8961325ca4282ba58fb2438f3a1d696c1dbede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:42:15 +0000
Subject: [PATCH 53/60] fix: rewind to a revision with a cross-reference
 stream: the stream is not one of the changes (it was written twice)

---
 pdfsyntax/docstruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index bea82f1..546757d 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -572,7 +572,6 @@ def commit(doc: Doc) -> Doc:
     else: #TODO
         x_num = doc.index[0][0][0].get('xref_stream_num')
     if x_num:
-        new_index0['xref_stream_num'] = -1
         if x_num == -1:
             x_num = len(current_index)
             new_index_xs = {'o_num': x_num, 'o_gen': 0, 'o_ver': 0, 'doc_ver': nb_rev-1}
@@ -580,6 +579,7 @@ def commit(doc: Doc) -> Doc:
             new_doc.cache.append(None)
             new_doc.index[-1][0] = deepcopy(new_doc.index[-1][0])
             new_doc.index[-1][0]['xref_stream_num'] = x_num
+        new_index0['xref_stream_num'] = x_num
         if new_doc.cache[0].get('/DecodeParms'):
             del new_doc.cache[0]['/DecodeParms']
     new_doc.cache[0]['/Size'] = len(new_doc.index[-1])
-- 
2.43.0


From 68de63fa04ed4ff667e5615282c73f73f331f4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:43:28 +0000
Subject: [PATCH 54/60] fix: rewind to a revision with object streams takes
 objects out of them (a following commit lost the objects)

---
 pdfsyntax/docstruct.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 546757d..ad9b9bd 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -626,6 +626,21 @@ def rewind(doc: Doc) -> Doc:
     new_doc.cache.extend(build_cache(doc.data[-1]['fdata'], new_doc.index))
     for o in objs:
         get_object(new_doc, o)
+    # Objects that the reopened revision has put into object streams are written again as regular objects
+    current = new_doc.index[-1]
+    previous = new_doc.index[-2] if len(new_doc.index) > 1 else []
+    envs = set()
+    for i in range(1, len(current)):
+        before = previous[i] if i < len(previous) else None
+        if current[i] and 'env_num' in current[i] and current[i] != before:
+            envs.add(current[i]['env_num'])
+            current[i] = {k: v for k, v in current[i].items() if k not in ('env_num', 'o_pos')}
+    for i in envs:
+        if any(x and x.get('env_num') == i for x in current[1:]):
+            continue
+        current[i] = {k: current[i][k] for k in ('o_num', 'o_gen', 'o_ver', 'doc_ver')}
+        current[i]['DELETED'] = True
+        new_doc.cache[i] = None
     return new_doc
 
 
-- 
2.43.0


From 246c4dfe92b12946680c06175347d7dbe0cbf40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:43:51 +0000
Subject: [PATCH 55/60] fix: numbers of free entries are not given to new
 objects after loading

---
 pdfsyntax/filestruct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index e2d5efb..0961ece 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -318,7 +318,7 @@ def build_xref_sequence(fdata: Callable) -> tuple:
     #idx.append(None)
     nxt = {idx[i]: idx[i+1] for i in range(len(idx)-1) if idx[i] < idx[i+1]}
     #nxt = {idx[i]: idx[i+1] for i in range(len(idx)-1)}
-    nb = max(i['o_num'] for xref_index in chrono for i in xref_index if 'DELETED' not in i)
+    nb = max(i['o_num'] for xref_index in chrono for i in xref_index)
     return chrono, nxt, nb
 
 
@@ -359,7 +359,7 @@ def build_index_from_xref_sequence(xref_seq: list, nxt: dict, nb: int) -> list:
         trailer['doc_ver'] = doc_ver
         for obj in x[1:]:
             if 'DELETED' in obj:
-                old_obj = m[obj['o_num']] if obj['o_num'] < nb - 1 else None
+                old_obj = m[obj['o_num']]
                 if old_obj and 'DELETED' not in old_obj:
                     m[obj['o_num']] = {
                         'o_num': obj['o_num'],
-- 
2.43.0


From 4aab73d677bb210be79436817473c60b2419c15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:47:48 +0000
Subject: [PATCH 56/60] fix: a revision reopened by rewind can be committed:
 numbers, free entries, /XRefStm and /Prev of a linearized or hybrid file

---
 pdfsyntax/docstruct.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index ad9b9bd..a581e1f 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -620,6 +620,9 @@ def rewind(doc: Doc) -> Doc:
     new_doc = copy_doc(doc, revision='PREVIOUS')
     new_doc.index.pop()
     new_doc.data.pop()
+    current = new_doc.index[-1]
+    while len(current) > 1 and current[-1] is None: # numbers that later revisions introduce
+        current.pop()
     objs = in_use(new_doc)
     if 'eof_cut' in new_doc.data[-1]:
         del new_doc.data[-1]['eof_cut']
@@ -627,7 +630,6 @@ def rewind(doc: Doc) -> Doc:
     for o in objs:
         get_object(new_doc, o)
     # Objects that the reopened revision has put into object streams are written again as regular objects
-    current = new_doc.index[-1]
     previous = new_doc.index[-2] if len(new_doc.index) > 1 else []
     envs = set()
     for i in range(1, len(current)):
@@ -635,12 +637,28 @@ def rewind(doc: Doc) -> Doc:
         if current[i] and 'env_num' in current[i] and current[i] != before:
             envs.add(current[i]['env_num'])
             current[i] = {k: v for k, v in current[i].items() if k not in ('env_num', 'o_pos')}
+    # Only one cross-reference section is written again
+    heads = current[0] if type(current[0]) == list else [current[0]]
+    head = heads[-1].copy()
+    if head.get('xref_stm'):
+        envs.add(head.pop('xref_stream_num'))
+        del head['xref_stm']
+    envs.update(x['xref_stream_num'] for x in heads[:-1] if x.get('xref_stream_num'))
+    envs.discard(head.get('xref_stream_num'))
+    current[0] = head
+    new_doc.cache[0].pop('/XRefStm', None)
+    if not previous:
+        new_doc.cache[0].pop('/Prev', None)
     for i in envs:
         if any(x and x.get('env_num') == i for x in current[1:]):
             continue
         current[i] = {k: current[i][k] for k in ('o_num', 'o_gen', 'o_ver', 'doc_ver')}
         current[i]['DELETED'] = True
         new_doc.cache[i] = None
+    if not previous: # a first revision has an entry for every number
+        for i in range(1, len(current)):
+            if current[i] is None:
+                current[i] = {'o_num': i, 'o_gen': 0, 'o_ver': 0, 'doc_ver': 0, 'DELETED': True}
     return new_doc
 
 
-- 
2.43.0


From 57875dd7ab320d22a6115f772e5c2ba9a897c0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:29 +0000
Subject: [PATCH 57/60] fix: page tree entries may be indirect references
 (/Kids, /Count, /MediaBox, /Rotate)

---
 pdfsyntax/api.py       |  2 +-
 pdfsyntax/docstruct.py | 13 +++++++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 277f5d4..55ea507 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -178,7 +178,7 @@ def paper(mediabox: list) -> str:
 def page_layouts(doc: Doc, max_nb=None) -> list:
     """List page layouts."""
     pl = pages(doc, max_nb)
-    med = [(p['/MediaBox'], p.get('/Rotate')) for p in pl]
+    med = [(get_object(doc, p['/MediaBox']), get_object(doc, p.get('/Rotate'))) for p in pl]
     return med
 
 
diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index a581e1f..8a731f3 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -204,7 +204,7 @@ def pprint_page_hierarchy(doc: Doc, iref: complex = None, n: int = 0, level: int
     level += 1
     offset = "    " * level
     if node['/Type'] == '/Pages':
-        kids = node['/Kids']
+        kids = get_object(doc, node['/Kids'])
         accu += f"{offset} /Pages node at {iref}, kids count = {len(kids)}:\n"
         for kid in kids:
             accu, n = pprint_page_hierarchy(doc, kid, n, level, accu, ancestors + (iref,))
@@ -321,7 +321,7 @@ def flat_page_tree(doc: Doc, num=None, inherited=None, max_nb=None, ancestors=()
     else:
         node = get_object(doc, catalog(doc)[0]['/Pages'])
     if node['/Type'] == '/Pages':
-        for kid in node['/Kids']:
+        for kid in get_object(doc, node['/Kids']):
             e = {k: node.get(k) for k in INHERITABLE_ATTRS if node.get(k) is not None}
             inherited.update(e)
             accu = accu + flat_page_tree(doc, kid, inherited.copy(), max_nb, ancestors + (num,))
@@ -505,7 +505,7 @@ def info(doc: Doc):
 def number_pages(doc: Doc):
     """Return doc number of pages."""
     p = get_object(doc, catalog(doc)[0]['/Pages'])
-    return p['/Count']
+    return get_object(doc, p['/Count'])
 
 
 def pages(doc: Doc, max_nb=None) -> list:
@@ -848,16 +848,17 @@ def remove_pages(doc: Doc, del_pages) -> Doc:
     for ref in del_ref:
         parent = get_object(new_doc, ref)['/Parent']
         new_parent = get_object(new_doc, parent)
-        kids = new_parent['/Kids']
+        kids = get_object(new_doc, new_parent['/Kids'])
         kids.remove(ref)
-        new_parent['/Count'] = new_parent['/Count'] - 1
+        new_parent['/Kids'] = kids
+        new_parent['/Count'] = get_object(new_doc, new_parent['/Count']) - 1
         new_doc = update_object(new_doc, int(parent.imag), new_parent, immut=False)
         visited = {parent}
         while '/Parent' in new_parent and new_parent['/Parent'] not in visited:
             p = new_parent['/Parent']
             visited.add(p)
             new_parent = get_object(new_doc, p)
-            new_parent['/Count'] = new_parent['/Count'] - 1
+            new_parent['/Count'] = get_object(new_doc, new_parent['/Count']) - 1
             new_doc = update_object(new_doc, int(p.imag), new_parent, immut=False)
     for ref in del_dep - keep_dep:
         new_doc = update_object(new_doc, int(ref.imag), None, immut=False)
-- 
2.43.0


From 17db594354702784487030884ac27be6f8a6e828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:25 +0000
Subject: [PATCH 58/60] fix: remove_pages keeps the objects that remaining
 pages use through inherited attributes

---
 pdfsyntax/docstruct.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 8a731f3..3f54381 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -845,6 +845,9 @@ def remove_pages(doc: Doc, del_pages) -> Doc:
         del_dep = del_dep | dependencies(new_doc, i)
     for i in keep_ref:
         keep_dep = keep_dep | dependencies(new_doc, i)
+    for i, inherited in pages:
+        if i in keep_ref:
+            keep_dep = keep_dep | dependencies(new_doc, inherited)
     for ref in del_ref:
         parent = get_object(new_doc, ref)['/Parent']
         new_parent = get_object(new_doc, parent)
-- 
2.43.0


From b441321b7cb678fdfdc6d1cc1c95c0f99b4a6809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:27 +0000
Subject: [PATCH 59/60] fix: limit on the number of pages holds across the
 nodes of the page tree

---
 pdfsyntax/docstruct.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 3f54381..aa0ab91 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -324,7 +324,8 @@ def flat_page_tree(doc: Doc, num=None, inherited=None, max_nb=None, ancestors=()
         for kid in get_object(doc, node['/Kids']):
             e = {k: node.get(k) for k in INHERITABLE_ATTRS if node.get(k) is not None}
             inherited.update(e)
-            accu = accu + flat_page_tree(doc, kid, inherited.copy(), max_nb, ancestors + (num,))
+            rest = max_nb - len(accu) if max_nb is not None else None
+            accu = accu + flat_page_tree(doc, kid, inherited.copy(), rest, ancestors + (num,))
             if max_nb is not None and len(accu) == max_nb:
                 return accu
         return accu
-- 
2.43.0


From 805ef38b4f8294cef40e12ec0cf00abba3f97035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:29 +0000
Subject: [PATCH 60/60] fix: pages added by concat do not inherit attributes of
 the other document

---
 pdfsyntax/docstruct.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index aa0ab91..be8ad77 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -784,6 +784,16 @@ def concat(doc_left: Doc, doc_right: Doc, target_left: bool = True) -> Doc:
     pages = get_object(new_doc, pages_iref)
     pcount = get_object(new_doc, pages['/Count'])
     kids = get_object(new_doc, pages['/Kids'])
+    # attributes of the target root must not be inherited by the pages that are added
+    own = {k: pages[k] for k in INHERITABLE_ATTRS if k in pages and k not in source_pages}
+    if own:
+        for kid in kids:
+            node = get_object(new_doc, kid)
+            for k in own:
+                node.setdefault(k, own[k])
+            new_doc = update_object(new_doc, int(kid.imag), node, immut=False)
+        for k in own:
+            del pages[k]
     if target_left:
         kids.append(mapping[source_pages_iref])
     else:
-- 
2.43.0

