From 1957c26fdbdc3f426c00971b6cc2fb47e1b2a43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:44 +0000
Subject: [PATCH 01/42] fix: read complex nodal results (RVNODDIS/VEL/ACC) in
 full

The record holds nfield - 5 floats for real and complex results alike; only
half of a complex record was read, the rest was lost (and on formatted files
parsed as the next header).
---
 freesif/sequentialparser/parsers.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index a1b33bd..3a75177 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -1887,9 +1887,9 @@ atoms['RVNODACC'] = [('acc', tb.Float32Atom(), ())]
 atoms['RVNODDIS'] = [('dis', tb.Float32Atom(), ())]
 atoms['RVNODVEL'] = [('vel', tb.Float32Atom(), ())]
 
-# each row in a 'rvnodres' vlarray will have nres 32-bit floats, where
-# nres = (nfield - 5) / (icompl + 1). If results are complex the dtype should
-# be changed from float32 to complex64 before use
+# each row in a 'rvnodres' vlarray will have nres*(icompl + 1) 32-bit floats,
+# where nres = (nfield - 5) / (icompl + 1). If results are complex the dtype
+# should be changed from float32 to complex64 before use
 
 
 def rvnodres_reader(rec_name, rec, in_file, out_file):
@@ -1903,11 +1903,10 @@ def rvnodres_reader(rec_name, rec, in_file, out_file):
 
         rec += in_file.read_floats(1)
         nfield = int(rec[0])
-        ires = int(rec[1])
-        icompl = rdresref_data[ires]
-        nres = (nfield - 5) // (icompl + 1)
 
-        res.add(in_file.read_floats(nres))
+        # a complex result occupies two floats on the record, i.e. the number
+        # of floats is nfield - 5 for both real and complex results
+        res.add(in_file.read_floats(nfield - 5))
         recs.add(rec)
 
         rec_name, rec = in_file.read_headerrec()
-- 
2.43.0


From 0b1aafa588c9997a665a446ec55d2b6c01f48561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:59 +0000
Subject: [PATCH 02/42] fix: store section shear factors and GCHANR radius as
 floats

sfy, sfz and r are real valued; integer columns truncated them.
---
 freesif/sequentialparser/parsers.py | 42 ++++++++++++++---------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index 3a75177..c99d940 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -1009,8 +1009,8 @@ class GBOX_rec(tb.IsDescription):
     t_b = tb.Float32Col(pos=3)
     tt = tb.Float32Col(pos=4)
     by = tb.Float32Col(pos=5)
-    sfy = tb.Int32Col(pos=6)
-    sfz = tb.Int32Col(pos=7)
+    sfy = tb.Float32Col(pos=6)
+    sfz = tb.Float32Col(pos=7)
     nloby = tb.Int32Col(pos=8)
     nlobz = tb.Int32Col(pos=9)
 
@@ -1026,8 +1026,8 @@ class GCHAN_rec(tb.IsDescription):
     ty = tb.Float32Col(pos=2)
     by = tb.Float32Col(pos=3)
     tz = tb.Float32Col(pos=4)
-    sfy = tb.Int32Col(pos=5)
-    sfz = tb.Int32Col(pos=6)
+    sfy = tb.Float32Col(pos=5)
+    sfz = tb.Float32Col(pos=6)
     empty = tb.Int32Col(pos=7)
     k = tb.Int32Col(pos=8)
     nloby = tb.Int32Col(pos=9)
@@ -1045,11 +1045,11 @@ class GCHANR_rec(tb.IsDescription):
     ty = tb.Float32Col(pos=2)
     by = tb.Float32Col(pos=3)
     tz = tb.Float32Col(pos=4)
-    sfy = tb.Int32Col(pos=5)
-    sfz = tb.Int32Col(pos=6)
+    sfy = tb.Float32Col(pos=5)
+    sfz = tb.Float32Col(pos=6)
     empty = tb.Int32Col(pos=7)
     k = tb.Int32Col(pos=8)
-    r = tb.Int32Col(pos=9)
+    r = tb.Float32Col(pos=9)
     nloby = tb.Int32Col(pos=10)
     nlobz = tb.Int32Col(pos=11)
 
@@ -1066,8 +1066,8 @@ class GDOBO_rec(tb.IsDescription):
     by = tb.Float32Col(pos=3)
     tt = tb.Float32Col(pos=4)
     t_b = tb.Float32Col(pos=5)
-    sfy = tb.Int32Col(pos=6)
-    sfz = tb.Int32Col(pos=7)
+    sfy = tb.Float32Col(pos=6)
+    sfz = tb.Float32Col(pos=7)
     nloby = tb.Int32Col(pos=8)
     nlobz = tb.Int32Col(pos=9)
 
@@ -1085,8 +1085,8 @@ class GIORH_rec(tb.IsDescription):
     tt = tb.Float32Col(pos=4)
     bb = tb.Float32Col(pos=5)
     t_b = tb.Float32Col(pos=6)
-    sfy = tb.Int32Col(pos=7)
-    sfz = tb.Int32Col(pos=8)
+    sfy = tb.Float32Col(pos=7)
+    sfz = tb.Float32Col(pos=8)
     nlobyt = tb.Int32Col(pos=9)
     nlobyb = tb.Int32Col(pos=10)
     nlobz = tb.Int32Col(pos=11)
@@ -1105,8 +1105,8 @@ class GIORHR_rec(tb.IsDescription):
     tt = tb.Float32Col(pos=4)
     bb = tb.Float32Col(pos=5)
     t_b = tb.Float32Col(pos=6)
-    sfy = tb.Int32Col(pos=7)
-    sfz = tb.Int32Col(pos=8)
+    sfy = tb.Float32Col(pos=7)
+    sfz = tb.Float32Col(pos=8)
     rt = tb.Float32Col(pos=9)
     rb = tb.Float32Col(pos=10)
     nlobyt = tb.Int32Col(pos=11)
@@ -1125,8 +1125,8 @@ class GLSEC_rec(tb.IsDescription):
     ty = tb.Float32Col(pos=2)
     by = tb.Float32Col(pos=3)
     tz = tb.Float32Col(pos=4)
-    sfy = tb.Int32Col(pos=5)
-    sfz = tb.Int32Col(pos=6)
+    sfy = tb.Float32Col(pos=5)
+    sfz = tb.Float32Col(pos=6)
     k = tb.Float32Col(pos=7)
     nloby = tb.Int32Col(pos=8)
     nlobz = tb.Int32Col(pos=9)
@@ -1143,8 +1143,8 @@ class GLSECR_rec(tb.IsDescription):
     ty = tb.Float32Col(pos=2)
     by = tb.Float32Col(pos=3)
     tz = tb.Float32Col(pos=4)
-    sfy = tb.Int32Col(pos=5)
-    sfz = tb.Int32Col(pos=6)
+    sfy = tb.Float32Col(pos=5)
+    sfz = tb.Float32Col(pos=6)
     k = tb.Float32Col(pos=7)
     r = tb.Float32Col(pos=8)
     nloby = tb.Int32Col(pos=9)
@@ -1161,8 +1161,8 @@ class GPIPE_rec(tb.IsDescription):
     di = tb.Float32Col(pos=1)
     dy = tb.Float32Col(pos=2)
     t = tb.Float32Col(pos=3)
-    sfy = tb.Int32Col(pos=4)
-    sfz = tb.Int32Col(pos=5)
+    sfy = tb.Float32Col(pos=4)
+    sfz = tb.Float32Col(pos=5)
     ncir = tb.Int32Col(pos=6)
     nrad = tb.Int32Col(pos=7)
 
@@ -1182,8 +1182,8 @@ class GUSYI_rec(tb.IsDescription):
     bb = tb.Float32Col(pos=6)
     b2 = tb.Float32Col(pos=7)
     t_b = tb.Float32Col(pos=8)
-    sfy = tb.Int32Col(pos=9)
-    sfz = tb.Int32Col(pos=10)
+    sfy = tb.Float32Col(pos=9)
+    sfz = tb.Float32Col(pos=10)
     nlobyt = tb.Int32Col(pos=11)
     nlobyb = tb.Int32Col(pos=12)
     nlobz = tb.Int32Col(pos=13)
-- 
2.43.0


From 0ea222848798b1baf54098dea6262fe6971a73bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:02 +0000
Subject: [PATCH 03/42] fix: WDRESREF without a direction, frequency or time
 part

Absent parts repeated the row range of the previous record.
---
 freesif/sequentialparser/parsers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index c99d940..359a579 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -2039,6 +2039,8 @@ def wdresref_reader(rec_name, rec, in_file, out_file):
     times = vldata(time_arr)
     recs = recdata(table, dirs, freqs, times)
     while rec_name == 'WDRESREF':
+        for arr in (dirs, freqs, times):
+            arr.add([])  # types not on this record are empty
         for _ in range(int(rec[3])):
             irefty = int(in_file.read_floats(1)[0])
             dat = []
-- 
2.43.0


From ebabebf1498cd00303b13d9fdd728532926c6e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:49 +0000
Subject: [PATCH 04/42] fix: section records without the optional fields

A GIORHR record without nloby/nlobz leaves padding on its last continuation
record, and the reader then consumed the following record as optional fields.
The same happened before a record name that is not on the list of known names.
---
 freesif/sequentialparser/parsers.py         |  6 ++++-
 freesif/sequentialparser/sequentialfiles.py | 29 +++++++++++++--------
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index 359a579..27fb8fb 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -390,7 +390,11 @@ def reader_optionalfields(record_name, descriptor, skipfirst=0, noptf=0):
 
             rec += in_file.read_floats(n_add_fl, skipfirst)
 
-            if not in_file.at_headerrec():
+            if in_file.at_headerrec():
+                # floats left on the last continuation record, if any, are
+                # either optional fields or padding
+                rec += in_file.read_rest()
+            else:
                 rec += in_file.read_floats(noptf, skipfirst)
 
             # pad or remove values to match ncols
diff --git a/freesif/sequentialparser/sequentialfiles.py b/freesif/sequentialparser/sequentialfiles.py
index 85d2aa5..acf0ebe 100644
--- a/freesif/sequentialparser/sequentialfiles.py
+++ b/freesif/sequentialparser/sequentialfiles.py
@@ -145,6 +145,14 @@ class SequentialFile(object):
             self.read_floats(nfloats)  # read remainder of record
             return self.read_headerrec()
 
+    def read_rest(self):
+        """returns tuple of the floats not yet read on the current record"""
+
+        rest = self.floatrest if self.hasrest else ()
+        self.floatrest = ()
+        self.hasrest = False
+        return rest
+
     def get_recordcount(self):
         recs = {}
 
@@ -237,17 +245,16 @@ class UnformattedFile(SequentialFile):
 
     def at_headerrec(self):
         """check if current pos in file is at start of a header record.
+
+        Only relevant for input records, where continuation records have 8
+        leading blanks.
         """
 
         pos = self.f.tell()
-#        rec_name = self.f.read(9)[1:].strip().decode()
-        rec_name = self.f.read(9)[1:].strip()
+        rec_name = self.f.read(9)[1:]
         self.f.seek(pos)
 
-        if not self.hasrest and rec_name in self.allowed_record_names:
-            return True
-
-        return False
+        return rec_name != self._contrec_leadingspace
 
     def strip_recname(self, rec_name):
         return rec_name.decode().strip()
@@ -327,16 +334,16 @@ class FormattedFile(SequentialFile):
 
     def at_headerrec(self):
         """check if current pos in file is at start of a header record.
+
+        Only relevant for input records, where continuation records have 8
+        leading blanks.
         """
 
         pos = self.f.tell()
-        rec_name = self.f.read(8).strip()
+        rec_name = self.f.read(8)
         self.f.seek(pos)
 
-        if not self.hasrest and rec_name in self.allowed_record_names:
-            return True
-
-        return False
+        return rec_name != self._contrec_leadingspace
 
     def strip_recname(self, rec_name):
         return rec_name.strip()
-- 
2.43.0


From 3cd02e00f6b5ec7b0f0cc38ff70b6e8209957f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:16 +0000
Subject: [PATCH 05/42] fix: recognise W1MOTION, W1SFORCE, W2MDRIFT, TDLOAD and
 WINPUT records

Misspelled or absent in the list of record names, so a skipped record without
continuation followed by one of them was taken for a results record with
continuation, and the file was read out of step from there on.
---
 freesif/sequentialparser/sequentialfiles.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/freesif/sequentialparser/sequentialfiles.py b/freesif/sequentialparser/sequentialfiles.py
index acf0ebe..a203903 100644
--- a/freesif/sequentialparser/sequentialfiles.py
+++ b/freesif/sequentialparser/sequentialfiles.py
@@ -36,12 +36,13 @@ allowed_record_names_str = set([
 'RSUMMASS', 'RSUMREAC', 'RSUPTRAN', 'RVABSCIS', 'RVELNFOR', 'RVFORCES',
 'RVNODACC', 'RVNODDIS', 'RVNODVEL', 'RVNODREA', 'RVORDINA', 'RVSTRAIN',
 'RVSTRESS', 'TNODE', 'TELEMENT', 'TDRESREF', 'TDSERIES', 'TDSUPNAM',
-'W1EXFORC', 'W1MATRIX', 'WIMOTION','WISFORCE', 'W2EXFDIF', 'W2EXFSUM',
-'W2FLUDIF', 'W2FLUSUM', 'W2HDRIFT', 'W2MDRIFI', 'WBODCON', 'WBODY', 'WDRESREF',
+'W1EXFORC', 'W1MATRIX', 'W1MOTION', 'W1SFORCE', 'W2EXFDIF', 'W2EXFSUM',
+'W2FLUDIF', 'W2FLUSUM', 'W2HDRIFT', 'W2MDRIFT', 'WBODCON', 'WBODY', 'WDRESREF',
 'WFKPOINT', 'WFLUIDKN', 'WGLOBDEF', 'WGRESPON', 'WSCATTER', 'WSECTION',
 'WSURFACE', 'TDBODNAM', 'TDRSNAM', 'TDSCATTER', 'TDSCONC', 'SCONCEPT',
 'SCONMESH', 'SCONPLIS', 'SPROSELE', 'SPROMATR', 'SPROSEGM', 'SPROHYDR',
-'SPROCODE', 'SPROORIE', 'SPROECCE', 'SPROPILE', 'SPROSOIL', 'IRECSIZE', 'W1PANPRE'])
+'SPROCODE', 'SPROORIE', 'SPROECCE', 'SPROPILE', 'SPROSOIL', 'IRECSIZE', 'W1PANPRE',
+'TDLOAD', 'WINPUT'])
 
 allowed_record_names_b = set([
 b'DATE', b'IDENT', b'IEND', b'TDMATER', b'TDSECT', b'TDSETNAM', b'TDSUPNAM',
@@ -68,12 +69,13 @@ b'RDRESREF', b'RDSERIES', b'RDSTRAIN', b'RDSTRESS', b'RDTRANS', b'RSUMLOAD',
 b'RSUMMASS', b'RSUMREAC', b'RSUPTRAN', b'RVABSCIS', b'RVELNFOR', b'RVFORCES',
 b'RVNODACC', b'RVNODDIS', b'RVNODVEL', b'RVNODREA', b'RVORDINA', b'RVSTRAIN',
 b'RVSTRESS', b'TNODE', b'TELEMENT', b'TDRESREF', b'TDSERIES', b'TDSUPNAM',
-b'W1EXFORC', b'W1MATRIX', b'WIMOTION','WISFORCE', b'W2EXFDIF', b'W2EXFSUM',
-b'W2FLUDIF', b'W2FLUSUM', b'W2HDRIFT', b'W2MDRIFI', b'WBODCON', b'WBODY', b'WDRESREF',
+b'W1EXFORC', b'W1MATRIX', b'W1MOTION', b'W1SFORCE', b'W2EXFDIF', b'W2EXFSUM',
+b'W2FLUDIF', b'W2FLUSUM', b'W2HDRIFT', b'W2MDRIFT', b'WBODCON', b'WBODY', b'WDRESREF',
 b'WFKPOINT', b'WFLUIDKN', b'WGLOBDEF', b'WGRESPON', b'WSCATTER', b'WSECTION',
 b'WSURFACE', b'TDBODNAM', b'TDRSNAM', b'TDSCATTER', b'TDSCONC', b'SCONCEPT',
 b'SCONMESH', b'SCONPLIS', b'SPROSELE', b'SPROMATR', b'SPROSEGM', b'SPROHYDR',
-b'SPROCODE', b'SPROORIE', b'SPROECCE', b'SPROPILE', b'SPROSOIL', b'IRECSIZE', b'W1PANPRE'])
+b'SPROCODE', b'SPROORIE', b'SPROECCE', b'SPROPILE', b'SPROSOIL', b'IRECSIZE', b'W1PANPRE',
+b'TDLOAD', b'WINPUT'])
 
 
 class SequentialFile(object):
-- 
2.43.0


From b8df16bc8a3763cd1144501036ad0f62aba3e7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:19 +0000
Subject: [PATCH 06/42] fix: skip DATE, TEXT and TSLAYER records by their line
 count

With only= these were skipped as numeric records, e.g. a TEXT record with NUL
characters (slowdrift_G1.SIF) raised ValueError.
---
 freesif/sequentialparser/sequentialfiles.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/freesif/sequentialparser/sequentialfiles.py b/freesif/sequentialparser/sequentialfiles.py
index a203903..1733c7f 100644
--- a/freesif/sequentialparser/sequentialfiles.py
+++ b/freesif/sequentialparser/sequentialfiles.py
@@ -120,8 +120,14 @@ class SequentialFile(object):
                 self.read_floatrec()
             return self.read_headerrec()
 
+        # records with text only, on any number of string records:
+        if rec_name in ('DATE', 'TEXT'):
+            for i in range(int(rec[2])):
+                self.read_stringrec()
+            return self.read_headerrec()
+
         # workaround to handle TDxxxxxx records (on unformatted files):
-        if rec_name[:2] == 'TD':
+        if rec_name[:2] == 'TD' or rec_name == 'TSLAYER':
             for i in range(int(rec[2]) // 100):
                 self.read_stringrec()
             for i in range(int(rec[3]) // 100):
-- 
2.43.0


From 5582e9804d3f3e5d3adb0a5ae7ca0c2bf52704db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:40 +0000
Subject: [PATCH 07/42] fix: give first level and intermediate data their
 toplevel reference

File passed the toplevel data as the file instance, so get_nodes(trans='top'
or level) raised HierarchyError for every superelement of a hierarchy read
from Input Interface files.
---
 freesif/data/file.py      | 4 ++--
 freesif/data/strucdata.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index d136794..78cc5ff 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -104,10 +104,10 @@ class File(object):
                 level = subgr._f_getattr('LEVEL')
                 key = gr._v_name + '/' + subgr._v_name
                 if level == 'INTERLEVEL':
-                    self._data[key] = InterLevelData(subgr, data)
+                    self._data[key] = InterLevelData(subgr, self, data)
 
                 elif level == 'FIRSTLEVEL':
-                    self._data[key] = FirstLevelData(subgr, data)
+                    self._data[key] = FirstLevelData(subgr, self, data)
 
         _open_files.add(self)
         self._isopen = True
diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index a279c34..87eeabe 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -321,8 +321,8 @@ class FirstLevelData(StrucData):
             [ 0. ,  0. ,  0. ,  0. ,  1.5,  0. ,  0. ,  0. ,  0. ,  0. ]])
 
 
-    def __init__(self, tbgroup, toplevel=None):
-        super(FirstLevelData, self).__init__(tbgroup, toplevel)
+    def __init__(self, tbgroup, fileinstance, toplevel=None):
+        super(FirstLevelData, self).__init__(tbgroup, fileinstance, toplevel)
         if self._filetype == 'R':
             self._index = tbgroup._f_getattr('INDEX')
 
@@ -461,6 +461,8 @@ class FirstLevelData(StrucData):
                     raise ValueError(
                         'Transformation matrix must have shape (4,4), got '
                         '({},{})'.format(*trans.shape))
+            elif self._has_record('rsuptran') and trans=='top':
+                trans = self._get_record('rsuptran')[0]['t']
             elif self._toplevel:
                 if isinstance(trans, str):
                     if trans == 'top':
@@ -471,8 +473,6 @@ class FirstLevelData(StrucData):
                 elif isinstance(trans, int):
                     trans = self._toplevel.get_transformation(self._seltyp,
                                                               index, trans)
-            elif self._has_record('rsuptran') and trans=='top':
-                trans = self._get_record('rsuptran')[0]['t']
             else:
                 raise HierarchyError(
                     '{0}: No transformation data for trans={1}. {0} has no '
-- 
2.43.0


From e53485ec1f32bb97718b2c0b7bb25724acc4584d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:51 +0000
Subject: [PATCH 08/42] fix: make File iterable

__iter__ returned a dict view, which is not an iterator (TypeError).
---
 freesif/data/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index 78cc5ff..a723798 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -159,7 +159,7 @@ class File(object):
         return s
 
     def __iter__(self):  # NOT dict behaviour! values instead of keys
-        return self.values()
+        return iter(self.values())
 
     def _check_isopen(self):
         if not self._isopen:
-- 
2.43.0


From 01bf5ce713cfdce48e20b33428a9583e911bb352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:54 +0000
Subject: [PATCH 09/42] fix: repr of a File with more than one dataset

The datasets themselves are not sortable, sort by name as __str__ does.
---
 freesif/data/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index a723798..b42c8b1 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -154,7 +154,7 @@ class File(object):
             return '<Closed File object>'
 
         s = ''
-        for d in sorted(self._data.values()):
+        for _, d in sorted(self._data.items()):
             s += '{!r}\n'.format(d)
         return s
 
-- 
2.43.0


From d90c302b1b0d88084104de5b0da64f837a9c897f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:58 +0000
Subject: [PATCH 10/42] fix: close_all_files with open files

File.close removes the file from the set being iterated (RuntimeError).
---
 freesif/data/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index b42c8b1..5493760 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -44,7 +44,7 @@ def open_sif(filename):
 
 def close_all_files():
     global _open_files
-    for f in _open_files:
+    for f in list(_open_files):
         f.close()
     _open_files = set()
 
-- 
2.43.0


From fb19cdad5a4b146d5206a7407240d0d6bddeb957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:02 +0000
Subject: [PATCH 11/42] fix: accept lower case file names throughout

File names are matched case insensitively, but the letter and extension were
then compared as upper case: r1.siu was stored without a known data type and
could not be opened, and lower level files were not looked up.
---
 freesif/data/file.py                 |  2 +-
 freesif/sequentialparser/sif2hdf5.py | 12 +++++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index 5493760..ba305d5 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -39,7 +39,7 @@ def open_sif(filename):
 
     tbfile = sif2hdf5(filename, in_memory=True)
     prefix, letter, idno, ext = parse_sifname(filename)
-    groupname = prefix + letter + idno
+    groupname = prefix + letter.upper() + idno
     return File(tbfile)[groupname]
 
 def close_all_files():
diff --git a/freesif/sequentialparser/sif2hdf5.py b/freesif/sequentialparser/sif2hdf5.py
index d2b8070..89363b7 100644
--- a/freesif/sequentialparser/sif2hdf5.py
+++ b/freesif/sequentialparser/sif2hdf5.py
@@ -198,7 +198,7 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
     parsers.reset()
 
     # filetype identifier (T, L, R or G)
-    filetypeid = letter
+    filetypeid = letter.upper()
 
     # set group name prefix
     if usefileprefix:
@@ -254,14 +254,16 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
         hierarch_table = parsers.get_hierarch_table()
 
         # generate candidate file names
+        # (with the same case as the top level file name)
         fnames = []
         ihref = []
-        if extension in ('SIF', 'SIU'):  # structural results files
+        setcase = str.lower if letter.islower() else str.upper
+        if extension.upper() in ('SIF', 'SIU'):  # structural results files
             for r in hierarch_table[1:]:
                 if r['islevl'] == 1:  # 1st level
                     fnames.append(fileprefix +
-                                  'R' + str(r['iselty']) +
-                                  'H' + str(r['ihref']) +
+                                  setcase('R') + str(r['iselty']) +
+                                  setcase('H') + str(r['ihref']) +
                                   '.' + extension)
                     ihref.append(r['ihref'])
 
@@ -269,7 +271,7 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
             for r in hierarch_table[1:]:
                 if r['indsel'] == 1:  # skip additional repetitions
                     fnames.append(fileprefix +
-                                  'T' + str(r['iselty']) +
+                                  setcase('T') + str(r['iselty']) +
                                   '.' + extension)
                     ihref.append(r['ihref'])
 
-- 
2.43.0


From 440665e763ff9e5bec37e3be5135b2251a49eb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:24 +0000
Subject: [PATCH 12/42] fix: close the files when a conversion fails

The HDF5 file stayed open after e.g. a truncated SIF file, so that a later
conversion to the same HDF5 file was refused.
---
 freesif/sequentialparser/sif2hdf5.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/freesif/sequentialparser/sif2hdf5.py b/freesif/sequentialparser/sif2hdf5.py
index 89363b7..6946bee 100644
--- a/freesif/sequentialparser/sif2hdf5.py
+++ b/freesif/sequentialparser/sif2hdf5.py
@@ -11,6 +11,18 @@ from . import parsers
 from .sequentialfiles import FormattedFile, UnformattedFile
 
 
+def _parse_and_close(in_file, out_file, only):
+    """Parse in_file and close it. Closes out_file too if parsing fails.
+    """
+    try:
+        parsers.parse_file(in_file, out_file, only)
+    except BaseException:
+        out_file.close()
+        raise
+    finally:
+        in_file.close()
+
+
 def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
             prefix='', only=None, in_memory=False):
 
@@ -235,8 +247,7 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
     parsers.set_filetypeid(filetypeid)
 
     # parse first file
-    parsers.parse_file(in_file, out_file, only)
-    in_file.close()
+    _parse_and_close(in_file, out_file, only)
 
     # parse additional lower level files
 
@@ -290,8 +301,7 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
 
                 parsers.reset(reset_toplevel=False)
                 parsers.set_current_ihref(ihref[i])
-                parsers.parse_file(in_file, out_file, only)
-                in_file.close()
+                _parse_and_close(in_file, out_file, only)
 
             else:
                 print('file not found: ' + fname)
-- 
2.43.0


From 43119550e4ff5c182a726f12f7a52687f9dda2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:28 +0000
Subject: [PATCH 13/42] fix: disconnected node results of a model with unused
 nodes

The connectivity was renumbered as if nodes without elements had no results,
so every node after the first unused one got the results of another node.
---
 freesif/data/strucdata.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index 87eeabe..c37d363 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -550,9 +550,11 @@ class FirstLevelData(StrucData):
         ires = set(resrefs['ires'])
 
         data = []
+        resnodes = []  # internal node number of each row of data
         for r in rvnodres.iterrows():
             if r['ires'] in ires and r['iinod'] in nodenumbs:
                 data.append(res[r[start]:r[stop]])  # lookup in res is slow..
+                resnodes.append(r['iinod'])
         data = np.concatenate(data)
 
         # change dtype if complex
@@ -569,8 +571,11 @@ class FirstLevelData(StrucData):
 
         # disconnect
         if disconnected:
+            # nodes not used by any element may have results too
             indices = self._get_nodeindices(sets, kind, disconnected)
-            indices = self._update_connectivity(indices)
+            rows = dict(zip(resnodes[:len(resnodes)//nres],
+                            range(len(resnodes)//nres)))
+            indices = [rows[i + 1] for i in indices]
             axis = 0 if nres == 1 else 1
             return data.take(indices, axis=axis)
 
-- 
2.43.0


From 37675a192621b621067b02bd2dc4b8001d977dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:32 +0000
Subject: [PATCH 14/42] fix: VtuWriter must not reorder the caller's arrays

Connectivity and results were reordered in place, so that writing the same
elements or results a second time wrote them in the wrong order.
---
 freesif/utils/writers.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/freesif/utils/writers.py b/freesif/utils/writers.py
index 27079c9..6c8712f 100644
--- a/freesif/utils/writers.py
+++ b/freesif/utils/writers.py
@@ -41,23 +41,25 @@ numpy2vtk_datatype = {'int8'    : 'Int8',
                       'float64' : 'Float64'}
 
 def _reorder_data(data, offsets, types, indexarr_map):
+    data = data.copy()  # belongs to the caller
     start = 0
     for stop, typ in zip(offsets, types):
         indarr = indexarr_map.get(typ)
         if indarr is not None:
             data[start:stop] = data[start:stop][indarr]
         start = stop
+    return data
 
 def _reorder_connectivity_vtk(cells):
-    """Perform inplace reordering of connectivity array
+    """Returns a reordered copy of the connectivity array
     """
     con, offsets, types = cells
-    _reorder_data(con, offsets, types, sesam2vtk_connectivity)
+    return _reorder_data(con, offsets, types, sesam2vtk_connectivity)
 
 def _reorder_cellpointdata_vtk(resultarr, offsets, types):
-    """Perform inplace reordering of element node results
+    """Returns a reordered copy of element node results
     """
-    _reorder_data(resultarr, offsets, types, sesam2vtk_elemresults)
+    return _reorder_data(resultarr, offsets, types, sesam2vtk_elemresults)
 
 
 class VtuWriter(object):
@@ -106,8 +108,8 @@ class VtuWriter(object):
         self._close_piece()
         self._piece_open = True
 
-        _reorder_connectivity_vtk(cells)
-        connectivity, offsets, types = cells
+        connectivity = _reorder_connectivity_vtk(cells)
+        _, offsets, types = cells
 
         # keep reference to offsets and types
         self._current_offsets = offsets
@@ -146,7 +148,7 @@ class VtuWriter(object):
     def add_data_cellpoints(self, arr, name, compnames=None):
         """
         """
-        _reorder_cellpointdata_vtk(
+        arr = _reorder_cellpointdata_vtk(
             arr, self._current_offsets, self._current_types)
         self.add_data(arr, name, compnames)
 
-- 
2.43.0


From fd84e9b6d12adb355ac9d085edd5c8eb3b372bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:35 +0000
Subject: [PATCH 15/42] fix: escape names written by VtuWriter

A result name with & or < gave a file that is not XML.
---
 freesif/utils/writers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freesif/utils/writers.py b/freesif/utils/writers.py
index 6c8712f..201e02f 100644
--- a/freesif/utils/writers.py
+++ b/freesif/utils/writers.py
@@ -6,6 +6,7 @@
 import numpy as np
 from struct import pack
 from base64 import b64encode
+from xml.sax.saxutils import quoteattr
 
 from ..exceptions import VtkError
 
@@ -229,7 +230,7 @@ class VtuWriter(object):
         s += b'<%s' % tag.encode()
         if kwargs:
             s += b' '
-            s += b' '.join([b'%s="%s"' % (str(k).encode(), str(v).encode())
+            s += b' '.join([b'%s=%s' % (str(k).encode(), quoteattr(str(v)).encode())
                 for k, v in list(kwargs.items())])
         if selfclosing:
             s += b' />\n'
-- 
2.43.0


From a1b0ec408c4820a1a5dc1ca9a782fd7269ec077e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:03 +0000
Subject: [PATCH 16/42] fix: find_elemres_indices for 6-node triangles

---
 freesif/calc/general.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/freesif/calc/general.py b/freesif/calc/general.py
index 2bc5a78..86ff125 100644
--- a/freesif/calc/general.py
+++ b/freesif/calc/general.py
@@ -16,6 +16,11 @@ def absmax(a, axis=None):
     return np.where(-amin > amax, amin, amax)
 
 
+# element node results of 6-node triangles (type 26) follow the perimeter of the
+# element, while their connectivity lists the three corner nodes first
+_elemres_position = {26 : (0, 2, 4, 1, 3, 5)}
+
+
 def find_elemres_indices(pairs, elems, elemnumb, nodenumb):
     """Get indices into array axis representing element node result points
     for a list of external (elementnumber, nodenumber) pairs.
@@ -30,5 +35,10 @@ def find_elemres_indices(pairs, elems, elemnumb, nodenumb):
         elind, = np.where(elemnumb==elno)[0]
         tmp_arr = offset[elind] - nodeind_arr
         tmp_ind = tmp_arr[tmp_arr>0].argmin()
-        indices.append(nodeind_arr[tmp_ind])
+        index = nodeind_arr[tmp_ind]
+        position = _elemres_position.get(eltyp[elind])
+        if position is not None:
+            start = offset[elind] - len(position)
+            index = start + position[index - start]
+        indices.append(index)
     return np.array(indices)
-- 
2.43.0


From 092751b8a8bfea29631560af6332db53ebce4419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:03 +0000
Subject: [PATCH 17/42] fix: do not hand out the internal arrays of HydroData

---
 freesif/data/hydrodata.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/freesif/data/hydrodata.py b/freesif/data/hydrodata.py
index f5df243..cd2e710 100644
--- a/freesif/data/hydrodata.py
+++ b/freesif/data/hydrodata.py
@@ -122,13 +122,13 @@ class HydroData(SifData):
         """Get angular frequencies.
         """
         self._assert_domaintype('frequency')
-        return self._angfreqs
+        return self._angfreqs.copy()
 
     def get_periods(self):
         """Get periods.
         """
         self._assert_domaintype('frequency')
-        return self._periods
+        return self._periods.copy()
 
     def get_directions(self, unit='degrees'):
         """Get wave directions in 'degrees' (default) or 'radians'
@@ -138,7 +138,7 @@ class HydroData(SifData):
         if unit == 'degrees':
             return self._directions * 180. / np.pi
         elif unit == 'radians':
-            return self._directions
+            return self._directions.copy()
         else:
             raise ValueError("unit must be 'degrees' or 'radians'")
 
@@ -146,7 +146,7 @@ class HydroData(SifData):
         """Get time instants.
         """
         self._assert_domaintype('time')
-        return self._timesteps
+        return self._timesteps.copy()
 
     def get_sections(self):
         """Get section definitions
-- 
2.43.0


From 35915208627aa42f2f18764ef19de8daa3dfd24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:07 +0000
Subject: [PATCH 18/42] fix: set names holding quotes and punctuation

---
 freesif/data/helpers.py   | 4 ++--
 freesif/data/strucdata.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/freesif/data/helpers.py b/freesif/data/helpers.py
index b0dde68..468d22f 100644
--- a/freesif/data/helpers.py
+++ b/freesif/data/helpers.py
@@ -9,10 +9,10 @@ import re
 
 from ..exceptions import ConditionError
 
-def getrow(table, condition):
+def getrow(table, condition, condvars=None):
     """Get first row in a tables.Table fulfilling condition
     """
-    for r in table.where(condition):
+    for r in table.where(condition, condvars):
         return r.fetch_all_fields()
     raise ConditionError('Table "{}" has no row fulfilling '
                          'condition'.format(table.name))
diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index c37d363..c4fdcc1 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -41,8 +41,8 @@ class StrucData(SifData):
         setnames = (setnames,) if isinstance(setnames, str) else setnames
         setmembs = []
         for setname in setnames:
-            cond = 'name==b{}'.format(repr(setname))
-            isref = getrow(tdsetnam, cond)['idno']
+            isref = getrow(tdsetnam, 'name==setname',
+                           {'setname': setname.encode()})['idno']
             cond = '(isref=={})&(istype=={})'.format(isref, istype)
             for r in gsetmemb.where(cond):
                 setmembs.append(irmemb[r['irmemb_start']:r['irmemb_stop']])
-- 
2.43.0


From b722b184ef1915b47c28f8dc6eb80d05a00a28c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:07 +0000
Subject: [PATCH 19/42] fix: accept set names as get_setnames returns them

---
 freesif/data/strucdata.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index c4fdcc1..8986da4 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -38,11 +38,14 @@ class StrucData(SifData):
         tdsetnam, tdsetnam_text = self._get_record('tdsetnam')
         gsetmemb, irmemb = self._get_record('gsetmemb')
 
-        setnames = (setnames,) if isinstance(setnames, str) else setnames
+        if isinstance(setnames, (str, bytes)):
+            setnames = (setnames,)
         setmembs = []
         for setname in setnames:
+            if not isinstance(setname, bytes):
+                setname = setname.encode()
             isref = getrow(tdsetnam, 'name==setname',
-                           {'setname': setname.encode()})['idno']
+                           {'setname': setname})['idno']
             cond = '(isref=={})&(istype=={})'.format(isref, istype)
             for r in gsetmemb.where(cond):
                 setmembs.append(irmemb[r['irmemb_start']:r['irmemb_stop']])
-- 
2.43.0


From a8c03b6746a02b3062e69be1271426df7ad6a565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:07 +0000
Subject: [PATCH 20/42] fix: error for a transformation that is not
 two-dimensional

---
 freesif/data/strucdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index 8986da4..ca503cd 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -463,7 +463,7 @@ class FirstLevelData(StrucData):
                 if trans.shape != (4,4):
                     raise ValueError(
                         'Transformation matrix must have shape (4,4), got '
-                        '({},{})'.format(*trans.shape))
+                        '{}'.format(trans.shape))
             elif self._has_record('rsuptran') and trans=='top':
                 trans = self._get_record('rsuptran')[0]['t']
             elif self._toplevel:
-- 
2.43.0


From e0d8610cc39b3c4882acb9a878d064e261ec6ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:52 +0000
Subject: [PATCH 21/42] fix: write big-endian arrays of a vtu file as declared

---
 freesif/utils/writers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freesif/utils/writers.py b/freesif/utils/writers.py
index 201e02f..1a2ffc2 100644
--- a/freesif/utils/writers.py
+++ b/freesif/utils/writers.py
@@ -194,7 +194,8 @@ class VtuWriter(object):
 #        self._file.write(b64encode(arr.T.ravel().tostring(order='F')))
 
         header = pack('<Q', nbytes)
-        arrstr = arr.ravel().tostring()
+        # the file is declared to be little-endian
+        arrstr = arr.astype(arr.dtype.newbyteorder('<')).tobytes()
         self._file.write(b64encode(header + arrstr))
 
         # write newline
-- 
2.43.0


From 4044c5970dda5e1ce357f6831ec891c8dc58d89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:12 +0000
Subject: [PATCH 22/42] fix: forget element types of earlier files

---
 freesif/sequentialparser/parsers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index 27fb8fb..5624cbd 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -107,6 +107,7 @@ record_count = {}
 
 # Dict to hold element type info
 # element_data[elno] = eltyp
+# (should be reset for each in_file)
 elem_data = {}
 
 # Dict to (temporary) hold nlay, nok, noj, noi from the RDPOINTS record.
@@ -139,7 +140,7 @@ def reset(reset_toplevel=True):
     global rec_size, current_ihref, current_seltyp, tables, record_names, \
         rdpoints_data, nsp_data, rdresref_data, lenrec_data, has_hierarch, \
         hierarch_table, record_count, attoplevel, filetypeid, current_indsel, \
-        current_hrec, hierarch_ihsref, toplevel_hrec
+        current_hrec, hierarch_ihsref, toplevel_hrec, elem_data
 
     rec_size = 1024
     current_ihref = None
@@ -149,6 +150,7 @@ def reset(reset_toplevel=True):
     attoplevel = False
     tables = {}
     record_names = []
+    elem_data = {}
     rdpoints_data = {}
     nsp_data = {}
     rdresref_data = {}
-- 
2.43.0


From c9dc72b00118d76b0ee584de4209401256695dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:40 +0000
Subject: [PATCH 23/42] fix: VtuWriter.add_data_cellpoints raises VtkError when
 no section is open

Before the first piece it failed with a TypeError instead.
---
 freesif/utils/writers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/freesif/utils/writers.py b/freesif/utils/writers.py
index 1a2ffc2..fa2156d 100644
--- a/freesif/utils/writers.py
+++ b/freesif/utils/writers.py
@@ -142,13 +142,13 @@ class VtuWriter(object):
     def add_data(self, arr, name, compnames=None):
         """
         """
-        if not self._pointdata_open and not self._celldata_open:
-            raise VtkError('Call start_pointdata() or start_celldata() first')
+        self._check_data_open()
         self._write_array(arr, name, compnames)
 
     def add_data_cellpoints(self, arr, name, compnames=None):
         """
         """
+        self._check_data_open()
         arr = _reorder_cellpointdata_vtk(
             arr, self._current_offsets, self._current_types)
         self.add_data(arr, name, compnames)
@@ -161,6 +161,10 @@ class VtuWriter(object):
         self._close_element('VTKFile')
         self._file.close()
 
+    def _check_data_open(self):
+        if not self._pointdata_open and not self._celldata_open:
+            raise VtkError('Call start_pointdata() or start_celldata() first')
+
     def _write_array(self, arr, name, compnames=None):
 
         # accept 1d or 2d array
-- 
2.43.0


From 6be29bbef6861f7197ff584b734cdfeec1b3b186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:29 +0000
Subject: [PATCH 24/42] fix: section forces of a body when several bodies have
 sections

---
 freesif/data/hydrodata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freesif/data/hydrodata.py b/freesif/data/hydrodata.py
index cd2e710..c4c04f3 100644
--- a/freesif/data/hydrodata.py
+++ b/freesif/data/hydrodata.py
@@ -255,7 +255,8 @@ class HydroData(SifData):
         data = self._get_results('w1sforce', bodyid, 'data')
 
         # reshape data to (section, dof, direction, frequency)
-        data.shape = (self._nsections, self._ndirs, self._nfreqs, 6)
+        # (other bodies may have sections too)
+        data.shape = (-1, self._ndirs, self._nfreqs, 6)
         return np.rollaxis(data, 3, 1)
 
     def get_fluidkinematics_raos(self, kind='elevation'):
-- 
2.43.0


From e330bc1036ce4322a9fe29c3ea625baf5885f019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:36 +0000
Subject: [PATCH 25/42] fix: find_elemres_indices returned another element's
 position for a node the element does not have

---
 freesif/calc/general.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/freesif/calc/general.py b/freesif/calc/general.py
index 86ff125..bdd431b 100644
--- a/freesif/calc/general.py
+++ b/freesif/calc/general.py
@@ -33,6 +33,9 @@ def find_elemres_indices(pairs, elems, elemnumb, nodenumb):
     for elno, nodeno in pairs:
         nodeind_arr, = np.where(nodenumb==nodeno)
         elind, = np.where(elemnumb==elno)[0]
+        start = offset[elind-1] if elind > 0 else 0
+        if nodeno not in nodenumb[start:offset[elind]]:
+            raise ValueError('element {} has no node {}'.format(elno, nodeno))
         tmp_arr = offset[elind] - nodeind_arr
         tmp_ind = tmp_arr[tmp_arr>0].argmin()
         index = nodeind_arr[tmp_ind]
-- 
2.43.0


From d3dd7784587df8db892ab6285f1284762f060be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:07 +0000
Subject: [PATCH 26/42] fix: signed extreme of integer arrays with the lowest
 value of their type or unsigned

---
 freesif/calc/general.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freesif/calc/general.py b/freesif/calc/general.py
index bdd431b..d2c0796 100644
--- a/freesif/calc/general.py
+++ b/freesif/calc/general.py
@@ -13,7 +13,8 @@ def absmax(a, axis=None):
     """
     amax = a.max(axis)
     amin = a.min(axis)
-    return np.where(-amin > amax, amin, amax)
+    # (the largest magnitude of integers has no positive value of their type)
+    return np.where((amin < 0) & (amin < -amax), amin, amax)
 
 
 # element node results of 6-node triangles (type 26) follow the perimeter of the
-- 
2.43.0


From 33c29531e32ebeb9db2898d43e102bd957c9898a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 27/42] fix: file names without a dot or with more after the
 extension were accepted

---
 freesif/data/helpers.py              | 4 ++--
 freesif/sequentialparser/sif2hdf5.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/freesif/data/helpers.py b/freesif/data/helpers.py
index 468d22f..aac14e7 100644
--- a/freesif/data/helpers.py
+++ b/freesif/data/helpers.py
@@ -34,8 +34,8 @@ def parse_sifname(filename):
     name_pattern = '(?i)(?P<prefix>[\w-]*?)' + \
                    '(?P<letter>[rtgl])' + \
                    '(?P<selno>[1-9]\d*)' + \
-                   '(H[1-9]\d*)?.' + \
-                   '(?P<ext>(si[fun]|fem))'
+                   '(H[1-9]\d*)?\.' + \
+                   '(?P<ext>(si[fun]|fem))$'
 
     match = re.match(name_pattern, fname)
 
diff --git a/freesif/sequentialparser/sif2hdf5.py b/freesif/sequentialparser/sif2hdf5.py
index 6946bee..ae568fa 100644
--- a/freesif/sequentialparser/sif2hdf5.py
+++ b/freesif/sequentialparser/sif2hdf5.py
@@ -190,8 +190,8 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
 
     name_pattern = '(?i)(?P<prefix>[\w-]*?)' + \
                    '(?P<letter>[rtgl])' + \
-                   '[1-9]\d*(H[1-9]\d*)?.' + \
-                   '(?P<ext>(si[fun]|fem))'
+                   '[1-9]\d*(H[1-9]\d*)?\.' + \
+                   '(?P<ext>(si[fun]|fem))$'
 
     match = re.match(name_pattern, fname)
 
-- 
2.43.0


From c350121bed10377288ff82d856a5af8b7076f78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:13 +0000
Subject: [PATCH 28/42] fix: open_sif of a link with another name raised
 KeyError

---
 freesif/data/file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index ba305d5..d4b748e 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -38,7 +38,8 @@ def open_sif(filename):
     # at the same time.
 
     tbfile = sif2hdf5(filename, in_memory=True)
-    prefix, letter, idno, ext = parse_sifname(filename)
+    # (a link gives the data set the name of the file it points at)
+    prefix, letter, idno, ext = parse_sifname(path.realpath(filename))
     groupname = prefix + letter.upper() + idno
     return File(tbfile)[groupname]
 
-- 
2.43.0


From 0cf13684125b171ec820ee26d5199b9cfac17f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:46 +0000
Subject: [PATCH 29/42] fix: principal stresses of thick shells could become
 complex (ComplexWarning)

---
 freesif/calc/principal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/calc/principal.py b/freesif/calc/principal.py
index ff8c860..ef2ada5 100644
--- a/freesif/calc/principal.py
+++ b/freesif/calc/principal.py
@@ -51,7 +51,7 @@ def principal_thickshell(arr):
     s.shape = s.shape[:-1] + (3,3)
 
     # solve eigenproblem
-    p,v = np.linalg.eig(s)
+    p = np.linalg.eigvalsh(s)
 
     # remove mid value
     arem = np.argmin(np.abs(p), axis=-1)
-- 
2.43.0


From 38ef9d4b66d3c23ad3e5ad835db79c4c823dad20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:02 +0000
Subject: [PATCH 30/42] fix: principal and von Mises stresses of integer arrays
 were wrong where squares overflow

---
 freesif/calc/principal.py | 7 ++++---
 freesif/calc/vonmises.py  | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/freesif/calc/principal.py b/freesif/calc/principal.py
index ef2ada5..41278fc 100644
--- a/freesif/calc/principal.py
+++ b/freesif/calc/principal.py
@@ -19,9 +19,10 @@ def principal2d(arr):
     Returns a (...,2) shape array with P1 and P2 on the last axis.
     """
 
-    sxx = arr[...,0]
-    syy = arr[...,1]
-    txy = arr[...,2]
+    # (floats, as the squares may exceed the range of integers)
+    sxx = arr[...,0] * 1.
+    syy = arr[...,1] * 1.
+    txy = arr[...,2] * 1.
     part1 = (sxx + syy) / 2
     part2 = 0.5*np.sqrt((sxx - syy)**2 + 4*txy**2)
     p1 = part1 + part2
diff --git a/freesif/calc/vonmises.py b/freesif/calc/vonmises.py
index 8e4d2b2..6634df5 100644
--- a/freesif/calc/vonmises.py
+++ b/freesif/calc/vonmises.py
@@ -16,9 +16,10 @@ def vonmises2d(arr):
 
     Returns a arr.shape[:-1] shape array with the calculated von Mises stress.
     """
-    sxx = arr[...,0]
-    syy = arr[...,1]
-    txy = arr[...,2]
+    # (floats, as the squares may exceed the range of integers)
+    sxx = arr[...,0] * 1.
+    syy = arr[...,1] * 1.
+    txy = arr[...,2] * 1.
     return np.sqrt(sxx**2 + syy**2 - sxx*syy + 3*txy**2)
 
 
-- 
2.43.0


From a1bf3405bee0aeebcc9cf6f5424bf51ac6fb3cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:02 +0000
Subject: [PATCH 31/42] fix: a result case number of a numpy integer type
 raised TypeError

---
 freesif/data/strucdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index ca503cd..84f92ed 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -164,7 +164,7 @@ class StrucData(SifData):
 
         if isinstance(rescases, (list, tuple, np.ndarray)):
             rescases = set(rescases)
-        elif isinstance(rescases, int):
+        elif isinstance(rescases, (int, np.integer)):
             rescases = set([rescases])
         elif rescases is None:
             indices = rdresref.get_where_list('irno=={}'.format(run))
-- 
2.43.0


From 0bf3a7e22b0351cde5668ede7eab0c7e27180bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:02 +0000
Subject: [PATCH 32/42] fix: get_nodes scaled the coordinates when trans was a
 level of a numpy integer type or a float

---
 freesif/data/strucdata.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index 84f92ed..43732fb 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -473,9 +473,12 @@ class FirstLevelData(StrucData):
                                                                   index, 'top')
                     else:
                         raise ValueError('legal string argument: "top"')
-                elif isinstance(trans, int):
+                elif isinstance(trans, (int, np.integer)):
                     trans = self._toplevel.get_transformation(self._seltyp,
                                                               index, trans)
+                elif np.ndim(trans) == 0:  # would scale the coordinates
+                    raise ValueError('trans must be a matrix, a level (int) '
+                                     'or "top", got {!r}'.format(trans))
             else:
                 raise HierarchyError(
                     '{0}: No transformation data for trans={1}. {0} has no '
-- 
2.43.0


From dd78b773bf50bd4f3f2cae9309c1f494eff1419a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:21 +0000
Subject: [PATCH 33/42] fix: VtuWriter.new_piece left a broken file behind when
 it raised for an element type

---
 freesif/utils/writers.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/freesif/utils/writers.py b/freesif/utils/writers.py
index fa2156d..dc9e89b 100644
--- a/freesif/utils/writers.py
+++ b/freesif/utils/writers.py
@@ -105,19 +105,18 @@ class VtuWriter(object):
     def new_piece(self, points, cells):
         """
         """
+        connectivity = _reorder_connectivity_vtk(cells)
+        _, offsets, types = cells
+        typeids = typeidmapper(types)  # raises if there is an unknown type
+
         self._close_data()
         self._close_piece()
         self._piece_open = True
 
-        connectivity = _reorder_connectivity_vtk(cells)
-        _, offsets, types = cells
-
         # keep reference to offsets and types
         self._current_offsets = offsets
         self._current_types = types
 
-        types = typeidmapper(types)
-
         self._open_element('Piece', NumberOfPoints=len(points),
                            NumberOfCells=len(offsets))
 
@@ -130,7 +129,7 @@ class VtuWriter(object):
         self._open_element('Cells')
         self._write_array(connectivity, 'connectivity')
         self._write_array(offsets, 'offsets')
-        self._write_array(types, 'types')
+        self._write_array(typeids, 'types')
         self._close_element('Cells')
 
     def start_pointdata(self):
-- 
2.43.0


From 8456399da716c3e7ba17e1228f941790b14a3594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:44 +0000
Subject: [PATCH 34/42] fix: an unsupported record followed by one with an
 unknown name was skipped wrongly

---
 freesif/sequentialparser/sequentialfiles.py | 23 ++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/freesif/sequentialparser/sequentialfiles.py b/freesif/sequentialparser/sequentialfiles.py
index 1733c7f..e69a757 100644
--- a/freesif/sequentialparser/sequentialfiles.py
+++ b/freesif/sequentialparser/sequentialfiles.py
@@ -6,6 +6,7 @@ files.
 
 from __future__ import division
 
+import re
 import struct
 from math import ceil
 import io
@@ -144,7 +145,7 @@ class SequentialFile(object):
 #            return string_rec[:8].decode().strip(), self.tofloatrec(string_rec[8:])
             return self.skip_contrecs(string_rec)
 
-        elif string_rec[:8].strip() in self.allowed_record_names: # no cont. records
+        elif self.is_headerrec(string_rec, rec[0] - 4):  # no cont. records
             return self.strip_recname(string_rec[:8]), self.tofloatrec(string_rec[8:])
 
         else:  # type 2 record
@@ -264,6 +265,19 @@ class UnformattedFile(SequentialFile):
 
         return rec_name != self._contrec_leadingspace
 
+    def is_headerrec(self, string_rec, nfloats):
+        """check if string_rec, which is no type 1 continuation record, is a
+        header record rather than the type 2 continuation record for nfloats
+        floats.
+        """
+
+        if string_rec[:8].strip() in self.allowed_record_names:
+            return True
+
+        # other record names exist too
+        return (len(string_rec) == 24 and 4*min(nfloats, 32) != 24 and
+                re.match(br'[A-Z][A-Z0-9]* *$', string_rec[:8]) is not None)
+
     def strip_recname(self, rec_name):
         return rec_name.decode().strip()
 
@@ -353,6 +367,13 @@ class FormattedFile(SequentialFile):
 
         return rec_name != self._contrec_leadingspace
 
+    def is_headerrec(self, string_rec, nfloats):
+        """check if string_rec, which is no type 1 continuation record, is a
+        header record. On formatted files all such records are.
+        """
+
+        return True
+
     def strip_recname(self, rec_name):
         return rec_name.strip()
 
-- 
2.43.0


From 6535f488abab97eb643633f36c89bd78cbf89096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:12 +0000
Subject: [PATCH 35/42] fix: everything behind a record with more continuation
 records than known was lost

---
 freesif/sequentialparser/parsers.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index 5624cbd..2991678 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -453,18 +453,15 @@ def parse_file(in_file, out_file, only=None):
 
     rec_name, rec = in_file.read_headerrec()
 
-    if only:
-        while rec_name:
-            if rec_name in only:
-                rec_name, rec = general_parser(rec_name, rec, in_file,
-                                                  out_file)
-            else:
-                skip_rec_name = rec_name
-                while rec_name == skip_rec_name:
-                    rec_name, rec = in_file.skip_restofrecord(rec_name, rec)
-    else:
-        while rec_name:
+    while rec_name or rec:
+        if not rec_name:  # continuation record beyond the fields known
+            rec_name, rec = in_file.read_headerrec()
+        elif not only or rec_name in only:
             rec_name, rec = general_parser(rec_name, rec, in_file, out_file)
+        else:
+            skip_rec_name = rec_name
+            while rec_name == skip_rec_name:
+                rec_name, rec = in_file.skip_restofrecord(rec_name, rec)
 
     # set attributes on superelement group
     # ------------------------------------
-- 
2.43.0


From ec584b51b150ff55b3f51fc5344eff582460d59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:12 +0000
Subject: [PATCH 36/42] fix: SCONMESH records with several representations were
 misread unless they came first

---
 freesif/sequentialparser/parsers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index 2991678..6fab477 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -1335,16 +1335,16 @@ atoms['SCONMESH'] = [('irferep', tb.Int32Atom(), ())]
 def sconmesh_reader(rec_name, rec, in_file, out_file):
     """..."""
 
-    # assume numrep is allways 1. Throw NotImplementedError if above 1
-    if int(rec[2]) > 1:
-        raise NotImplementedError('SCONMESH: NUMREP > 1 not implemented')
-
     table, irferep_arr = get_table(rec_name, out_file)
     irfereps = vldata(irferep_arr)
     recs = recdata(table, irfereps)
 
     while rec_name == 'SCONMESH':
 
+        # assume numrep is allways 1. Throw NotImplementedError if above 1
+        if int(rec[2]) > 1:
+            raise NotImplementedError('SCONMESH: NUMREP > 1 not implemented')
+
         rec += in_file.read_floats(1)
 
         nferep = int(rec[4])
-- 
2.43.0


From d438f513bd2b9c269b1df17a1d5781aab8334229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:12 +0000
Subject: [PATCH 37/42] fix: an RDIELCOR record without its RDPOINTS was read
 with the dimensions of another one

---
 freesif/sequentialparser/parsers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index 6fab477..623e08d 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -1751,6 +1751,9 @@ def rdielcor_reader(rec_name, rec, in_file, out_file):
                 nlay, nok, noj, noi = 0, 1, 1, 3
             elif icoref == 24:  # Flat Quadrilateral Thin Shell
                 nlay, nok, noj, noi = 0, 2, 3, 3
+            else:
+                raise NotImplementedError('RDIELCOR: no RDPOINTS record for '
+                                          'ICOREF {}'.format(icoref))
 
         # gamma
         if nok == 1:
-- 
2.43.0


From 46b2b9e66676267022a074179dd891f058897796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:30 +0000
Subject: [PATCH 38/42] fix: a file that cannot be opened as data stayed open

---
 freesif/data/file.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index d4b748e..b0e34c3 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -41,7 +41,12 @@ def open_sif(filename):
     # (a link gives the data set the name of the file it points at)
     prefix, letter, idno, ext = parse_sifname(path.realpath(filename))
     groupname = prefix + letter.upper() + idno
-    return File(tbfile)[groupname]
+    f = File(tbfile)
+    try:
+        return f[groupname]
+    except KeyError:
+        f.close()
+        raise
 
 def close_all_files():
     global _open_files
@@ -82,6 +87,18 @@ class File(object):
             self.filename = self._tbfile.filename
 
         self._data = {}
+        try:
+            self._read_groups()
+        except BaseException:
+            self._tbfile.close()
+            raise
+
+        _open_files.add(self)
+        self._isopen = True
+
+    def _read_groups(self):
+        """Make the data objects
+        """
         # loop over independent (top level or non-hierarhcy) groups
         for gr in self._tbfile.root._f_iter_nodes('Group'):
 
@@ -110,9 +127,6 @@ class File(object):
                 elif level == 'FIRSTLEVEL':
                     self._data[key] = FirstLevelData(subgr, self, data)
 
-        _open_files.add(self)
-        self._isopen = True
-
     def __getitem__(self, name):  # dict interface
         self._check_isopen()
         return self._data[name]
-- 
2.43.0


From 4783e057835f5123057dad49a9b9ad7529aa96ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:30 +0000
Subject: [PATCH 39/42] fix: files of a sequence were left out if there were
 fewer prefixes than files

---
 freesif/sequentialparser/sif2hdf5.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/freesif/sequentialparser/sif2hdf5.py b/freesif/sequentialparser/sif2hdf5.py
index ae568fa..1881473 100644
--- a/freesif/sequentialparser/sif2hdf5.py
+++ b/freesif/sequentialparser/sif2hdf5.py
@@ -169,6 +169,9 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
         elif isinstance(prefix, str):
             prefix = [prefix for _ in sifname]
 
+        elif len(prefix) != len(sifname):
+            raise ValueError('prefix must have one element for each file name')
+
         if hdf5name:
             sif2hdf5(sifname[0], hdf5name, append, usefileprefix, prefix[0],
                      only)
-- 
2.43.0


From 4d4d136b723090a99cbfb0ea2a7dc87309e7c03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:19 +0000
Subject: [PATCH 40/42] fix: superelements of a hierarchy were mixed up if
 their references are not their places in the list

---
 freesif/sequentialparser/parsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index 623e08d..adbf96e 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -236,7 +236,7 @@ def set_current_ihref(ihref):
     global current_ihref, current_hrec, current_indsel
     current_ihref = ihref
     if has_hierarch:
-        current_hrec = hierarch_table[ihref-1]
+        current_hrec = hierarch_table.read_where('ihref=={}'.format(ihref))[0]
         if filetypeid == 'R':
             current_indsel = current_hrec['indsel']
 
-- 
2.43.0


From 91d91f8ab90e03858160e66b7763784e23d0d0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:13 +0000
Subject: [PATCH 41/42] fix: find the encoding of every file of a hierarchy by
 itself

The encoding of the top level file was used for the files of all lower
levels, so a hierarchy with files of both encodings could not be
converted.
---
 freesif/sequentialparser/sif2hdf5.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/freesif/sequentialparser/sif2hdf5.py b/freesif/sequentialparser/sif2hdf5.py
index 1881473..859cc6d 100644
--- a/freesif/sequentialparser/sif2hdf5.py
+++ b/freesif/sequentialparser/sif2hdf5.py
@@ -11,6 +11,16 @@ from . import parsers
 from .sequentialfiles import FormattedFile, UnformattedFile
 
 
+def _open_sequential(fname):
+    """Open a formatted or unformatted file
+    """
+    # determine formatting
+    with open(fname, 'rb') as f:
+        is_unformatted = f.read(1) == b'K'
+
+    return UnformattedFile(fname) if is_unformatted else FormattedFile(fname)
+
+
 def _parse_and_close(in_file, out_file, only):
     """Parse in_file and close it. Closes out_file too if parsing fails.
     """
@@ -225,18 +235,8 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
     if not hdf5name or in_memory:
         hdf5name = fname[:-3] + 'h5'
 
-    # determine formatting
-    with open(sifname, 'rb') as f:
-        if f.read(1) == b'K':  # file is unformatted
-            is_formatted = False
-        else:
-            is_formatted = True
-
     # open files
-    if is_formatted:
-        in_file = FormattedFile(sifname)
-    else:
-        in_file = UnformattedFile(sifname)
+    in_file = _open_sequential(sifname)
 
     if in_memory:
         out_file = tb.open_file(hdf5name, 'w', driver='H5FD_CORE',
@@ -297,10 +297,7 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
         for i, fname in enumerate(fnames):
             fname_fullpath = path.join(fdir, fname)
             if path.isfile(fname_fullpath):
-                if is_formatted:
-                    in_file = FormattedFile(fname_fullpath)
-                else:
-                    in_file = UnformattedFile(fname_fullpath)
+                in_file = _open_sequential(fname_fullpath)
 
                 parsers.reset(reset_toplevel=False)
                 parsers.set_current_ihref(ihref[i])
-- 
2.43.0


From af96550958a52df9b029b3657da133ca48e8890d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:34 +0000
Subject: [PATCH 42/42] fix: nodes of a model without elements

The coordinates of all nodes were refused for a data set without elements,
and the numbers of the nodes of elements for one without coordinates,
though these records are not needed for the answer.
---
 freesif/data/strucdata.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index 43732fb..0b677ae 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -137,9 +137,6 @@ class StrucData(SifData):
     def _get_nodeindices(self, sets=None, kind=None, disconnected=False):
         """Get (zero-based) indices into gnode/gcoord table
         """
-        gcoord = self._get_record('gcoord')
-        gelmnt1, nodin = self._get_record('gelmnt1')
-
         if sets or kind:
             elemindices = self._get_elementindices(sets, kind)
             con, _ = self._get_connectivity(elemindices)
@@ -150,8 +147,10 @@ class StrucData(SifData):
                 return np.unique(con)
         else:
             if disconnected:
+                gelmnt1, nodin = self._get_record('gelmnt1')
                 return nodin[:] - 1
             else:
+                gcoord = self._get_record('gcoord')
                 return np.arange(len(gcoord))
 
     def _get_resrefs(self, run=1, rescases=None):
-- 
2.43.0

