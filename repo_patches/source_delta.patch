From 00f82e0a2a77c4fd46a703ec0960e7e21470f31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:42 +0000
Subject: [PATCH 01/79] fix: TRDI ensemble numbers above 65535 (MSB counts
 65536)

The rollover byte of the ensemble number is worth 65536, so every ensemble
after the first rollover was numbered one too low.
---
 dolfyn/io/rdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 80f2fc8..30d6eca 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -840,7 +840,7 @@ class _RDIReader():
                            'adc']
         ens.number[k] = fd.read_ui16(1)
         ens.rtc[:, k] = fd.read_ui8(7)
-        ens.number[k] += 65535 * fd.read_ui8(1)
+        ens.number[k] += 65536 * int(fd.read_ui8(1))
         ens.builtin_test_fail[k] = fd.read_ui16(1)
         ens.c_sound[k] = fd.read_ui16(1)
         ens.depth[k] = fd.read_ui16(1) * 0.1
-- 
2.43.0


From d5d5eb4c99ab540ef6dcb7be5331d1b929f530fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:42 +0000
Subject: [PATCH 02/79] fix: TRDI values of one ensemble leak into the next

The ensemble buffer was never cleared: when an ensemble has fewer cells than
an earlier one, or lacks a data block, the values of the previous ensemble
were stored again as if they had been measured. Integer variables that first
appear in the middle of a file started with uninitialised memory.
---
 dolfyn/io/rdi.py      |  2 ++
 dolfyn/io/rdi_defs.py | 10 +++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 30d6eca..13c8382 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -432,6 +432,8 @@ class _RDIReader():
             if not self.search_buffer():
                 return False
             startpos = fd.tell() - 2
+            if self.ensemble.k < 0:
+                self.ensemble.reset()
             self.read_hdrseg()
             if self._debug_level >= 0:
                 logging.info('Read Header', hdr)
diff --git a/dolfyn/io/rdi_defs.py b/dolfyn/io/rdi_defs.py
index 8c65812..50351f6 100644
--- a/dolfyn/io/rdi_defs.py
+++ b/dolfyn/io/rdi_defs.py
@@ -140,7 +140,7 @@ def _idata(dat, nm, sz):
     units = data_defs[nm][3]
     long_name = data_defs[nm][4]
     standard_name = data_defs[nm][5]
-    arr = np.empty(sz, dtype=dtype)
+    arr = np.zeros(sz, dtype=dtype)
     if dtype.startswith('float'):
         arr[:] = np.NaN
     dat[group][nm] = arr
@@ -185,5 +185,13 @@ class _ensemble():
                     np.zeros(_get_size(nm, n=navg, ncell=n_cells),
                              dtype=data_defs[nm][2]))
 
+    def reset(self,):
+        """Forget the values of the previous ensemble"""
+        for nm in data_defs:
+            if data_defs[nm][2].startswith('float'):
+                self[nm][...] = np.NaN
+            else:
+                self[nm][...] = 0
+
     def clean_data(self,):
         self['vel'][self['vel'] == -32.768] = np.NaN
-- 
2.43.0


From 353e7b8df25895eb970187a0152c447ec65c01f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:14 +0000
Subject: [PATCH 03/79] fix: TRDI variables that appear after the number of
 cells grew

Only the variables seen so far were enlarged, so a profile variable first
seen in a later ensemble no longer fitted and the read failed.
---
 dolfyn/io/rdi.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 13c8382..4c80dbb 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -198,7 +198,6 @@ class _RDIReader():
         self._debug_level = debug_level
         self._vmdas_search = vmdas_search
         self._winrivprob = winriver
-        self.flag = 0
         self.cfg = {}
         self.cfgbb = {}
         self.hdr = {}
@@ -346,19 +345,16 @@ class _RDIReader():
                     ds = defs._get(dat, nm)
                     bn = self.mean(en[nm])
                     # Check that
-                    # 1. n_cells has changed,
-                    # 2. nm is a beam variable
-                    # 3. n_cells is greater than any previous
-                    if self.flag > 0 and len(ds.shape) == 3 and (ds.shape[0] != bn.shape[0]):
+                    # 1. nm is a beam variable
+                    # 2. n_cells is greater than any previous
+                    if len(ds.shape) == 3 and (ds.shape[0] < bn.shape[0]):
                         # increase the size of original dataset
-                        a = np.empty(
-                            (self.flag, ds.shape[1], ds.shape[2]))*np.nan
+                        a = np.empty((bn.shape[0] - ds.shape[0],
+                                      ds.shape[1], ds.shape[2]))*np.nan
                         ds = np.append(ds, a, axis=0)
                         defs._setd(dat, nm, ds)
                     # Copy the ensemble to the dataset.
                     ds[..., iens] = bn
-                # reset after all variables run
-                self.flag = 0
 
                 try:
                     dates = tmlib.date2epoch(
@@ -715,8 +711,8 @@ class _RDIReader():
         if hasattr(self, 'ensemble') and (self.ensemble['n_cells'] != self.cfg['n_cells']):
             diff = self.cfg['n_cells'] - self.ensemble['n_cells']
             if diff > 0:
-                self.flag = diff
                 self.ensemble = defs._ensemble(self.n_avg, self.cfg['n_cells'])
+                self.ensemble.reset()
                 # Not concerned if # of cells decreases
                 if self._debug_level >= 1:
                     logging.warning('Number of cells changed to {}'
-- 
2.43.0


From 897b186cb3e27a580baae814757e14271ceb9b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:14 +0000
Subject: [PATCH 04/79] fix: TRDI files that end inside an ensemble

A file cut off one byte into a header, or after the header bytes of its last
ensemble, could not be read at all (the incomplete integer was unpacked or
compared), and a header whose length points past the end of the file ended
the search for later ensembles.
---
 dolfyn/io/rdi.py     | 13 +++++++++++--
 dolfyn/io/rdi_lib.py |  3 ++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 4c80dbb..144e120 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -254,7 +254,10 @@ class _RDIReader():
 
     def read_hdr(self,):
         fd = self.f
-        cfgid = list(fd.read_ui8(2))
+        cfgid = fd.read_ui8(2)
+        if cfgid is None:
+            return False
+        cfgid = list(cfgid)
         nread = 0
         if self._debug_level >= 0:
             logging.info('pos {}'.format(self.f.pos))
@@ -523,16 +526,22 @@ class _RDIReader():
         valid = False
         if self._debug_level >= 0:
             logging.info('pos {}'.format(self.f.pos))
+        pos = fd.tell()
         numbytes = fd.read_i16(1)
+        if numbytes is None:
+            if self._debug_level > 1:
+                logging.info('EOF')
+            fd.seek(pos, 0)
+            return False
         if numbytes > 0:
             fd.seek(numbytes - 2, 1)
             cfgid = fd.read_ui8(2)
+            fd.seek(pos, 0)
             if cfgid is None:
                 if self._debug_level > 1:
                     logging.info('EOF')
                 return False
             if len(cfgid) == 2:
-                fd.seek(-numbytes - 2, 1)
                 if cfgid[0] == 127 and cfgid[1] in [127, 121]:
                     if cfgid[1] == 121 and self._debug7f79 is None:
                         self._debug7f79 = True
diff --git a/dolfyn/io/rdi_lib.py b/dolfyn/io/rdi_lib.py
index a707f8f..daaccce 100644
--- a/dolfyn/io/rdi_lib.py
+++ b/dolfyn/io/rdi_lib.py
@@ -77,7 +77,8 @@ class bin_reader():
 
     def read(self, n, frmt):
         val = self.f.read(n * self._size_factor[frmt])
-        if not val:  # If val is empty we are at the end of the file.
+        # If val is empty or incomplete we are at the end of the file.
+        if len(val) < n * self._size_factor[frmt] or not val:
             return None
         self.cs and self.cs.add(val)
         if n == 1:
-- 
2.43.0


From b8390b819aa69004a97486ba5f79e701a0334a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:38 +0000
Subject: [PATCH 05/79] fix: TRDI header search misses a header one byte late

The sliding window kept the older of the first two bytes, so a header that
follows exactly one stray byte was overlooked and its ensemble lost.
---
 dolfyn/io/rdi.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 144e120..fb61f00 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -268,8 +268,8 @@ class _RDIReader():
                 return False
             pos = fd.tell()
             nread += 1
-            cfgid[1] = cfgid[0]
-            cfgid[0] = nextbyte
+            cfgid[0] = cfgid[1]
+            cfgid[1] = nextbyte
             if not pos % 1000:
                 if self._debug_level >= 0:
                     logging.info('  Still looking for valid cfgid at file '
@@ -506,8 +506,8 @@ class _RDIReader():
             nextbyte = fd.read_ui8(1)
             if nextbyte == None:
                 return False
-            id1[1] = id1[0]
-            id1[0] = nextbyte
+            id1[0] = id1[1]
+            id1[1] = nextbyte
         if search_cnt == self._search_num:
             raise Exception(
                 'Searched {} entries... Bad data encountered. -> {}'
-- 
2.43.0


From a60a5853b9fe3666c2b1bb18ae307b41a1d46dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:38 +0000
Subject: [PATCH 06/79] fix: TRDI position after an odd ensemble is applied to
 all later ones

The first ensemble whose blocks do not fill it exactly set a correction that
was added after every later ensemble, so the ensembles after it were skipped
or decoded from the wrong place. The header check already established where
the next ensemble starts: continue there.
---
 dolfyn/io/rdi.py | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index fb61f00..c26f1b3 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -187,7 +187,6 @@ class _RDIReader():
     progress = 0
     _cfac = 180 / 2 ** 31
     _source = 0
-    _fixoffset = 0
     _nbyte = 0
     _search_num = 30000  # Maximum distance? to search
     _debug7f79 = None
@@ -479,9 +478,8 @@ class _RDIReader():
                         logging.info(f'Found {id:04d}')
                     if id == 8192:
                         self.read_dat(id)
-            readbytes = fd.tell() - startpos
-            offset = hdr['nbyte'] + 2 - readbytes
-            self.check_offset(offset, readbytes)
+            # The header check found the next ensemble at this position
+            fd.seek(startpos + hdr['nbyte'] + 2, 0)
             self.print_pos(byte_offset=byte_offset)
 
         return True
@@ -582,19 +580,6 @@ class _RDIReader():
             logging.debug(
                 f'  pos: {self.f.tell()}, pos_: {self._pos}, nbyte: {self._nbyte}, k: {k}, byte_offset: {byte_offset}')
 
-    def check_offset(self, offset, readbytes):
-        fd = self.f
-        if offset != 4 and self._fixoffset == 0:
-            if self._debug_level > 0:
-                if fd.tell() == self._filesize:
-                    logging.error(
-                        ' EOF reached unexpectedly - discarding this last ensemble\n')
-                else:
-                    logging.debug("  Adjust location by {:d} (readbytes={:d},hdr['nbyte']={:d})\n"
-                                  .format(offset, readbytes, self.hdr['nbyte']))
-            self._fixoffset = offset - 4
-        fd.seek(4 + self._fixoffset, 1)
-
     def remove_end(self, iens):
         dat = self.outd
         if self._debug_level > 0:
-- 
2.43.0


From ffc785def157c64bf580a95df623e016841944ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:38 +0000
Subject: [PATCH 07/79] fix: TRDI unknown data blocks stop the read

An unknown block was skipped with the block positions of the first ensemble:
an ID not in the first ensemble, or the last one in it, raised KeyError or
IndexError. The offset table of the ensemble already gives the next position.
---
 dolfyn/io/rdi.py | 32 +++-----------------------------
 1 file changed, 3 insertions(+), 29 deletions(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index c26f1b3..7dab229 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -287,11 +287,9 @@ class _RDIReader():
         if self._debug_level >= 0:
             logging.info(self.hdr)
             logging.info('pos {}'.format(pos))
-        self.id_positions = {}
         for offset in self.hdr['dat_offsets']:
             self.f.seek(offset+pos - self.hdr['dat_offsets'][0], rel=0)
             id = self.f.read_ui16(1)
-            self.id_positions[id] = offset
             if self._debug_level >= 0:
                 logging.info('pos {} id {}'.format(offset, id))
             if id == 1:
@@ -1266,34 +1264,10 @@ class _RDIReader():
         self._nbyte = 2 + n_skip
 
     def read_nocode(self, id):
-        # Skipping bytes from codes 0340-30FC, commented if needed
-        hxid = hex(id)
-        if hxid[2:4] == '30':
-            logging.warning("Skipping bytes from codes 0340-30FC")
-            # I want to count the number of 1s in the middle 4 bits
-            # of the 2nd two bytes.
-            # 60 is a 0b00111100 mask
-            nflds = (bin(int(hxid[3]) & 60).count('1') +
-                     bin(int(hxid[4]) & 60).count('1'))
-            # I want to count the number of 1s in the highest
-            # 2 bits of byte 3
-            # 3 is a 0b00000011 mask:
-            dfac = bin(int(hxid[3], 0) & 3).count('1')
-            self.skip_Nbyte(12 * nflds * dfac)
-        else:
-            if self._debug_level >= 0:
-                logging.warning('  Unrecognized ID code: %0.4X' % id)
-            self.skip_nocode(id)
-
-    def skip_nocode(self, id):
-        # Skipping bytes if ID isn't known
-        offsets = list(self.id_positions.values())
-        idx = np.where(offsets == self.id_positions[id])[0][0]
-        byte_len = offsets[idx+1] - offsets[idx] - 2
-
-        self.skip_Nbyte(byte_len)
+        # Unknown block: the offset table tells where the next one starts
         if self._debug_level >= 0:
-            logging.debug(f"Skipping ID code {id}\n")
+            logging.warning('  Unrecognized ID code: %0.4X' % id)
+        self._nbyte = 2
 
     def cleanup(self, cfg, dat):
         dat['coords']['range'] = (cfg['bin1_dist_m'] +
-- 
2.43.0


From b311454ee1e4243d0dfc52c8d8fe45548141bb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:27 +0000
Subject: [PATCH 08/79] fix: TRDI one damaged ensemble makes the whole file
 unreadable

A corrupted block (impossible date, wrong offset, mangled NMEA text, bad
configuration index) raised out of the read although every other ensemble of
the file is intact. Give up on that ensemble only, and take block positions
from the offset table instead of accumulating them.
---
 dolfyn/io/rdi.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 7dab229..cc986dd 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -440,19 +440,24 @@ class _RDIReader():
                 if self._debug_level > 0:
                     logging.info(f'n {n}: {id} {id:04x}')
                 self.print_pos()
-                retval = self.read_dat(id)
+                try:
+                    retval = self.read_dat(id)
+                except (IndexError, KeyError, OverflowError,
+                        TypeError, ValueError) as err:
+                    warnings.warn("Damaged data in the ensemble at byte {}: {}"
+                                  .format(startpos, err))
+                    retval = 'FAIL'
 
                 if retval == 'FAIL':
                     break
                 byte_offset += self._nbyte
                 if n < (len(hdr['dat_offsets']) - 1):
                     oset = hdr['dat_offsets'][n + 1] - byte_offset
-                    if oset != 0:
-                        if self._debug_level > 0:
-                            logging.debug(
-                                '  %s: Adjust location by %d\n' % (id, oset))
-                        fd.seek(oset, 1)
+                    if oset != 0 and self._debug_level > 0:
+                        logging.debug(
+                            '  %s: Adjust location by %d\n' % (id, oset))
                     byte_offset = hdr['dat_offsets'][n + 1]
+                    fd.seek(startpos + byte_offset, 0)
                 else:
                     if hdr['nbyte'] - 2 != byte_offset:
                         if not self._winrivprob:
@@ -556,7 +561,8 @@ class _RDIReader():
         hdr['nbyte'] = fd.read_i16(1)
         spare = fd.read_ui8(1)
         ndat = fd.read_ui8(1)
-        hdr['dat_offsets'] = fd.read_ui16(ndat)
+        offsets = fd.read_ui16(ndat)
+        hdr['dat_offsets'] = [] if offsets is None else np.atleast_1d(offsets)
         self._nbyte = 4 + ndat * 2
 
     def print_progress(self,):
-- 
2.43.0


From 7ecfc0411c2f7462adaa9a01c1c725f01898ce87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:49 +0000
Subject: [PATCH 09/79] fix: TRDI VMDAS search can pick up the navigation data
 of another ensemble

The search for a misplaced navigation block started wherever decoding had
stopped; after damaged data that can be beyond the next header, and the
position fix of a later ensemble was stored in this one. The end of the
ensemble is known from its header.
---
 dolfyn/io/rdi.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index cc986dd..dee82e8 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -472,15 +472,19 @@ class _RDIReader():
                 if self._debug_level >= 1:
                     logging.info(
                         'Searching for vmdas nav data. Going to next ensemble')
-                self.search_buffer()
-                # now go back to where vmdas would be:
-                fd.seek(-98, 1)
+                # vmdas would be this far before the next ensemble:
+                fd.seek(max(startpos, startpos + hdr['nbyte'] + 2 - 96), 0)
                 id = self.f.read_ui16(1)
                 if id is not None:
                     if self._debug_level >= 1:
                         logging.info(f'Found {id:04d}')
                     if id == 8192:
-                        self.read_dat(id)
+                        try:
+                            self.read_dat(id)
+                        except (OverflowError, TypeError, ValueError) as err:
+                            warnings.warn("Damaged navigation data in the "
+                                          "ensemble at byte {}: {}"
+                                          .format(startpos, err))
             # The header check found the next ensemble at this position
             fd.seek(startpos + hdr['nbyte'] + 2, 0)
             self.print_pos(byte_offset=byte_offset)
-- 
2.43.0


From f1431c4f23069819d1592f34bbb17785358c3d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:49 +0000
Subject: [PATCH 10/79] fix: TRDI files whose first ensemble has an invalid
 clock cannot be read

The test that skips an empty second profile looked at the first time stamp
only, and applied to the first profile too: nothing was left to return.
---
 dolfyn/io/rdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index dee82e8..b0073f2 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -71,7 +71,7 @@ def read_rdi(filename, userdata=None, nens=None, debug_level=-1,
             dat['attrs'][nm] = userdata[nm]
 
         # Pass one if only one ds returned
-        if not np.isfinite(dat['coords']['time'][0]):
+        if dat is datBB and not np.isfinite(dat['coords']['time']).any():
             continue
 
         # GPS data not necessarily sampling at the same rate as ADCP DAQ.
-- 
2.43.0


From 7557d09bdda2612f74b91182d1169b938612d1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:16 +0000
Subject: [PATCH 11/79] fix: TRDI reads drop the end of files with small or
 shrinking ensembles

The number of ensembles was estimated from the size of the first 50 (minus
0.5 %, plus 2 bytes) and reading stopped there: ensembles below 400 bytes, or
files whose ensembles get smaller (fewer cells), lost their last ensembles
without notice. Treat the number as an estimate and extend the arrays.
---
 dolfyn/io/rdi.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index b0073f2..c79f362 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -205,7 +205,8 @@ class _RDIReader():
         # Check header, double buffer, and get filesize
         self._filesize = getsize(self.fname)
         space = self.code_spacing()  # '0x7F'
-        self._npings = int(self._filesize / (space + 2))
+        # An estimate: `load_data` makes room for more if there are more
+        self._npings = int(self._filesize / (max(space, 40) + 2)) + 1
         if self._debug_level >= 0:
             logging.info('Done: {}'.format(self.cfg))
             logging.info('self._bb {}'.format(self._bb))
@@ -314,16 +315,20 @@ class _RDIReader():
         elif (nens.__class__ is tuple or nens.__class__ is list):
             raise Exception("    `nens` must be a integer")
         else:
-            self._nens = nens
+            self._nens = min(nens, int(self._npings / self.n_avg))
         if self._debug_level >= 0:
             logging.info('  taking data from pings 0 - %d' % self._nens)
             logging.info('  %d ensembles will be produced.\n' % self._nens)
         self.init_data()
 
-        for iens in range(self._nens):
+        iens = -1
+        while nens is None or iens + 1 < nens:
+            iens += 1
             if not self.read_buffer():
                 self.remove_end(iens)
                 break
+            if iens >= self._nens:
+                self.extend_data()
             self.ensemble.clean_data()
             if self._bb:
                 self.ensembleBB.clean_data()
@@ -366,6 +371,8 @@ class _RDIReader():
                     dat['coords']['time'][iens] = np.NaN
                 else:
                     dat['coords']['time'][iens] = np.median(dates)
+        else:
+            self.remove_end(nens)
 
         self.cleanup(self.cfg, self.outd)
         if self._bb:
@@ -417,6 +424,19 @@ class _RDIReader():
             if self._bb:
                 logging.info('{} ncells, BB'.format(self.cfgbb['n_cells']))
 
+    def extend_data(self,):
+        """Make room for more ensembles than were estimated
+        """
+        n_new = self._nens // 4 + 10
+        for dat in [self.outd] + ([self.outdBB] if self._bb else []):
+            for nm in defs.data_defs:
+                arr = defs._get(dat, nm)
+                new = np.zeros(arr.shape[:-1] + (n_new,), dtype=arr.dtype)
+                if arr.dtype.kind == 'f':
+                    new[:] = np.NaN
+                defs._setd(dat, nm, np.concatenate((arr, new), axis=-1))
+        self._nens += n_new
+
     def read_buffer(self,):
         fd = self.f
         self.ensemble.k = -1  # so that k+=1 gives 0 on the first loop.
-- 
2.43.0


From 0b9e92646f69b1639fecb006a50778edf62b6884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:56 +0000
Subject: [PATCH 12/79] fix: TRDI depth-sounder data prevent reading when GPS
 is slower than the pings

'dist_nmea' is stored per ensemble (dimension 'time'), but was thinned out
together with repeated GPS positions, so its length no longer matched.
---
 dolfyn/io/rdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index c79f362..1c20bd2 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -148,7 +148,7 @@ def _remove_gps_duplicates(dat):
         dat['coords']['time_gps'] = dat['coords']['time_gps'][~nan]
 
     for key in dat['data_vars']:
-        if ('gps' in key) or ('nmea' in key):
+        if 'gps' in key:
             dat['data_vars'][key] = dat['data_vars'][key][idx]
             if sum(nan) > 0:
                 dat['data_vars'][key] = dat['data_vars'][key][~nan]
-- 
2.43.0


From b8681c9fa2983e44f61b1aceb57eef1f4843bc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:21 +0000
Subject: [PATCH 13/79] fix: TRDI settings are taken from damaged ensembles

Each ensemble repeats the instrument settings and the last one wins: a damaged
last ensemble could change the number of beams, cells or surface-layer cells
and so truncate or refuse the intact data of the whole file. Ignore settings
of an ensemble whose checksum is wrong.
---
 dolfyn/io/rdi.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 1c20bd2..20be1b9 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -455,6 +455,7 @@ class _RDIReader():
                 logging.info('Read Header', hdr)
             byte_offset = self._nbyte + 2
             self._read_vmdas = False
+            cfgs = dict(self.cfg), dict(self.cfgbb)
             for n in range(len(hdr['dat_offsets'])):
                 id = fd.read_ui16(1)
                 if self._debug_level > 0:
@@ -505,6 +506,11 @@ class _RDIReader():
                             warnings.warn("Damaged navigation data in the "
                                           "ensemble at byte {}: {}"
                                           .format(startpos, err))
+            # The settings of the file are never taken from a damaged ensemble
+            if not self.checksum(startpos):
+                for cfg, cfg0 in zip((self.cfg, self.cfgbb), cfgs):
+                    cfg.clear()
+                    cfg.update(cfg0)
             # The header check found the next ensemble at this position
             fd.seek(startpos + hdr['nbyte'] + 2, 0)
             self.print_pos(byte_offset=byte_offset)
@@ -579,6 +585,13 @@ class _RDIReader():
             logging.info("  ###Leaving checkheader.")
         return valid
 
+    def checksum(self, startpos):
+        """Compare the checksum of the present ensemble with its bytes
+        """
+        self.f.seek(startpos, 0)
+        data = self.f.read_ui8(self.hdr['nbyte'])
+        return data is not None and self.f.read_ui16(1) == data.sum() % 65536
+
     def read_hdrseg(self,):
         fd = self.f
         hdr = self.hdr
-- 
2.43.0


From f6fa3868d544954ba1fddde265217994de3d1fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:39 +0000
Subject: [PATCH 14/79] fix: TRDI second-profile block in a damaged ensemble
 stops the read

A corrupted block ID that names the second profile raised AttributeError in
files that have only one profile.
---
 dolfyn/io/rdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 20be1b9..6d47306 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -463,7 +463,7 @@ class _RDIReader():
                 self.print_pos()
                 try:
                     retval = self.read_dat(id)
-                except (IndexError, KeyError, OverflowError,
+                except (AttributeError, IndexError, KeyError, OverflowError,
                         TypeError, ValueError) as err:
                     warnings.warn("Damaged data in the ensemble at byte {}: {}"
                                   .format(startpos, err))
-- 
2.43.0


From d50b3f1dfa4b625dc52a9a0a67e6129f66abd91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:36 +0000
Subject: [PATCH 15/79] fix: TRDI ensemble after a shortened one is lost

With one byte missing, the length in the header points to the second byte of
the next header, which passes the header check when it is followed by 0x7f or
0x79. Do not skip by the length of an ensemble whose checksum is wrong: look
for the next header instead.
---
 dolfyn/io/rdi.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 6d47306..935f5d3 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -506,13 +506,16 @@ class _RDIReader():
                             warnings.warn("Damaged navigation data in the "
                                           "ensemble at byte {}: {}"
                                           .format(startpos, err))
-            # The settings of the file are never taken from a damaged ensemble
-            if not self.checksum(startpos):
+            if self.checksum(startpos):
+                # The header check found the next ensemble at this position
+                fd.seek(startpos + hdr['nbyte'] + 2, 0)
+            else:
+                # The settings of the file are never taken from a damaged
+                # ensemble, and its length is not reliable
                 for cfg, cfg0 in zip((self.cfg, self.cfgbb), cfgs):
                     cfg.clear()
                     cfg.update(cfg0)
-            # The header check found the next ensemble at this position
-            fd.seek(startpos + hdr['nbyte'] + 2, 0)
+                fd.seek(startpos + 2, 0)
             self.print_pos(byte_offset=byte_offset)
 
         return True
-- 
2.43.0


From 22f1b799f5121e89699e4a57200285746676d9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:07 +0000
Subject: [PATCH 16/79] fix: TRDI dual-profile ensemble after a damaged one
 loses its data

When the first profile's leader of an ensemble was damaged, the counter of the
second profile ran ahead and the next, intact ensemble failed to decode.
---
 dolfyn/io/rdi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 935f5d3..25568b1 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -450,6 +450,8 @@ class _RDIReader():
             startpos = fd.tell() - 2
             if self.ensemble.k < 0:
                 self.ensemble.reset()
+                if self._bb:
+                    self.ensembleBB.k = -1
             self.read_hdrseg()
             if self._debug_level >= 0:
                 logging.info('Read Header', hdr)
-- 
2.43.0


From ed44fd39e4180ddeef0581eb56912e70d8cf7656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:52 +0000
Subject: [PATCH 17/79] fix: TRDI number of cells taken from an ensemble that
 is not in the data

The range coordinate used the size of the last ensemble buffer, also when that
ensemble turned out to be incomplete and was not stored, and then no longer
fitted the data.
---
 dolfyn/io/rdi.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 25568b1..7ebba72 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -353,11 +353,7 @@ class _RDIReader():
                     # 1. nm is a beam variable
                     # 2. n_cells is greater than any previous
                     if len(ds.shape) == 3 and (ds.shape[0] < bn.shape[0]):
-                        # increase the size of original dataset
-                        a = np.empty((bn.shape[0] - ds.shape[0],
-                                      ds.shape[1], ds.shape[2]))*np.nan
-                        ds = np.append(ds, a, axis=0)
-                        defs._setd(dat, nm, ds)
+                        ds = self.add_cells(dat, nm, bn.shape[0])
                     # Copy the ensemble to the dataset.
                     ds[..., iens] = bn
 
@@ -1317,10 +1313,26 @@ class _RDIReader():
             logging.warning('  Unrecognized ID code: %0.4X' % id)
         self._nbyte = 2
 
+    def add_cells(self, dat, nm, n_cells):
+        """Increase the number of cells of a variable
+        """
+        ds = defs._get(dat, nm)
+        a = np.empty((n_cells - ds.shape[0],
+                      ds.shape[1], ds.shape[2]))*np.nan
+        ds = np.append(ds, a, axis=0)
+        defs._setd(dat, nm, ds)
+        return ds
+
     def cleanup(self, cfg, dat):
+        # Not every ensemble that was started is in the data
+        profs = [nm for nm in self.vars_read if 'nc' in defs.data_defs[nm][0]]
+        n_cells = max([defs._get(dat, nm).shape[0] for nm in profs] or
+                      [self.ensemble['n_cells']])
+        for nm in profs:
+            if defs._get(dat, nm).shape[0] < n_cells:
+                self.add_cells(dat, nm, n_cells)
         dat['coords']['range'] = (cfg['bin1_dist_m'] +
-                                  np.arange(self.ensemble['n_cells']) *
-                                  cfg['cell_size'])
+                                  np.arange(n_cells) * cfg['cell_size'])
 
         for nm in cfg:
             dat['attrs'][nm] = cfg[nm]
@@ -1351,7 +1363,7 @@ class _RDIReader():
         else:
             da['fs'] = (da['sec_between_ping_groups'] *
                         da['pings_per_ensemble']) ** (-1)
-        da['n_cells'] = self.ensemble['n_cells']
+        da['n_cells'] = len(dat['coords']['range'])
 
         for nm in defs.data_defs:
             shp = defs.data_defs[nm][0]
-- 
2.43.0


From 79d425a14646271228ec663fd65495a6fe21d4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:53 +0000
Subject: [PATCH 18/79] fix: TRDI damaged offset table reads data of a later
 ensemble

---
 dolfyn/io/rdi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 7ebba72..ffd95d8 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -476,6 +476,8 @@ class _RDIReader():
                         logging.debug(
                             '  %s: Adjust location by %d\n' % (id, oset))
                     byte_offset = hdr['dat_offsets'][n + 1]
+                    if byte_offset >= hdr['nbyte']:
+                        break  # Damaged: not in this ensemble
                     fd.seek(startpos + byte_offset, 0)
                 else:
                     if hdr['nbyte'] - 2 != byte_offset:
-- 
2.43.0


From 01dd05e9e10196ae59524f704d271279a740dedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:06 +0000
Subject: [PATCH 19/79] fix: Vector header with arbitrary spare bytes stops the
 read

---
 dolfyn/io/nortek.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index db8af56..93d8d5b 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -801,11 +801,11 @@ class _NortekReader():
         hdrnow['Noise1'] = tmp[1]
         hdrnow['Noise2'] = tmp[2]
         hdrnow['Noise3'] = tmp[3]
-        hdrnow['Spare0'] = byts[13:14].decode('utf-8')
+        hdrnow['Spare0'] = byts[13:14].decode('utf-8', 'replace')
         hdrnow['Corr1'] = tmp[5]
         hdrnow['Corr2'] = tmp[6]
         hdrnow['Corr3'] = tmp[7]
-        hdrnow['Spare1'] = byts[17:].decode('utf-8')
+        hdrnow['Spare1'] = byts[17:].decode('utf-8', 'replace')
         self.checksum(byts)
         if 'data_header' not in self.config:
             self.config['data_header'] = hdrnow
-- 
2.43.0


From 0de0fd9c346849b25bd4de7965ce8baf4658b0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:06 +0000
Subject: [PATCH 20/79] fix: Nortek burst_mode attribute is always True

---
 dolfyn/io/nortek.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index 93d8d5b..486d2a9 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -511,7 +511,7 @@ class _NortekReader():
         # (note: bit numbering is zero-based)
         cfg_u['usr']['profile_mode'] = [
             'single', 'continuous'][TimCtrlReg[1]]
-        cfg_u['usr']['burst_mode'] = str(bool(~TimCtrlReg[2]))
+        cfg_u['usr']['burst_mode'] = str(not TimCtrlReg[2])
         cfg_u['usr']['power_level'] = TimCtrlReg[5] + 2 * TimCtrlReg[6] + 1
         cfg_u['usr']['sync_out_pos'] = ['middle', 'end', ][TimCtrlReg[7]]
         cfg_u['usr']['sample_on_sync'] = str(bool(TimCtrlReg[8]))
-- 
2.43.0


From 87259a42b195f4f2694ae6f33e56bc2d4e6bf3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:06 +0000
Subject: [PATCH 21/79] fix: Vector sample times of bursts with one or two
 system records (days, not seconds)

---
 dolfyn/io/nortek.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index 486d2a9..823c078 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -873,10 +873,9 @@ class _NortekReader():
                 p = np.poly1d(np.polyfit(inds, t[iburst][inds], 1))
                 t[iburst] = p(arng)
             elif len(inds) == 1:
-                t[iburst] = ((arng - inds[0]) / (fs * 3600 * 24) +
-                             t[iburst][inds[0]])
+                t[iburst] = (arng - inds[0]) / fs + t[iburst][inds[0]]
             else:
-                t[iburst] = (t[iburst][0] + arng / (fs * 24 * 3600))
+                t[iburst] = t[iburst][0] + arng / fs
 
             tmpd = tbx._nans_like(dv['heading'][iburst])
             # The first status bit should be the orientation.
-- 
2.43.0


From 1147752f46b420a9f66846ec5d7d48a0b90c66cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:51 +0000
Subject: [PATCH 22/79] fix: Nortek reads return samples that are not in the
 file, or drop recorded ones

---
 dolfyn/io/base.py   |  9 ++++---
 dolfyn/io/nortek.py | 61 ++++++++++++++++++++++++++++++++++-----------
 2 files changed, 51 insertions(+), 19 deletions(-)

diff --git a/dolfyn/io/base.py b/dolfyn/io/base.py
index 3616f78..64dc1eb 100644
--- a/dolfyn/io/base.py
+++ b/dolfyn/io/base.py
@@ -84,9 +84,6 @@ def _handle_nan(data):
     nan = np.zeros(data['coords']['time'].shape, dtype=bool)
     l = data['coords']['time'].size
 
-    if any(np.isnan(data['coords']['time'])):
-        nan += np.isnan(data['coords']['time'])
-
     # Required for motion-correction algorithm
     var = ['accel', 'angrt', 'mag']
     for key in data['data_vars']:
@@ -99,11 +96,15 @@ def _handle_nan(data):
                 elif len(shp) == 2:
                     if any(np.isnan(data['data_vars'][key][-1])):
                         nan += np.isnan(data['data_vars'][key][-1])
-    trailing = np.cumsum(nan)[-1]
+    if nan.all():
+        return data
+    trailing = np.argmin(nan[::-1])
 
     if trailing > 0:
         data['coords']['time'] = data['coords']['time'][:-trailing]
         for key in data['data_vars']:
+            if key == 'beam2inst_orientmat':
+                continue
             if data['data_vars'][key].shape[-1] == l:
                 data['data_vars'][key] = data['data_vars'][key][..., :-trailing]
 
diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index 823c078..b1edf4b 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -301,9 +301,9 @@ class _NortekReader():
         da.update(self.config['hdw'])
 
         # No apparent way to determine how many samples are in a file
-        dlta = self.code_spacing('0x11')
-        self.n_samp_guess = int(self.filesize / dlta + 1)
-        self.n_samp_guess *= int(self.config['fs'])
+        self.n_samp_guess = self._guess_n_samp('0x11', 24)
+        self.n_samp_guess *= max(1, int(self.config['fs']))
+        self.n_samp_guess = min(self.n_samp_guess, self.filesize // 24 + 1)
 
     def init_AWAC(self,):
         dat = self.data = {'data_vars': {}, 'coords': {}, 'attrs': {},
@@ -322,12 +322,7 @@ class _NortekReader():
         da.update(self.config['head'])
         da.update(self.config['hdw'])
 
-        space = self.code_spacing('0x20')
-        if space == 0:
-            # code spacing is zero if there's only 1 profile
-            self.n_samp_guess = 1
-        else:
-            self.n_samp_guess = int(self.filesize / space + 1)
+        self.n_samp_guess = self._guess_n_samp('0x20', 118)
 
     def init_VNO(self,):
         dat = self.data = {'data_vars': {}, 'coords': {}, 'attrs': {},
@@ -347,10 +342,8 @@ class _NortekReader():
         da.update(self.config['hdw'])
 
         # No apparent way to determine how many samples are in a file
-        dlta = self.code_spacing('0x51') # page 49 from system integrator manual
-        self.n_samp_guess = int(self.filesize / dlta + 1)
-        self.n_samp_guess *= int(self.config['fs'])
-
+        # page 49 from system integrator manual
+        self.n_samp_guess = self._guess_n_samp('0x51', 22)
 
     def read(self, nbyte):
         byts = self.f.read(nbyte)
@@ -397,7 +390,19 @@ class _NortekReader():
             return val
         return tmp[1]
 
+    def _extend(self,):
+        """Make room for more samples than were guessed.
+        """
+        n_new = self.n_samp_guess // 2 + 100
+        for grp in ['data_vars', 'coords', 'sys']:
+            _extend_data(self.data[grp], self.n_samp_guess, n_new)
+        self.burst_start = np.append(self.burst_start,
+                                     np.zeros(n_new, dtype='bool'))
+        self.n_samp_guess += n_new
+
     def readnext(self,):
+        if self.c >= self.n_samp_guess:
+            self._extend()
         id = '0x%02x' % self.read_id()
         if id in self.fun_map:
             func_name = self.fun_map[id]
@@ -433,8 +438,9 @@ class _NortekReader():
         else:
             if self.debug:
                 logging.info(' stopped at {} bytes.'.format(self.pos))
-        self.c -= 1
-        _crop_data(self.data, slice(0, self.c), self.n_samp_guess)
+        for grp in ['data_vars', 'coords', 'sys']:
+            _crop_data(self.data[grp], slice(0, self.c), self.n_samp_guess)
+        self.n_samp_guess = self.c
         # add the start time to vectrino data coordinate time
         if self.data['attrs']['inst_model'] == 'Vectrino':
             self.data['coords']['time'] += self.config['start_time_VNO']
@@ -471,6 +477,18 @@ class _NortekReader():
         # Compute the average of the data size:
         return (self.pos - p0) / (i + 1)
 
+    def _guess_n_samp(self, code, min_size):
+        """Estimate the number of `code` blocks in the file.
+        """
+        try:
+            space = self.code_spacing(code)
+        except EOFError:
+            space = 0
+        if space <= 0:
+            # code spacing is zero if there's only 1 block
+            return 1
+        return int(self.filesize / max(space, min_size) + 1)
+
     def checksum(self, byts):
         """Perform a checksum on `byts` and read the checksum value.
         """
@@ -1277,10 +1295,23 @@ class _NortekReader():
 
 def _crop_data(obj, range, n_lastdim):
     for nm, dat in obj.items():
+        if nm == 'beam2inst_orientmat':
+            continue
         if isinstance(dat, np.ndarray) and (dat.shape[-1] == n_lastdim):
             obj[nm] = dat[..., range]
 
 
+def _extend_data(obj, n_lastdim, n_new):
+    for nm, dat in obj.items():
+        if nm == 'beam2inst_orientmat':
+            continue
+        if isinstance(dat, np.ndarray) and (dat.shape[-1] == n_lastdim):
+            new = np.zeros(dat.shape[:-1] + (n_new,), dtype=dat.dtype)
+            if dat.dtype.kind == 'f':
+                new[:] = np.NaN
+            obj[nm] = np.concatenate((dat, new), axis=-1)
+
+
 def _recatenate(obj):
     out = type(obj[0])()
     for ky in list(obj[0].keys()):
-- 
2.43.0


From 19eace56e61e2fb0c6d4734029ce6fa0459ec340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:51 +0000
Subject: [PATCH 23/79] fix: Nortek records with an invalid clock stop the read

---
 dolfyn/io/nortek.py | 16 ++++++++++------
 dolfyn/time.py      |  2 ++
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index b1edf4b..201e7a5 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -639,12 +639,16 @@ class _NortekReader():
         """Read the time from the first 6bytes of the input string.
         """
         min, sec, day, hour, year, month = unpack('BBBBBB', strng[:6])
-        return time.date2epoch(datetime(time._fullyear(_bcd2char(year)),
-                                        _bcd2char(month),
-                                        _bcd2char(day),
-                                        _bcd2char(hour),
-                                        _bcd2char(min),
-                                        _bcd2char(sec)))[0]
+        try:
+            return time.date2epoch(datetime(time._fullyear(_bcd2char(year)),
+                                            _bcd2char(month),
+                                            _bcd2char(day),
+                                            _bcd2char(hour),
+                                            _bcd2char(min),
+                                            _bcd2char(sec)))[0]
+        except ValueError:
+            # The clock of this block is invalid
+            return np.NaN
 
     def _init_data(self, vardict):
         """Initialize the data object according to vardict.
diff --git a/dolfyn/time.py b/dolfyn/time.py
index 29b0b2a..c3dc07b 100644
--- a/dolfyn/time.py
+++ b/dolfyn/time.py
@@ -245,6 +245,8 @@ def _fill_time_gaps(epoch, sample_rate_hz):
     # epoch is seconds since 1970
     dt = 1. / sample_rate_hz
     epoch = fillgaps(epoch)
+    if np.isnan(epoch).all():
+        return epoch
     if np.isnan(epoch[0]):
         i0 = np.nonzero(~np.isnan(epoch))[0][0]
         delta = np.arange(-i0, 0, 1) * dt
-- 
2.43.0


From bab441235dcda24b89758dabfff94fcb2575bbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:51 +0000
Subject: [PATCH 24/79] fix: Nortek reads lose their place at damaged or
 unknown blocks

---
 dolfyn/io/nortek.py | 191 +++++++++++++++++++++++++++++---------------
 1 file changed, 127 insertions(+), 64 deletions(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index 201e7a5..6bb187d 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -122,10 +122,6 @@ def _bcd2char(cBCD):
     return c
 
 
-def _bitshift8(val):
-    return val >> 8
-
-
 def _int2binarray(val, n):
     out = np.zeros(n, dtype='bool')
     for idx, n in enumerate(range(n)):
@@ -172,6 +168,17 @@ class _NortekReader():
                '0x51': 'read_vno_data',
                '0x71': 'read_microstrain',
                }
+    # The blocks that are read from the files of each instrument.
+    # AWAC wave bursts have another time base than the profiles, and are
+    # skipped.
+    _inst_ids = {'ADV': ['0x07', '0x10', '0x11', '0x12', '0x71'],
+                 'AWAC': ['0x20'],
+                 'VNO': ['0x07', '0x0f', '0x50', '0x51']}
+    # ... those that are read even though they are damaged
+    _data_ids = ['0x10', '0x20', '0x51', '0x71']
+    # ... and the sizes of those that do not contain their size
+    _fixed_sizes = {('ADV', 0x10): 24, ('VNO', 0x51): 22}
+    _imu_sizes = {195: 72, 204: 86, 211: 50}
 
     def __init__(self, fname, endian=None, debug=False,
                  do_checksum=True, bufsize=100000, nens=None):
@@ -235,6 +242,8 @@ class _NortekReader():
             self.config['config_type'] = 'VNO'            
         # Initialize the instrument type:
         self._inst = self.config.pop('config_type')
+        self._skipped_ids = []
+        self._read_ids = self._inst_ids[self._inst] + ['0x00', '0x04', '0x05']
         # This is the position after reading the 'hardware',
         # 'head', and 'user' configuration.
         pnow = self.pos
@@ -351,24 +360,98 @@ class _NortekReader():
             raise EOFError('Reached the end of the file')
         return byts
 
-    def findnext(self, do_cs=True):
-        """Find the next data block by checking the checksum and the
-        sync byte(0xa5)
+    def _block_size(self, pos):
+        """The size of the block at `pos`, in bytes. None if there is not
+        a complete block there.
+        """
+        self.f.seek(pos, 0)
+        head = self.f.read(6)
+        if len(head) < 6 or head[0] != 165:
+            return None
+        if (self._inst, head[1]) in self._fixed_sizes:
+            size = self._fixed_sizes[(self._inst, head[1])]
+        else:
+            size = 2 * unpack(self.endian + 'H', head[2:4])[0]
+            if head[1] == 0x20 and self._inst == 'AWAC':
+                n = self.config['usr']
+                expect = 120 + 3 * n['n_beams'] * n['n_bins']
+                if abs(size - expect) > 1:
+                    return None
+                size = expect
+            elif head[1] == 0x71 and \
+                    self._imu_sizes.get(head[5], size) != size:
+                return None
+        if size < 6 or pos + size > self.filesize:
+            return None
+        return size
+
+    def _block_ok(self, pos, size):
+        """Is the checksum of the block at `pos` correct?
+        """
+        self.f.seek(pos, 0)
+        byts = self.read(size)
+        if size % 2:
+            # These have no defined checksum, a block (or the end of the
+            # file) should follow.
+            return self.f.read(1) in [b'', b'\xa5']
+        val = unpack(self.endian + str(size // 2) + 'H', byts)
+        return (sum(val[:-1]) + 46476) % 65536 == val[-1]
+
+    def findnext(self, start, stop=None):
+        """Find the first complete block, with a correct checksum, that
+        begins at `start` or later (and before `stop`). Returns its
+        position, or None.
         """
-        sum = np.uint16(int('0xb58c', 0))  # Initialize the sum
-        cs = 0
-        func = _bitshift8
-        func2 = np.uint8
-        if self.endian == '<':
-            func = np.uint8
-            func2 = _bitshift8
+        stop = self.filesize if stop is None else min(stop, self.filesize)
+        while start < stop:
+            self.f.seek(start, 0)
+            byts = self.f.read(min(4096, stop - start))
+            if not byts:
+                break
+            i = byts.find(b'\xa5')
+            while i >= 0:
+                size = self._block_size(start + i)
+                if size is not None and self._block_ok(start + i, size):
+                    return start + i
+                i = byts.find(b'\xa5', i + 1)
+            start += len(byts)
+        return None
+
+    def _next_block(self,):
+        """Go to the next block that can be read.
+
+        Damaged data blocks are read (see `checksum`), unless an intact
+        block begins inside them.
+        """
+        pos = self.pos
         while True:
-            val = unpack(self.endian + 'H', self.read(2))[0]
-            if func(val) == 165 and (not do_cs or cs == np.uint16(sum)):
-                self.f.seek(-2, 1)
-                return hex(func2(val))
-            sum += cs
-            cs = val
+            size = self._block_size(pos)
+            if size is not None:
+                self.f.seek(pos, 0)
+                id = '0x%02x' % self.read(2)[1]
+                if self._block_ok(pos, size):
+                    if id in self._read_ids:
+                        break
+                    if id not in self._skipped_ids:
+                        logging.warning(
+                            'Skipping data blocks with identifier: ' + id)
+                        self._skipped_ids.append(id)
+                    pos += size
+                    continue
+                if id in self._data_ids and \
+                        self.findnext(pos + 1, pos + size) is None:
+                    break
+            if self.debug:
+                logging.warning("Corrupted data block found in ping %d at %d. "
+                                "Searching for next valid block..." %
+                                (self.c, pos))
+            pos = self.findnext(pos + 1)
+            if pos is None:
+                self.f.seek(0, 2)
+                raise EOFError('Reached the end of the file')
+            if self.debug:
+                logging.debug(' ...FOUND at position: {}.'.format(pos))
+        self.f.seek(pos, 0)
 
     def read_id(self,):
         """Read the next 'ID' from the file.
@@ -377,17 +460,9 @@ class _NortekReader():
         tmp = unpack(self.endian + 'BB', bts)
         if self.debug:
             logging.info('Position: {}, codes: {}'.format(self.f.tell(), tmp))
-        if tmp[0] != 165:  # This catches a corrupted data block.
-            if self.debug:
-                logging.warning("Corrupted data block sync code (%d, %d) found "
-                                "in ping %d. Searching for next valid code..." %
-                                (tmp[0], tmp[1], self.c))
-            val = int(self.findnext(do_cs=False), 0)
-            self.f.seek(2, 1)
-            if self.debug:
-                logging.debug(
-                    ' ...FOUND {} at position: {}.'.format(val, self.pos))
-            return val
+        if tmp[0] != 165:
+            raise Exception("I/O error: no data block at position {}."
+                            .format(self.f.tell() - 2))
         return tmp[1]
 
     def _extend(self,):
@@ -403,28 +478,16 @@ class _NortekReader():
     def readnext(self,):
         if self.c >= self.n_samp_guess:
             self._extend()
-        id = '0x%02x' % self.read_id()
-        if id in self.fun_map:
-            func_name = self.fun_map[id]
-            out = getattr(self, func_name)()  # Should return None
-            self._lastread = [func_name[5:]] + self._lastread[:-1]
-            return out
-        else:
-            logging.warning('Unrecognized identifier: ' + id)
-            self.f.seek(-2, 1)
-            return 10
+        self._next_block()
+        func_name = self.fun_map['0x%02x' % self.read_id()]
+        getattr(self, func_name)()
+        self._lastread = [func_name[5:]] + self._lastread[:-1]
 
     def readfile(self, nlines=None):
         print('Reading file %s ...' % self.fname)
-        retval = None
         try:
-            while not retval:
-                if self.c == nlines:
-                    break
-                retval = self.readnext()
-                if retval == 10:
-                    self.findnext()
-                    retval = None
+            while self.c != nlines:
+                self.readnext()
                 if self._npings is not None and self.c >= self._npings:
                     if 'microstrain' in self._dtypes:
                         try:
@@ -449,16 +512,18 @@ class _NortekReader():
         if id.__class__ is str:
             id = int(id, 0)
         nowid = None
+        pos = self.pos
         while nowid != id:
+            size = self._block_size(pos)
+            if size is None:
+                pos = self.findnext(pos + 1)
+                if pos is None:
+                    raise EOFError('Reached the end of the file')
+                size = self._block_size(pos)
+            self.f.seek(pos, 0)
             nowid = self.read_id()
-            if nowid == 16: # vector velocity data
-                shift = 22
-            elif nowid == 81: # vectrino velocity data
-                shift = 20
-            else:
-                sz = 2 * unpack(self.endian + 'H', self.read(2))[0]
-                shift = sz - 4
-            self.f.seek(shift, 1)
+            pos += size
+        self.f.seek(pos, 0)
         return self.pos
 
     def code_spacing(self, searchcode, iternum=50):
@@ -492,14 +557,12 @@ class _NortekReader():
     def checksum(self, byts):
         """Perform a checksum on `byts` and read the checksum value.
         """
-        if self.do_checksum:
-            if not np.sum(unpack(self.endian + str(int(1 + len(byts) / 2)) + 'H',
-                                 self._thisid_bytes + byts)) + \
-                    46476 - unpack(self.endian + 'H', self.read(2)):
-
+        cs = self.read(2)
+        if self.do_checksum and len(byts) % 2 == 0:
+            val = unpack(self.endian + str(1 + len(byts) // 2) + 'H',
+                         self._thisid_bytes + byts)
+            if (sum(val) + 46476) % 65536 != unpack(self.endian + 'H', cs)[0]:
                 raise Exception("CheckSum Failed at {}".format(self.pos))
-        else:
-            self.f.seek(2, 1)
 
     def read_user_cfg(self,):
         # ID: '0x00 = 00
-- 
2.43.0


From fe78dc8e37620e5a2016da585372a14a87f73e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:07 +0000
Subject: [PATCH 25/79] fix: Vector IMU blocks are attributed to the wrong
 sample when a block is missing

---
 dolfyn/io/nortek.py | 47 +++++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index 6bb187d..9cfc7b1 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -243,6 +243,7 @@ class _NortekReader():
         # Initialize the instrument type:
         self._inst = self.config.pop('config_type')
         self._skipped_ids = []
+        self._imu_c = None
         self._read_ids = self._inst_ids[self._inst] + ['0x00', '0x04', '0x05']
         # This is the position after reading the 'hardware',
         # 'head', and 'user' configuration.
@@ -997,24 +998,34 @@ class _NortekReader():
                 dat['long_name'].pop('orientmat')
 
         # 0x71 = 113
-        if self.c == 0:
-            logging.warning('First "microstrain data" block '
-                            'is before first "vector system data" block.')
-        else:
-            self.c -= 1
+        # This belongs to the last velocity sample
+        c = self.c - 1
         if self.debug:
             logging.info('Reading vector microstrain data (0x71) ping #{} @ {}...'
-                         .format(self.c, self.pos))
+                         .format(c, self.pos))
+        pos = self.pos - 2
         byts0 = self.read(4)
         # The first 2 are the size, 3rd is count, 4th is the id.
-        ahrsid = unpack(self.endian + '3xB', byts0)[0]
-        if hasattr(self, '_ahrsid') and self._ahrsid != ahrsid:
+        size, ahrsid = unpack(self.endian + 'HxB', byts0)
+        skip = True
+        if c < 0:
+            logging.warning('First "microstrain data" block '
+                            'is before first "vector data" block.')
+        elif ahrsid not in self._imu_sizes:
+            logging.warning('Unrecognized IMU identifier: ' + str(ahrsid))
+        elif getattr(self, '_ahrsid', ahrsid) != ahrsid:
             logging.warning('AHRS_ID changes mid-file!')
+        elif self._imu_c == c:
+            logging.warning('Two "microstrain data" blocks for ping #{}.'
+                            .format(c))
+        else:
+            skip = False
+        if skip:
+            self.f.seek(pos + 2 * size, 0)
+            return
+        self._ahrsid = ahrsid
+        self._imu_c = c
 
-        if ahrsid in [195, 204, 210, 211]:
-            self._ahrsid = ahrsid
-
-        c = self.c
         dat = self.data
         dv = dat['data_vars']
         da = dat['attrs']
@@ -1034,7 +1045,7 @@ class _NortekReader():
                     da['rotate_vars'].extend(rv)
                 update_defs(dat, mag=False, orientmat=True)
 
-            if ahrsid in [204, 210]:
+            if ahrsid == 204:
                 self._orient_dnames = ['accel', 'angrt', 'mag', 'orientmat']
                 dv['accel'] = tbx._nans((3, self.n_samp_guess),
                                         dtype=np.float32)
@@ -1045,9 +1056,8 @@ class _NortekReader():
                 rv = ['accel', 'angrt', 'mag']
                 if not all(x in da['rotate_vars'] for x in rv):
                     da['rotate_vars'].extend(rv)
-                if ahrsid == 204:
-                    dv['orientmat'] = tbx._nans((3, 3, self.n_samp_guess),
-                                                dtype=np.float32)
+                dv['orientmat'] = tbx._nans((3, 3, self.n_samp_guess),
+                                            dtype=np.float32)
                 update_defs(dat, mag=True, orientmat=True)
 
             if ahrsid == 211:
@@ -1085,12 +1095,7 @@ class _NortekReader():
             (dv['angrt'][:, c],
              dv['accel'][:, c],
              dv['mag'][:, c]) = (dt[0:3], dt[3:6], dt[6:9],)
-        else:
-            logging.warning('Unrecognized IMU identifier: ' + str(ahrsid))
-            self.f.seek(-2, 1)
-            return 10
         self.checksum(byts0 + byts)
-        self.c += 1  # reset the increment
 
     def sci_microstrain(self,):
         """Rotate orientation data into ADV coordinate system.
-- 
2.43.0


From 5d7e34b46b80ba0f2604dcc5477a0743e6e15837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:55 +0000
Subject: [PATCH 26/79] fix: Vector/Vectrino files without a time record cannot
 be read

---
 dolfyn/io/nortek.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index 9cfc7b1..b318629 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -505,9 +505,14 @@ class _NortekReader():
         for grp in ['data_vars', 'coords', 'sys']:
             _crop_data(self.data[grp], slice(0, self.c), self.n_samp_guess)
         self.n_samp_guess = self.c
+        if self._inst == 'ADV' and 'time' not in self.data['coords']:
+            # There is no system data in this file
+            self._init_data(nortek_defs.vec_sysdata)
+            self._dtypes += ['vec_sysdata']
         # add the start time to vectrino data coordinate time
         if self.data['attrs']['inst_model'] == 'Vectrino':
-            self.data['coords']['time'] += self.config['start_time_VNO']
+            self.data['coords']['time'] += self.config.get('start_time_VNO',
+                                                           np.NaN)
 
     def findnextid(self, id):
         if id.__class__ is str:
-- 
2.43.0


From 641c0f6aa2a5272c3f98246128b7c6980113b3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:27 +0000
Subject: [PATCH 27/79] fix: Nortek start of a requested range is ignored, and
 files without data fail obscurely

---
 dolfyn/io/nortek.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index b318629..b5924d7 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -490,11 +490,12 @@ class _NortekReader():
             while self.c != nlines:
                 self.readnext()
                 if self._npings is not None and self.c >= self._npings:
-                    if 'microstrain' in self._dtypes:
-                        try:
-                            self.readnext()
-                        except:
-                            pass
+                    # The IMU data of the last sample follow it
+                    self._next_block()
+                    pos = self.pos
+                    if self.read_id() == 0x71:
+                        self.f.seek(pos, 0)
+                        self.readnext()
                     break
         except EOFError:
             if self.debug:
@@ -509,6 +510,8 @@ class _NortekReader():
             # There is no system data in this file
             self._init_data(nortek_defs.vec_sysdata)
             self._dtypes += ['vec_sysdata']
+        if self.c == 0:
+            raise Exception("No data found in file {}.".format(self.fname))
         # add the start time to vectrino data coordinate time
         if self.data['attrs']['inst_model'] == 'Vectrino':
             self.data['coords']['time'] += self.config.get('start_time_VNO',
@@ -1362,6 +1365,9 @@ class _NortekReader():
         for nm in ['data_header', 'checkdata']:
             if nm in self.config and isinstance(self.config[nm], list):
                 self.config[nm] = _recatenate(self.config[nm])
+        if self._n_start:
+            for grp in ['data_vars', 'coords', 'sys']:
+                _crop_data(self.data[grp], slice(self._n_start, None), self.c)
 
     def __exit__(self, type, value, trace):
         self.close()
@@ -1372,7 +1378,7 @@ class _NortekReader():
 
 def _crop_data(obj, range, n_lastdim):
     for nm, dat in obj.items():
-        if nm == 'beam2inst_orientmat':
+        if nm in ['beam2inst_orientmat', 'range']:
             continue
         if isinstance(dat, np.ndarray) and (dat.shape[-1] == n_lastdim):
             obj[nm] = dat[..., range]
-- 
2.43.0


From e04a8761363cc47b398399f6de1f52703c89d711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:36 +0000
Subject: [PATCH 28/79] fix: AWAC pitch and roll, and AWAC/Vector temperature,
 are read as unsigned

---
 dolfyn/io/nortek.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index b5924d7..4604224 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -933,7 +933,7 @@ class _NortekReader():
          dv['temp'][c],
          dv['error'][c],
          dv['status'][c],
-         ds['AnaIn'][c]) = unpack(self.endian + '2H3hH2BH', byts[8:])
+         ds['AnaIn'][c]) = unpack(self.endian + '2H4h2BH', byts[8:])
         self.checksum(byts)
 
     def sci_vec_sysdata(self,):
@@ -1161,7 +1161,7 @@ class _NortekReader():
          p_msb,
          dv['status'][c],
          p_lsw,
-         dv['temp'][c],) = unpack(self.endian + '7HBB2H', byts[8:28])
+         dv['temp'][c],) = unpack(self.endian + '4H3hBBHh', byts[8:28])
         dv['pressure'][c] = (65536 * p_msb + p_lsw)
         # The nortek system integrator manual specifies an 88byte 'spare'
         # field, therefore we start at 116.
-- 
2.43.0


From 252e255b74b7d5c8f158830ea438d3f79f640825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:22 +0000
Subject: [PATCH 29/79] fix: Nortek files without any valid orientation cannot
 be read

---
 dolfyn/rotate/vector.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dolfyn/rotate/vector.py b/dolfyn/rotate/vector.py
index 0e8cc08..92e8608 100644
--- a/dolfyn/rotate/vector.py
+++ b/dolfyn/rotate/vector.py
@@ -190,9 +190,11 @@ def _calc_omat(time, hh, pp, rr, orientation_down=None):
     rr = rr.data.copy()
     pp = pp.data.copy()
     hh = hh.data.copy()
-    if np.isnan(rr[-1]) and np.isnan(pp[-1]) and np.isnan(hh[-1]):
+    good = np.nonzero(~np.isnan(rr + pp + hh))[0]
+    if len(good) > 0 and \
+            np.isnan(rr[-1]) and np.isnan(pp[-1]) and np.isnan(hh[-1]):
         # The end of the data may not have valid orientations
-        lastgd = np.nonzero(~np.isnan(rr + pp + hh))[0][-1]
+        lastgd = good[-1]
         rr[lastgd:] = rr[lastgd]
         pp[lastgd:] = pp[lastgd]
         hh[lastgd:] = hh[lastgd]
-- 
2.43.0


From 1ac00ab865c54e5ba6aec84783b1608e12d648d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:43 +0000
Subject: [PATCH 30/79] fix: Signature index of a file that ends within a
 record, has large records, or is damaged

The record size was read as a signed number, so a record of 32768 bytes or
more sent the indexing backwards, forever. A file that ends within a record
header failed with struct.error, and damaged bytes were followed as if they
were a record.
---
 dolfyn/io/nortek2_lib.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/nortek2_lib.py b/dolfyn/io/nortek2_lib.py
index b72bfb7..21c470c 100644
--- a/dolfyn/io/nortek2_lib.py
+++ b/dolfyn/io/nortek2_lib.py
@@ -1,5 +1,6 @@
 import struct
 import os.path as path
+from os import remove
 import numpy as np
 from logging import getLogger
 import warnings
@@ -36,7 +37,7 @@ def _reduce_by_average_angle(data, ky0, ky1, degrees=True):
 # This is the data-type of the index file.
 # This must match what is written-out by the create_index function.
 _index_version = 1
-_hdr = struct.Struct('<BBBBhhh')
+_hdr = struct.Struct('<BBBBHHH')
 _index_dtype = {
     None:
     np.dtype([('ens', np.uint64),
@@ -111,11 +112,23 @@ def _create_index(infile, outfile, N_ens, debug):
     last_ens = dict.fromkeys(ids, -1)
     seek_2ens = {21:40, 22:40, 23:42, 24:40, 26:40, 28:40, # 23 starts from "42"
                  27:40, 29:40, 30:40, 31:40, 35:40, 36:40}
+    fin.seek(0, 2)
+    eof = fin.tell()
+    fin.seek(0, 0)
     while N[21] < N_ens:  # Will fail if velocity ping isn't saved first
         pos = fin.tell()
         try:
             dat = _hdr.unpack(fin.read(_hdr.size))
-        except:
+        except struct.error:
+            break
+        if dat[0] != 165:
+            fin.close()
+            fout.close()
+            remove(_abspath(outfile))
+            raise Exception("Out of sync! No record found at byte {} of {}."
+                            .format(pos, infile))
+        if pos + _hdr.size + dat[4] > eof:
+            # The recording ends within this record
             break
         if dat[2] in ids:
             idk = dat[2]
-- 
2.43.0


From ac763014d4166b850dbf74fe3db91797fbe7bfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:56 +0000
Subject: [PATCH 31/79] fix: Signature temperature and raw altimeter samples
 are read as unsigned

---
 dolfyn/io/nortek2.py      | 2 +-
 dolfyn/io/nortek2_defs.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index 2395a23..cf9a143 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -324,7 +324,7 @@ class _Ad2cpReader():
                     outdat[id]['samp_alt'] = defs._nans(
                         [rdr._N[tmp_idx],
                          len(outdat[id]['samp_alt'])],
-                        dtype=np.uint16)
+                        dtype=np.int16)
                 else:
                     if sz != rdr._N[tmp_idx]:
                         raise Exception(
diff --git a/dolfyn/io/nortek2_defs.py b/dolfyn/io/nortek2_defs.py
index 8456734..2014910 100644
--- a/dolfyn/io/nortek2_defs.py
+++ b/dolfyn/io/nortek2_defs.py
@@ -189,7 +189,7 @@ _burst_hdr = [
     ('usec100', 'H', [], None),
     ('c_sound', 'H', [], _LinFunc(0.1, dtype=dt32), 'm s-1',
      'Speed of Sound', 'speed_of_sound_in_sea_water'),
-    ('temp', 'H', [], _LinFunc(0.01, dtype=dt32),
+    ('temp', 'h', [], _LinFunc(0.01, dtype=dt32),
      'degree_C', 'Temperature', 'sea_water_temperature'),
     ('pressure', 'I', [], _LinFunc(0.001, dtype=dt32),
      'dbar', 'Pressure', 'sea_water_pressure'),
@@ -237,7 +237,7 @@ _bt_hdr = [
     ('usec100', 'H', [], None),
     ('c_sound', 'H', [], _LinFunc(0.1, dtype=dt32), 'm s-1',
      'Speed of Sound', 'speed_of_sound_in_sea_water'),
-    ('temp', 'H', [], _LinFunc(0.01, dtype=dt32),
+    ('temp', 'h', [], _LinFunc(0.01, dtype=dt32),
      'degree_C', 'Temperature', 'sea_water_temperature'),
     ('pressure', 'I', [], _LinFunc(0.001, dtype=dt32),
      'dbar', 'Pressure', 'sea_water_pressure'),
-- 
2.43.0


From 62d4997ec75970e2d921e7095973d2f7648f2694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:56 +0000
Subject: [PATCH 32/79] fix: Signature averaged data without AHRS cannot be
 read

---
 dolfyn/io/nortek2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index cf9a143..947234a 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -620,7 +620,7 @@ def _reduce(data):
         dc['range_avg'] = ((np.arange(dv['vel_avg'].shape[1])+1) *
                            da['cell_size_avg'] +
                            da['blank_dist_avg'])
-        if 'orientmat' not in dv:
+        if 'orientmat' not in dv and 'orientmat_avg' in dv:
             dv['orientmat'] = dv.pop('orientmat_avg')
         tmat = da['filehead_config']['XFAVG']
         da['fs'] = da['filehead_config']['PLAN']['MIAVG']
-- 
2.43.0


From 145ee7f67ff3d52e7975864776a58d1c91545b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:57 +0000
Subject: [PATCH 33/79] fix: Signature sensor values are halved where the fifth
 beam or the burst skipped a ping

---
 dolfyn/io/nortek2.py     | 10 ++++++++--
 dolfyn/io/nortek2_lib.py | 25 ++++++++++++++++++-------
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index 947234a..e8b39ae 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -453,6 +453,8 @@ def _reorg(dat):
         if id not in dat:
             continue
         dnow = dat[id]
+        # 'ver' is only zero where there is no record
+        outdat['sys']['recorded' + tag] = dnow['ver'] != 0
         outdat['units'].update(dnow['units'])
         outdat['long_name'].update(dnow['long_name'])
         for ky in dnow['units']:
@@ -601,14 +603,18 @@ def _reduce(data):
     dc = data['coords']
     da = data['attrs']
 
+    # Which ensembles have a record to average
+    recorded = {'recorded0': data['sys'].get('recorded'),
+                'recorded1': data['sys'].get('recorded_b5')}
+
     # Average these fields
     for ky in ['c_sound', 'temp', 'pressure',
                'temp_press', 'temp_clock', 'batt']:
-        lib._reduce_by_average(dv, ky, ky + '_b5')
+        lib._reduce_by_average(dv, ky, ky + '_b5', **recorded)
 
     # Angle-averaging is treated separately
     for ky in ['heading', 'pitch', 'roll']:
-        lib._reduce_by_average_angle(dv, ky, ky + '_b5')
+        lib._reduce_by_average_angle(dv, ky, ky + '_b5', **recorded)
 
     if 'vel' in dv:
         dc['range'] = ((np.arange(dv['vel'].shape[1])+1) *
diff --git a/dolfyn/io/nortek2_lib.py b/dolfyn/io/nortek2_lib.py
index 21c470c..2f50a98 100644
--- a/dolfyn/io/nortek2_lib.py
+++ b/dolfyn/io/nortek2_lib.py
@@ -8,18 +8,27 @@ from .. import time
 from .base import _abspath
 
 
-def _reduce_by_average(data, ky0, ky1):
+def _only_recorded(mean, dat0, dat1, recorded0, recorded1):
+    # Where just one of the two was recorded, there is nothing to average.
+    if recorded0 is not None and recorded1 is not None:
+        mean = np.where(recorded1, mean, dat0)
+        mean = np.where(recorded0, mean, dat1)
+    return mean
+
+
+def _reduce_by_average(data, ky0, ky1, recorded0=None, recorded1=None):
     # Average two arrays together, if they both exist.
     if ky1 in data:
         tmp = data.pop(ky1)
         if ky0 in data:
-            data[ky0] += tmp
-            data[ky0] = data[ky0] / 2
+            data[ky0] = _only_recorded((data[ky0] + tmp) / 2, data[ky0], tmp,
+                                       recorded0, recorded1)
         else:
             data[ky0] = tmp
 
 
-def _reduce_by_average_angle(data, ky0, ky1, degrees=True):
+def _reduce_by_average_angle(data, ky0, ky1, degrees=True,
+                             recorded0=None, recorded1=None):
     # Average two arrays of angles together, if they both exist.
     if degrees:
         rad_fact = np.pi / 180
@@ -27,9 +36,11 @@ def _reduce_by_average_angle(data, ky0, ky1, degrees=True):
         rad_fact = 1
     if ky1 in data:
         if ky0 in data:
-            data[ky0] = np.angle(
-                np.exp(1j * data.pop(ky0) * rad_fact) +
-                np.exp(1j * data.pop(ky1) * rad_fact)) / rad_fact
+            dat0, dat1 = data.pop(ky0), data.pop(ky1)
+            data[ky0] = _only_recorded(
+                np.angle(np.exp(1j * dat0 * rad_fact) +
+                         np.exp(1j * dat1 * rad_fact)) / rad_fact,
+                dat0, dat1, recorded0, recorded1)
         else:
             data[ky0] = data.pop(ky1)
 
-- 
2.43.0


From e28cf9064e0d86dec6181edbee8e2a4df195f8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:42 +0000
Subject: [PATCH 34/79] fix: Signature ensembles are split and mixed where a
 record type is missing from several

Each record type was counted on its own, plus one for each gap whatever its
length, so that after two successive skipped pings, or with altimeter records
in every fifth ensemble, the records of one ensemble had different numbers:
ensembles without data were returned, and data were attributed to other
ensembles.
---
 dolfyn/io/nortek2_lib.py | 46 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 5 deletions(-)

diff --git a/dolfyn/io/nortek2_lib.py b/dolfyn/io/nortek2_lib.py
index 2f50a98..db50bc9 100644
--- a/dolfyn/io/nortek2_lib.py
+++ b/dolfyn/io/nortek2_lib.py
@@ -47,7 +47,7 @@ def _reduce_by_average_angle(data, ky0, ky1, degrees=True,
 
 # This is the data-type of the index file.
 # This must match what is written-out by the create_index function.
-_index_version = 1
+_index_version = 2
 _hdr = struct.Struct('<BBBBHHH')
 _index_dtype = {
     None:
@@ -81,8 +81,10 @@ _index_dtype = {
               ('second', np.uint8),
               ('usec100', np.uint16),
               ('d_ver', np.uint8),
-              ])
+              ]),
 }
+# Version 2 adds the ensemble number as it was recorded
+_index_dtype[2] = np.dtype(_index_dtype[1].descr + [('rec_ens', np.uint32)])
 
 
 def _calc_time(year, month, day, hour, minute, second, usec, zero_is_bad=True):
@@ -149,7 +151,7 @@ def _create_index(infile, outfile, N_ens, debug):
             fin.seek(14, 1)
             beams_cy = struct.unpack('<H', fin.read(2))[0]
             fin.seek(seek_2ens[dat[2]], 1)
-            ens[idk] = struct.unpack('<I', fin.read(4))[0]
+            ens[idk] = rec_ens = struct.unpack('<I', fin.read(4))[0]
 
             if last_ens[idk] > 0:
                 if (ens[idk] == 1) or (ens[idk] < last_ens[idk]):
@@ -160,9 +162,9 @@ def _create_index(infile, outfile, N_ens, debug):
             if last_ens[idk] > 0 and last_ens[idk] != ens[idk]:
                 N[idk] += 1
 
-            fout.write(struct.pack('<QIQ4H6BHB', N[idk], ens[idk], pos, idk,
+            fout.write(struct.pack('<QIQ4H6BHBI', N[idk], ens[idk], pos, idk,
                                    config, beams_cy, 0,
-                                   yr, mo + 1, dy, h, m, s, u, d_ver))
+                                   yr, mo + 1, dy, h, m, s, u, d_ver, rec_ens))
             fin.seek(dat[4] - (36 + seek_2ens[idk]), 1)
             last_ens[idk] = ens[idk]
 
@@ -179,6 +181,35 @@ def _create_index(infile, outfile, N_ens, debug):
     print(" Done.")
 
 
+def _number_ensembles(idx):
+    """Number the ensembles by the ensemble number recorded in each record:
+    all records of an ensemble have the same one, and there is not more than
+    one of each type.
+
+    Returns None if the record types are not counted together, so that this
+    does not tell which records are of the same ensemble.
+    """
+    if 'rec_ens' not in idx.dtype.names:
+        return None
+    out = np.zeros(len(idx), dtype=idx['ens'].dtype)
+    n = 0
+    here, seen = set(), set()
+    last = None
+    for i, (id, rec_ens) in enumerate(zip(idx['ID'].tolist(),
+                                          idx['rec_ens'].tolist())):
+        if id not in seen:
+            if last is not None and rec_ens != last:
+                return None
+            seen.add(id)
+        if last is not None and (rec_ens != last or id in here):
+            n += 1
+            here = set()
+        here.add(id)
+        last = rec_ens
+        out[i] = n
+    return out
+
+
 def _check_index(idx, infile, fix_hw_ens=False, dp=False):
     uid = np.unique(idx['ID'])
     if fix_hw_ens:
@@ -221,6 +252,11 @@ def _check_index(idx, infile, fix_hw_ens=False, dp=False):
             hwe[inds[(ib + 1):]] += 1
             ens[inds[(ib + 1):]] += 1
 
+    if not dp:
+        numbers = _number_ensembles(idx)
+        if numbers is not None:
+            ens[:] = numbers
+
     # if not dp:
     #     # This block fixes skips that originate from before this file.
     #     # Check first N id's and correct
-- 
2.43.0


From fdd4dafc69eecdb37c6180741832dba83d20a182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:13 +0000
Subject: [PATCH 35/79] fix: Signature averaged data have no orientation matrix
 if there is no AHRS

---
 dolfyn/io/nortek2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index e8b39ae..becc7f7 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -99,8 +99,10 @@ def read_signature(filename, userdata=True, nens=None, rebuild_index=False,
     ds = _set_coords(ds, ref_frame=ds.coord_sys)
 
     if 'orientmat' not in ds:
+        tag = '' if 'heading' in ds else '_avg'
         ds['orientmat'] = _euler2orient(
-            ds['time'], ds['heading'], ds['pitch'], ds['roll'])
+            ds['time'], ds['heading' + tag].values, ds['pitch' + tag].values,
+            ds['roll' + tag].values)
 
     if declin is not None:
         set_declination(ds, declin, inplace=True)
-- 
2.43.0


From b15e496dd6bd6f8d85a579e112c05c9761a399d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:29 +0000
Subject: [PATCH 36/79] fix: Signature settings are wrong where most of a
 record type was skipped

---
 dolfyn/io/nortek2.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index becc7f7..1aa4655 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -457,6 +457,10 @@ def _reorg(dat):
         dnow = dat[id]
         # 'ver' is only zero where there is no record
         outdat['sys']['recorded' + tag] = dnow['ver'] != 0
+        # Ensembles without a record do not tell anything about the settings
+        rec = dnow['ver'] != 0
+        if not rec.any():
+            rec[:] = True
         outdat['units'].update(dnow['units'])
         outdat['long_name'].update(dnow['long_name'])
         for ky in dnow['units']:
@@ -464,7 +468,7 @@ def _reorg(dat):
                 dnow['standard_name'].pop(ky)
         outdat['standard_name'].update(dnow['standard_name'])
         cfg['burst_config' + tag] = lib._headconfig_int2dict(
-            lib._collapse(dnow['config'], exclude=collapse_exclude,
+            lib._collapse(dnow['config'][rec], exclude=collapse_exclude,
                           name='config'))
         outdat['coords']['time' + tag] = lib._calc_time(
             dnow['year'] + 1900,
@@ -475,17 +479,17 @@ def _reorg(dat):
             dnow['second'],
             dnow['usec100'].astype('uint32') * 100)
         tmp = lib._beams_cy_int2dict(
-            lib._collapse(dnow['beam_config'], exclude=collapse_exclude,
+            lib._collapse(dnow['beam_config'][rec], exclude=collapse_exclude,
                           name='beam_config'), 21)  # always 21 here
         cfg['n_cells' + tag] = tmp['n_cells']
         cfg['coord_sys_axes' + tag] = tmp['cy']
         cfg['n_beams' + tag] = tmp['n_beams']
         cfg['ambig_vel' +
-            tag] = lib._collapse(dnow['ambig_vel'], name='ambig_vel')
+            tag] = lib._collapse(dnow['ambig_vel'][rec], name='ambig_vel')
 
         for ky in ['SerialNum', 'cell_size', 'blank_dist', 'nominal_corr',
                    'power_level_dB']:
-            cfg[ky + tag] = lib._collapse(dnow[ky],
+            cfg[ky + tag] = lib._collapse(dnow[ky][rec],
                                           exclude=collapse_exclude,
                                           name=ky)
 
@@ -524,12 +528,15 @@ def _reorg(dat):
     status0_data = lib._status02data(outdat['data_vars'][status0_key])
     status_key = status0_key.replace('0', '')
     status_data = lib._status2data(outdat['data_vars'][status_key])
+    rec = outdat['sys']['recorded' + status0_key[len('status0'):]]
+    if not rec.any():
+        rec = ~rec
 
     # Individual status codes
     # Wake up state
     wake = {0: 'bad power', 1: 'power on', 2: 'break', 3: 'clock'}
     outdat['attrs']['wakeup_state'] = wake[lib._collapse(
-        status_data.pop('wakeup_state'), name=ky)]
+        status_data.pop('wakeup_state')[rec], name=ky)]
 
     # Instrument direction
     # 0: XUP, 1: XDOWN, 2: YUP, 3: YDOWN, 4: ZUP, 5: ZDOWN,
@@ -537,12 +544,12 @@ def _reorg(dat):
     nortek_orient = {0: 'horizontal', 1: 'horizontal', 2: 'horizontal',
                      3: 'horizontal', 4: 'up', 5: 'down', 7: 'AHRS'}
     outdat['attrs']['orientation'] = nortek_orient[lib._collapse(
-        status_data.pop('orient_up'), name='orientation')]
+        status_data.pop('orient_up')[rec], name='orientation')]
 
     # Orientation detection
     orient_status = {0: 'fixed', 1: 'auto_UD', 3: 'AHRS-3D'}
     outdat['attrs']['orient_status'] = orient_status[lib._collapse(
-        status_data.pop('auto_orientation'), name='orient_status')]
+        status_data.pop('auto_orientation')[rec], name='orient_status')]
 
     # Status variables
     for ky in ['low_volt_skip', 'active_config', 'telemetry_data', 'boost_running']:
@@ -551,7 +558,7 @@ def _reorg(dat):
     # Processor idle state - need to save as 1/0 per netcdf attribute limitations
     for ky in status0_data:
         outdat['attrs'][ky] = lib._collapse(
-            status0_data[ky].astype('uint8'), name=ky)
+            status0_data[ky][rec].astype('uint8'), name=ky)
 
     # Remove status0 variables - keep status variables as they are useful for finding missing pings
     [outdat['data_vars'].pop(var) for var in status0_vars]
-- 
2.43.0


From 6ead4d4ba76aa6c27c22ef26eae727ff353c6a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:48 +0000
Subject: [PATCH 37/79] fix: Signature index that is out of date, incomplete or
 of another version is used, and one that cannot be stored prevents reading

---
 dolfyn/io/nortek2_lib.py | 82 ++++++++++++++++++++++++++++------------
 1 file changed, 58 insertions(+), 24 deletions(-)

diff --git a/dolfyn/io/nortek2_lib.py b/dolfyn/io/nortek2_lib.py
index db50bc9..714d67a 100644
--- a/dolfyn/io/nortek2_lib.py
+++ b/dolfyn/io/nortek2_lib.py
@@ -1,6 +1,7 @@
 import struct
-import os.path as path
-from os import remove
+import io
+import os
+import zlib
 import numpy as np
 from logging import getLogger
 import warnings
@@ -47,7 +48,7 @@ def _reduce_by_average_angle(data, ky0, ky1, degrees=True,
 
 # This is the data-type of the index file.
 # This must match what is written-out by the create_index function.
-_index_version = 2
+_index_version = 3
 _hdr = struct.Struct('<BBBBHHH')
 _index_dtype = {
     None:
@@ -85,6 +86,10 @@ _index_dtype = {
 }
 # Version 2 adds the ensemble number as it was recorded
 _index_dtype[2] = np.dtype(_index_dtype[1].descr + [('rec_ens', np.uint32)])
+# Version 3 adds a head that tells which state of the data file the index
+# belongs to, and that the index is complete
+_index_dtype[3] = _index_dtype[2]
+_index_head = struct.Struct('<10sHQqQI')
 
 
 def _calc_time(year, month, day, hour, minute, second, usec, zero_is_bad=True):
@@ -108,13 +113,53 @@ def _calc_time(year, month, day, hour, minute, second, usec, zero_is_bad=True):
     return dt
 
 
+def _pack_index_head(stat, data):
+    # The size and the time of the last change of the data file, and the
+    # number of entries and the checksum of the index
+    return _index_head.pack(b'Index Ver:', _index_version,
+                            stat.st_size, stat.st_mtime_ns,
+                            len(data) // _index_dtype[_index_version].itemsize,
+                            zlib.crc32(data))
+
+
+def _load_index(infile, index_file):
+    """Returns the stored index, or None if there is none that belongs to
+    the present state of the data file.
+    """
+    try:
+        with open(_abspath(index_file), 'rb') as f:
+            head = f.read(_index_head.size)
+            data = f.read()
+    except OSError:
+        return None
+    if head != _pack_index_head(os.stat(_abspath(infile)), data):
+        return None
+    return np.frombuffer(data, dtype=_index_dtype[_index_version]).copy()
+
+
+def _store_index(index_file, head, data):
+    try:
+        with open(_abspath(index_file), 'wb') as f:
+            f.write(head)
+            f.write(data)
+    except OSError as e:
+        # The index just saves time when the file is read again.
+        warnings.warn("The index could not be stored in {}: {}"
+                      .format(index_file, e))
+
+
 def _create_index(infile, outfile, N_ens, debug):
+    with open(_abspath(infile), 'rb') as fin:
+        stat = os.fstat(fin.fileno())
+        data = _index_records(fin, infile, N_ens, debug)
+    _store_index(outfile, _pack_index_head(stat, data), data)
+    return np.frombuffer(data, dtype=_index_dtype[_index_version]).copy()
+
+
+def _index_records(fin, infile, N_ens, debug):
     logging = getLogger()
     print("Indexing {}...".format(infile), end='')
-    fin = open(_abspath(infile), 'rb')
-    fout = open(_abspath(outfile), 'wb')
-    fout.write(b'Index Ver:')
-    fout.write(struct.pack('<H', _index_version))
+    fout = io.BytesIO()
     ids = [21, 22, 23, 24, 26, 28,
            27, 29, 30, 31, 35, 36]
     # Saved: burst, avg, bt, vel_b5, alt_raw, echo
@@ -135,9 +180,6 @@ def _create_index(infile, outfile, N_ens, debug):
         except struct.error:
             break
         if dat[0] != 165:
-            fin.close()
-            fout.close()
-            remove(_abspath(outfile))
             raise Exception("Out of sync! No record found at byte {} of {}."
                             .format(pos, infile))
         if pos + _hdr.size + dat[4] > eof:
@@ -176,9 +218,8 @@ def _create_index(infile, outfile, N_ens, debug):
                               N[idk], ens[idk], last_ens[idk]))
         else:
             fin.seek(dat[4], 1)
-    fin.close()
-    fout.close()
     print(" Done.")
+    return fout.getvalue()
 
 
 def _number_ensembles(idx):
@@ -301,18 +342,11 @@ def get_index(infile, rebuild=False, debug=False, dp=False):
     """
 
     index_file = infile + '.index'
-    if not path.isfile(index_file) or rebuild or debug:
-        _create_index(infile, index_file, 2 ** 32, debug)
-    f = open(_abspath(index_file), 'rb')
-    file_head = f.read(12)
-    if file_head[:10] == b'Index Ver:':
-        index_ver = struct.unpack('<H', file_head[10:])[0]
-    else:
-        # This is pre-versioning the index files
-        index_ver = None
-        f.seek(0, 0)
-    out = np.fromfile(f, dtype=_index_dtype[index_ver])
-    f.close()
+    out = None
+    if not (rebuild or debug):
+        out = _load_index(infile, index_file)
+    if out is None:
+        out = _create_index(infile, index_file, 2 ** 32, debug)
     dp = _check_index(out, infile, dp=dp)
     return out, dp
 
-- 
2.43.0


From 3a75faea3d8140175ce747156119b39389fc9cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:04 +0000
Subject: [PATCH 38/79] fix: Signature file with a single ensemble cannot be
 read

---
 dolfyn/io/nortek2.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index 1aa4655..5194b3f 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -147,6 +147,17 @@ class _Ad2cpReader():
         self.unknown_ID_count = {}
 
     def _calc_lastblock_iswhole(self, ):
+        if len(self._ens_pos) == 1:
+            # There is nothing to compare with: all of its records are whole?
+            pos = int(self._ens_pos[0])
+            while pos < self._eof:
+                self.f.seek(pos, 0)
+                hdr = self.f.read(lib._hdr.size)
+                if len(hdr) < lib._hdr.size:
+                    return False
+                pos += lib._hdr.size + lib._hdr.unpack(hdr)[4]
+            self.f.seek(int(self._ens_pos[0]), 0)
+            return pos == self._eof
         blocksize, blocksize_count = np.unique(np.diff(self._ens_pos),
                                                return_counts=True)
         standard_blocksize = blocksize[blocksize_count.argmax()]
-- 
2.43.0


From dea502c71fa9f189ea9f6f60dd6352a3eb250623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:53 +0000
Subject: [PATCH 39/79] fix: Signature dual profile recordings: burst profile
 gets the averaging interval as sampling rate, averaged orientation is
 transposed, and reading fails without AHRS, with skipped pings or equal
 counts

---
 dolfyn/io/nortek2.py     | 61 +++++++++++++++++++++++++++-------------
 dolfyn/io/nortek2_lib.py | 24 ++++++++++++++--
 2 files changed, 63 insertions(+), 22 deletions(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index 5194b3f..4856c78 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -104,9 +104,6 @@ def read_signature(filename, userdata=True, nens=None, rebuild_index=False,
             ds['time'], ds['heading' + tag].values, ds['pitch' + tag].values,
             ds['roll' + tag].values)
 
-    if declin is not None:
-        set_declination(ds, declin, inplace=True)
-
     # Convert config dictionary to json string
     for key in list(ds.attrs.keys()):
         if 'config' in key:
@@ -120,9 +117,19 @@ def read_signature(filename, userdata=True, nens=None, rebuild_index=False,
 
     # Return two datasets if dual profile
     if rdr._dp:
-        return split_dp_datasets(ds)
+        ds, ds2 = split_dp_datasets(ds)
+        for nm in userdata:
+            if 'dec' not in nm:
+                ds2.attrs[nm] = userdata[nm]
+        out = (ds, ds2)
     else:
-        return ds
+        out = ds
+
+    if declin is not None:
+        for d in (out if rdr._dp else [out]):
+            set_declination(d, declin, inplace=True)
+
+    return out
 
 
 class _Ad2cpReader():
@@ -602,14 +609,16 @@ def _clean_dp_skips(data):
     """Removes zeros from interwoven measurements taken in a dual profile
     configuration.
     """
-    for id in data:
-        if id == 'filehead_config':
-            continue
-        # Check where 'ver' is zero (should be 1 (for bt) or 3 (everything else))
-        skips = np.where(data[id]['ver'] != 0)
+    ids = [id for id in data if id not in ['filehead_config', 160]]
+    # Check where 'ver' is zero (should be 1 (for bt) or 3 (everything else))
+    recorded = {id: data[id]['ver'] != 0 for id in ids}
+    if 21 in ids and 24 in ids:
+        # These are of the same profile
+        recorded[21] = recorded[24] = recorded[21] | recorded[24]
+    for id in ids:
         for var in data[id]:
             if var not in ['units', 'long_name', 'standard_name']:
-                data[id][var] = np.squeeze(data[id][var][..., skips], axis=-2)
+                data[id][var] = data[id][var][..., recorded[id]]
 
 
 def _reduce(data):
@@ -646,10 +655,11 @@ def _reduce(data):
         dc['range_avg'] = ((np.arange(dv['vel_avg'].shape[1])+1) *
                            da['cell_size_avg'] +
                            da['blank_dist_avg'])
-        if 'orientmat' not in dv and 'orientmat_avg' in dv:
+        if 'vel' not in dv and 'orientmat_avg' in dv:
             dv['orientmat'] = dv.pop('orientmat_avg')
         tmat = da['filehead_config']['XFAVG']
-        da['fs'] = da['filehead_config']['PLAN']['MIAVG']
+        fs = 'fs' if 'vel' not in dv else 'fs_avg'
+        da[fs] = da['filehead_config']['PLAN']['MIAVG']
         da['avg_interval_sec'] = da['filehead_config']['AVG']['AI']
         da['bandwidth'] = da['filehead_config']['AVG']['BW']
     if 'vel_b5' in dv:
@@ -670,6 +680,8 @@ def _reduce(data):
         dv['orientmat'] = np.rollaxis(dv['orientmat'], 1)
     else:
         da['has_imu'] = 0
+    if 'orientmat_avg' in dv:
+        dv['orientmat_avg'] = np.rollaxis(dv['orientmat_avg'], 1)
 
     theta = da['filehead_config']['BEAMCFGLIST'][0]
     if 'THETA=' in theta:
@@ -700,10 +712,11 @@ def split_dp_datasets(ds):
 
     other_coords = []
     for key, val in t_dict.items():
-        if val != t_dict['time']:
-            if key.endswith('altraw'):
-                # altraw goes with burst, altraw_avg goes with avg
-                continue
+        if key.endswith('altraw'):
+            # altraw goes with burst, altraw_avg goes with avg
+            continue
+        if key.endswith('_avg') or (val != t_dict['time'] and
+                                    val == t_dict.get('time_avg')):
             other_coords.append(key)
 
     # Fetch variables, coordinates, and attrs for second profiling configuration
@@ -724,16 +737,26 @@ def split_dp_datasets(ds):
     ds2 = type(ds)()
     for a in (other_attrs + critical_attrs):
         ds2.attrs[a] = ds.attrs[a]
+    ds2.attrs['fs'] = ds2.attrs.pop('fs_avg')
     for v in other_vars:
         ds2[v] = ds[v]
+    for v in ['beam', 'dir']:
+        if v not in ds2:
+            ds2[v] = ds[v]
     # Set rotate_vars
     rotate_vars2 = [v for v in ds.attrs['rotate_vars'] if v in other_vars]
     ds2.attrs['rotate_vars'] = rotate_vars2
     # Set orientation matricies
     ds2['beam2inst_orientmat'] = ds['beam2inst_orientmat']
-    ds2 = ds2.rename({'orientmat_' + other_tags[0]: 'orientmat'})
+    if 'orientmat_avg' in ds2:
+        ds2 = ds2.rename({'orientmat_avg': 'orientmat'})
+    else:
+        ds2['orientmat'] = _euler2orient(
+            ds2['time_avg'].values, ds2['heading_avg'].values,
+            ds2['pitch_avg'].values, ds2['roll_avg'].values
+        ).rename({'time': 'time_avg'})
     # Set original coordinate system
-    cy = ds2.attrs['coord_sys_axes_' + other_tags[0]]
+    cy = ds2.attrs['coord_sys_axes_avg']
     ds2.attrs['coord_sys'] = {'XYZ': 'inst',
                               'ENU': 'earth',
                               'beam': 'beam'}[cy]
diff --git a/dolfyn/io/nortek2_lib.py b/dolfyn/io/nortek2_lib.py
index 714d67a..2592e5b 100644
--- a/dolfyn/io/nortek2_lib.py
+++ b/dolfyn/io/nortek2_lib.py
@@ -251,6 +251,22 @@ def _number_ensembles(idx):
     return out
 
 
+def _number_dp_ensembles(idx):
+    """Number the ensembles of both profiles in the order they are in the
+    file. The averaging profile has its own ensemble numbers.
+    """
+    avg = np.isin(idx['ID'], [22, 31])
+    numbers = np.zeros(len(idx), dtype=idx['ens'].dtype)
+    for profile in (avg, ~avg):
+        if profile.any():
+            num = _number_ensembles(idx[profile])
+            if num is None:
+                return None
+            numbers[profile] = num
+    new = (np.diff(numbers.astype('int64')) != 0) | (np.diff(avg.astype('int8')) != 0)
+    return np.append(0, np.cumsum(new)).astype(numbers.dtype)
+
+
 def _check_index(idx, infile, fix_hw_ens=False, dp=False):
     uid = np.unique(idx['ID'])
     if fix_hw_ens:
@@ -293,10 +309,12 @@ def _check_index(idx, infile, fix_hw_ens=False, dp=False):
             hwe[inds[(ib + 1):]] += 1
             ens[inds[(ib + 1):]] += 1
 
-    if not dp:
+    if dp:
+        numbers = _number_dp_ensembles(idx)
+    else:
         numbers = _number_ensembles(idx)
-        if numbers is not None:
-            ens[:] = numbers
+    if numbers is not None:
+        ens[:] = numbers
 
     # if not dp:
     #     # This block fixes skips that originate from before this file.
-- 
2.43.0


From 51a0ee240992c3399d0c4ffe6b8cdcfaa5fb8a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:24 +0000
Subject: [PATCH 40/79] fix: I/O error while a Signature file is read is taken
 for its end

---
 dolfyn/io/nortek2.py      | 2 +-
 dolfyn/io/nortek2_defs.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index 4856c78..3719189 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -307,7 +307,7 @@ class _Ad2cpReader():
         while True:
             try:
                 hdr = self._read_hdr()
-            except IOError:
+            except EOFError:
                 return outdat
             id = hdr['id']
             if id in [21, 22, 23, 24, 28]:  # "burst data record" (vel + ast),
diff --git a/dolfyn/io/nortek2_defs.py b/dolfyn/io/nortek2_defs.py
index 2014910..5efe199 100644
--- a/dolfyn/io/nortek2_defs.py
+++ b/dolfyn/io/nortek2_defs.py
@@ -86,7 +86,7 @@ class _DataDef():
     def read(self, fobj, cs=None):
         bytes = fobj.read(self.nbyte)
         if len(bytes) != self.nbyte:
-            raise IOError("End of file.")
+            raise EOFError("End of file.")
         data = self._struct.unpack(bytes)
         if cs is not None:
             if cs is True:
-- 
2.43.0


From f2c9c93ed7ae9e8d42b44f30fec37d9b44212298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:38 +0000
Subject: [PATCH 41/79] fix: Signature records that arrive while the file is
 read overwrite the last ensemble

---
 dolfyn/io/nortek2.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index 3719189..efb14b0 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -144,6 +144,8 @@ class _Ad2cpReader():
                                               rebuild=rebuild_index,
                                               debug=debug,
                                               dp=dual_profile)
+        # Nothing of what is recorded from now on
+        self._index = self._index[self._index['pos'] < self._eof]
         self._reopen(bufsize)
         self.filehead_config = self._read_filehead_config_string()
         self._ens_pos = self._index['pos'][lib._boolarray_firstensemble_ping(
@@ -304,7 +306,7 @@ class _Ad2cpReader():
         c = 0
         c_altraw = {26: 0, 31: 0}
         self.f.seek(self._ens_pos[ens_start], 0)
-        while True:
+        while self.f.tell() < self._eof:
             try:
                 hdr = self._read_hdr()
             except EOFError:
@@ -379,7 +381,8 @@ class _Ad2cpReader():
             c = self._advance_ens_count(c, ens_start, nens_total)
 
             if c >= nens:
-                return outdat
+                break
+        return outdat
 
     def _advance_ens_count(self, c, ens_start, nens_total):
         """This method advances the counter when appropriate to do so.
-- 
2.43.0


From 351395993a62056a151d4a8cd330881e1535115f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:10 +0000
Subject: [PATCH 42/79] fix: Signature records after one with a damaged header
 are dropped silently or attributed to the wrong ensemble

The header has a checksum: a record whose header does not match it has
an unknown type and size. A file that begins within an ensemble no longer
disables the numbering of ensembles by the recorded ensemble number.
---
 dolfyn/io/nortek2_lib.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/nortek2_lib.py b/dolfyn/io/nortek2_lib.py
index 2592e5b..c530fd8 100644
--- a/dolfyn/io/nortek2_lib.py
+++ b/dolfyn/io/nortek2_lib.py
@@ -175,13 +175,17 @@ def _index_records(fin, infile, N_ens, debug):
     fin.seek(0, 0)
     while N[21] < N_ens:  # Will fail if velocity ping isn't saved first
         pos = fin.tell()
+        hdr = fin.read(_hdr.size)
         try:
-            dat = _hdr.unpack(fin.read(_hdr.size))
+            dat = _hdr.unpack(hdr)
         except struct.error:
             break
         if dat[0] != 165:
             raise Exception("Out of sync! No record found at byte {} of {}."
                             .format(pos, infile))
+        if (0xb58c + sum(struct.unpack('<4H', hdr[:8]))) % 65536 != dat[6]:
+            raise Exception("Out of sync! The header of the record at byte "
+                            "{} of {} is damaged.".format(pos, infile))
         if pos + _hdr.size + dat[4] > eof:
             # The recording ends within this record
             break
@@ -236,11 +240,12 @@ def _number_ensembles(idx):
     n = 0
     here, seen = set(), set()
     last = None
+    together = True
     for i, (id, rec_ens) in enumerate(zip(idx['ID'].tolist(),
                                           idx['rec_ens'].tolist())):
         if id not in seen:
             if last is not None and rec_ens != last:
-                return None
+                together = False
             seen.add(id)
         if last is not None and (rec_ens != last or id in here):
             n += 1
@@ -248,6 +253,13 @@ def _number_ensembles(idx):
         here.add(id)
         last = rec_ens
         out[i] = n
+    if not together:
+        # Either they are counted separately, or the first ensembles are
+        # incomplete and most records share an ensemble with another type
+        shared = (np.bincount(out) > 1)[out]
+        for id in seen:
+            if 2 * shared[idx['ID'] == id].sum() <= (idx['ID'] == id).sum():
+                return None
     return out
 
 
-- 
2.43.0


From 56581f86be7d35dd50a320226f7ef27d5ab308d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:33 +0000
Subject: [PATCH 43/79] fix: Numbering of Signature ensembles fails for a file
 that does not begin with a complete one

np.bincount does not take uint64; and the first ensembles of a file may be
incomplete for longer (cropped files).
---
 dolfyn/io/nortek2_lib.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dolfyn/io/nortek2_lib.py b/dolfyn/io/nortek2_lib.py
index c530fd8..14a974f 100644
--- a/dolfyn/io/nortek2_lib.py
+++ b/dolfyn/io/nortek2_lib.py
@@ -255,10 +255,15 @@ def _number_ensembles(idx):
         out[i] = n
     if not together:
         # Either they are counted separately, or the first ensembles are
-        # incomplete and most records share an ensemble with another type
-        shared = (np.bincount(out) > 1)[out]
+        # incomplete: then most records of a type share an ensemble with
+        # another type, or their numbers fit in between those around them
+        rec_ens = idx['rec_ens'].astype('int64')
+        steps_back = np.diff(rec_ens) < 0
+        fits = ~(np.append(False, steps_back) | np.append(steps_back, False))
+        shared = (np.bincount(out.astype('int64')) > 1)[out]
         for id in seen:
-            if 2 * shared[idx['ID'] == id].sum() <= (idx['ID'] == id).sum():
+            own = idx['ID'] == id
+            if 2 * max(shared[own].sum(), fits[own].sum()) < own.sum():
                 return None
     return out
 
-- 
2.43.0


From b81c7a2db2b87b0475d849ef79345789a68d3087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:33 +0000
Subject: [PATCH 44/79] fix: crop_ensembles cannot include the last ensemble,
 overwrites its input, and leaves an incomplete file behind when it fails

---
 dolfyn/io/nortek2_lib.py | 48 +++++++++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/dolfyn/io/nortek2_lib.py b/dolfyn/io/nortek2_lib.py
index 14a974f..9253be8 100644
--- a/dolfyn/io/nortek2_lib.py
+++ b/dolfyn/io/nortek2_lib.py
@@ -401,19 +401,47 @@ def crop_ensembles(infile, outfile, range):
     outfile: str
       Path for new, cropped ad2cp file (with .ad2cp file extension)
     range: list
-      2 element list of start and end ensemble (or time index)
+      2 element list of the first ensemble and the one to stop before. The
+      end of the recording if there is no such ensemble.
     """
 
+    infile, outfile = _abspath(infile), _abspath(outfile)
+    if os.path.exists(outfile) and os.path.samefile(infile, outfile):
+        raise ValueError("The cropped file cannot replace the original.")
+    start, stop = range
     idx, dp = get_index(infile)
-    with open(_abspath(infile), 'rb') as fin:
-        with open(_abspath(outfile), 'wb') as fout:
-            fout.write(fin.read(idx['pos'][0]))
-            i0 = np.nonzero(idx['ens'] == range[0])[0][0]
-            ie = np.nonzero(idx['ens'] == range[1])[0][0]
-            pos = idx['pos'][i0]
-            nbyte = idx['pos'][ie] - pos
-            fin.seek(pos, 0)
-            fout.write(fin.read(nbyte))
+    inside = (start <= idx['ens'].astype('int64')) & (idx['ens'] < stop)
+    if not inside.any():
+        raise IndexError("There are no ensembles {} to {} in {}."
+                         .format(start, stop, infile))
+    first, last = np.nonzero(inside)[0][[0, -1]]
+    with open(infile, 'rb') as fin:
+        # The range ends where the next indexed record begins
+        if last + 1 < len(idx):
+            end = int(idx['pos'][last + 1])
+        else:
+            end = int(idx['pos'][last])
+            fin.seek(end, 0)
+            end += _hdr.size + _hdr.unpack(fin.read(_hdr.size))[4]
+        # A file that is not complete has another name
+        partfile = outfile + '.part'
+        try:
+            with open(partfile, 'wb') as fout:
+                for p0, p1 in [(0, int(idx['pos'][0])),
+                               (int(idx['pos'][first]), end)]:
+                    fin.seek(p0, 0)
+                    while p0 < p1:
+                        dat = fin.read(min(p1 - p0, 2 ** 20))
+                        if not dat:
+                            raise EOFError("{} ends within the range."
+                                           .format(infile))
+                        fout.write(dat)
+                        p0 += len(dat)
+            os.replace(partfile, outfile)
+        except Exception:
+            if os.path.exists(partfile):
+                os.remove(partfile)
+            raise
 
 
 class _BitIndexer():
-- 
2.43.0


From 32dc97ebe6378e159d9f55e99e307e7675f90626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:33 +0000
Subject: [PATCH 45/79] fix: Signature file whose last ensemble differs in size
 loses it, and reading a part without a record type reports zero settings

---
 dolfyn/io/nortek2.py | 86 ++++++++++++++++++++++++++++++--------------
 1 file changed, 60 insertions(+), 26 deletions(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index efb14b0..c8abf30 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -156,21 +156,28 @@ class _Ad2cpReader():
         self.unknown_ID_count = {}
 
     def _calc_lastblock_iswhole(self, ):
-        if len(self._ens_pos) == 1:
-            # There is nothing to compare with: all of its records are whole?
-            pos = int(self._ens_pos[0])
-            while pos < self._eof:
-                self.f.seek(pos, 0)
-                hdr = self.f.read(lib._hdr.size)
-                if len(hdr) < lib._hdr.size:
-                    return False
-                pos += lib._hdr.size + lib._hdr.unpack(hdr)[4]
-            self.f.seek(int(self._ens_pos[0]), 0)
+        # All of its records are whole?
+        pos = int(self._ens_pos[-1])
+        last = set()
+        while pos < self._eof:
+            self.f.seek(pos, 0)
+            hdr = self.f.read(lib._hdr.size)
+            if len(hdr) < lib._hdr.size:
+                return False
+            hdr = lib._hdr.unpack(hdr)
+            last.add(hdr[2])
+            pos += lib._hdr.size + hdr[4]
+        self.f.seek(int(self._ens_pos[0]), 0)
+        if pos != self._eof or len(self._ens_pos) == 1:
             return pos == self._eof
-        blocksize, blocksize_count = np.unique(np.diff(self._ens_pos),
-                                               return_counts=True)
-        standard_blocksize = blocksize[blocksize_count.argmax()]
-        return (self._eof - self._ens_pos[-1]) == standard_blocksize
+        # It has the records the other ensembles usually have?
+        ens_id = np.unique(self._index[['ens', 'ID']][
+            self._index['pos'] < self._ens_pos[-1]])
+        usual, count = {}, 0
+        for ids in np.split(ens_id['ID'], np.nonzero(np.diff(ens_id['ens']))[0] + 1):
+            ids = frozenset(ids.tolist())
+            usual[ids] = usual.get(ids, 0) + 1
+        return max(usual, key=usual.get) <= last
 
     def _check_nortek(self, endian):
         self._reopen(10)
@@ -275,6 +282,24 @@ class _Ad2cpReader():
 
         return outdat
 
+    def _read_settings(self, ens_start, ens_stop):
+        """Read the first record of each type there is none of within the
+        ensembles to be read, for its settings.
+        """
+        inside = ((self._index['ens'] >= ens_start) &
+                  (self._index['ens'] < ens_stop))
+        settings = {}
+        for id, rdr in self._burst_readers.items():
+            index = self._index[self._index['ID'] == id]
+            if id in [26, 31] or id in self._index['ID'][inside]:
+                continue
+            self.f.seek(int(index['pos'][0]), 0)
+            self._read_hdr()
+            settings[id] = rdr.init_data(1)
+            rdr.read_into(self.f, settings[id], 0)
+            rdr.sci_data(settings[id])
+        return settings
+
     def _read_hdr(self, do_cs=False):
         res = defs.header.read2dict(self.f, cs=do_cs)
         if res['sync'] != 165:
@@ -302,6 +327,7 @@ class _Ad2cpReader():
         nens = ens_stop - ens_start
         outdat = self.init_data(ens_start, ens_stop)
         outdat['filehead_config'] = self.filehead_config
+        outdat['settings'] = self._read_settings(ens_start, ens_stop)
         print('Reading file %s ...' % self.fname)
         c = 0
         c_altraw = {26: 0, 31: 0}
@@ -480,8 +506,10 @@ def _reorg(dat):
         outdat['sys']['recorded' + tag] = dnow['ver'] != 0
         # Ensembles without a record do not tell anything about the settings
         rec = dnow['ver'] != 0
+        dset = dnow
         if not rec.any():
-            rec[:] = True
+            dset = dat['settings'].get(id, dnow)
+            rec = np.ones(len(dset['ver']), dtype=bool)
         outdat['units'].update(dnow['units'])
         outdat['long_name'].update(dnow['long_name'])
         for ky in dnow['units']:
@@ -489,7 +517,7 @@ def _reorg(dat):
                 dnow['standard_name'].pop(ky)
         outdat['standard_name'].update(dnow['standard_name'])
         cfg['burst_config' + tag] = lib._headconfig_int2dict(
-            lib._collapse(dnow['config'][rec], exclude=collapse_exclude,
+            lib._collapse(dset['config'][rec], exclude=collapse_exclude,
                           name='config'))
         outdat['coords']['time' + tag] = lib._calc_time(
             dnow['year'] + 1900,
@@ -500,17 +528,17 @@ def _reorg(dat):
             dnow['second'],
             dnow['usec100'].astype('uint32') * 100)
         tmp = lib._beams_cy_int2dict(
-            lib._collapse(dnow['beam_config'][rec], exclude=collapse_exclude,
+            lib._collapse(dset['beam_config'][rec], exclude=collapse_exclude,
                           name='beam_config'), 21)  # always 21 here
         cfg['n_cells' + tag] = tmp['n_cells']
         cfg['coord_sys_axes' + tag] = tmp['cy']
         cfg['n_beams' + tag] = tmp['n_beams']
         cfg['ambig_vel' +
-            tag] = lib._collapse(dnow['ambig_vel'][rec], name='ambig_vel')
+            tag] = lib._collapse(dset['ambig_vel'][rec], name='ambig_vel')
 
         for ky in ['SerialNum', 'cell_size', 'blank_dist', 'nominal_corr',
                    'power_level_dB']:
-            cfg[ky + tag] = lib._collapse(dnow[ky][rec],
+            cfg[ky + tag] = lib._collapse(dset[ky][rec],
                                           exclude=collapse_exclude,
                                           name=ky)
 
@@ -550,14 +578,20 @@ def _reorg(dat):
     status_key = status0_key.replace('0', '')
     status_data = lib._status2data(outdat['data_vars'][status_key])
     rec = outdat['sys']['recorded' + status0_key[len('status0'):]]
+    status0_set, status_set = status0_data, status_data
     if not rec.any():
-        rec = ~rec
+        id = {'': 21, '_avg': 22, '_b5': 24, 'raw': 26, '_echo': 28,
+              'raw_avg': 31}[status0_key[len('status0'):]]
+        dset = dat['settings'].get(id, dat[id])
+        rec = slice(None)
+        status0_set = lib._status02data(dset['status0'])
+        status_set = lib._status2data(dset['status'])
 
     # Individual status codes
     # Wake up state
     wake = {0: 'bad power', 1: 'power on', 2: 'break', 3: 'clock'}
     outdat['attrs']['wakeup_state'] = wake[lib._collapse(
-        status_data.pop('wakeup_state')[rec], name=ky)]
+        status_set['wakeup_state'][rec], name=ky)]
 
     # Instrument direction
     # 0: XUP, 1: XDOWN, 2: YUP, 3: YDOWN, 4: ZUP, 5: ZDOWN,
@@ -565,21 +599,21 @@ def _reorg(dat):
     nortek_orient = {0: 'horizontal', 1: 'horizontal', 2: 'horizontal',
                      3: 'horizontal', 4: 'up', 5: 'down', 7: 'AHRS'}
     outdat['attrs']['orientation'] = nortek_orient[lib._collapse(
-        status_data.pop('orient_up')[rec], name='orientation')]
+        status_set['orient_up'][rec], name='orientation')]
 
     # Orientation detection
     orient_status = {0: 'fixed', 1: 'auto_UD', 3: 'AHRS-3D'}
     outdat['attrs']['orient_status'] = orient_status[lib._collapse(
-        status_data.pop('auto_orientation')[rec], name='orient_status')]
+        status_set['auto_orientation'][rec], name='orient_status')]
 
     # Status variables
     for ky in ['low_volt_skip', 'active_config', 'telemetry_data', 'boost_running']:
         outdat['data_vars'][ky] = status_data[ky].astype('uint8')
 
     # Processor idle state - need to save as 1/0 per netcdf attribute limitations
-    for ky in status0_data:
+    for ky in status0_set:
         outdat['attrs'][ky] = lib._collapse(
-            status0_data[ky][rec].astype('uint8'), name=ky)
+            status0_set[ky][rec].astype('uint8'), name=ky)
 
     # Remove status0 variables - keep status variables as they are useful for finding missing pings
     [outdat['data_vars'].pop(var) for var in status0_vars]
@@ -612,7 +646,7 @@ def _clean_dp_skips(data):
     """Removes zeros from interwoven measurements taken in a dual profile
     configuration.
     """
-    ids = [id for id in data if id not in ['filehead_config', 160]]
+    ids = [id for id in data if id not in ['filehead_config', 'settings', 160]]
     # Check where 'ver' is zero (should be 1 (for bt) or 3 (everything else))
     recorded = {id: data[id]['ver'] != 0 for id in ids}
     if 21 in ids and 24 in ids:
-- 
2.43.0


From 94507571b734f5b375501a8242aedf385e9b9312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:59 +0000
Subject: [PATCH 46/79] fix: Failed rotation, declination or head-rotation
 setting leaves a half-changed dataset

A failure (or interrupt) part way left some variables in the new frame and
others in the old one, or removed the recorded declination.
---
 dolfyn/rotate/api.py    | 100 ++++++++++++++++++++--------------------
 dolfyn/rotate/base.py   |  22 +++++++++
 dolfyn/rotate/rdi.py    |   4 +-
 dolfyn/rotate/vector.py |   4 +-
 4 files changed, 76 insertions(+), 54 deletions(-)

diff --git a/dolfyn/rotate/api.py b/dolfyn/rotate/api.py
index eb5b38f..99c27f5 100644
--- a/dolfyn/rotate/api.py
+++ b/dolfyn/rotate/api.py
@@ -2,7 +2,7 @@ from . import vector as r_vec
 from . import awac as r_awac
 from . import signature as r_sig
 from . import rdi as r_rdi
-from .base import _make_model
+from .base import _make_model, _restore_on_failure
 import numpy as np
 import xarray as xr
 import warnings
@@ -104,16 +104,17 @@ def rotate2(ds, out_frame='earth', inplace=True):
     else:
         reverse = True
 
-    while ds.coord_sys.lower() != out_frame.lower():
-        csin = ds.coord_sys
-        if csin == 'ship':
-            csin = 'inst'
-        inow = rc.index(csin)
-        if reverse:
-            func = getattr(rmod, '_' + rc[inow - 1] + '2' + rc[inow])
-        else:
-            func = getattr(rmod, '_' + rc[inow] + '2' + rc[inow + 1])
-        ds = func(ds, reverse=reverse)
+    with _restore_on_failure(ds):
+        while ds.coord_sys.lower() != out_frame.lower():
+            csin = ds.coord_sys
+            if csin == 'ship':
+                csin = 'inst'
+            inow = rc.index(csin)
+            if reverse:
+                func = getattr(rmod, '_' + rc[inow - 1] + '2' + rc[inow])
+            else:
+                func = getattr(rmod, '_' + rc[inow] + '2' + rc[inow + 1])
+            ds = func(ds, reverse=reverse)
 
     if not inplace:
         return ds
@@ -220,10 +221,7 @@ def set_declination(ds, declin, inplace=True):
     if not inplace:
         ds = ds.copy(deep=True)
 
-    if 'declination' in ds.attrs:
-        angle = declin - ds.attrs.pop('declination')
-    else:
-        angle = declin
+    angle = declin - ds.attrs.get('declination', 0)
     cd = np.cos(-np.deg2rad(angle))
     sd = np.sin(-np.deg2rad(angle))
 
@@ -233,24 +231,25 @@ def set_declination(ds, declin, inplace=True):
                      [sd, cd, 0],
                      [0, 0, 1]])
 
-    if ds.coord_sys == 'earth':
-        rotate2earth = True
-        rotate2(ds, 'inst', inplace=True)
-    else:
-        rotate2earth = False
+    with _restore_on_failure(ds):
+        if ds.coord_sys == 'earth':
+            rotate2earth = True
+            rotate2(ds, 'inst', inplace=True)
+        else:
+            rotate2earth = False
 
-    ds['orientmat'].values = np.einsum('kj...,ij->ki...',
-                                       ds['orientmat'].values,
-                                       Rdec, )
-    if 'heading' in ds:
-        ds['heading'] += angle
-    if rotate2earth:
-        rotate2(ds, 'earth', inplace=True)
-    if 'principal_heading' in ds.attrs:
-        ds.attrs['principal_heading'] += angle
+        ds['orientmat'].values = np.einsum('kj...,ij->ki...',
+                                           ds['orientmat'].values,
+                                           Rdec, )
+        if 'heading' in ds:
+            ds['heading'].values = ds['heading'].values + angle
+        if rotate2earth:
+            rotate2(ds, 'earth', inplace=True)
+        if 'principal_heading' in ds.attrs:
+            ds.attrs['principal_heading'] += angle
 
-    ds.attrs['declination'] = declin
-    ds.attrs['declination_in_orientmat'] = 1  # logical
+        ds.attrs['declination'] = declin
+        ds.attrs['declination_in_orientmat'] = 1  # logical
 
     if not inplace:
         return ds
@@ -296,25 +295,26 @@ def set_inst2head_rotmat(ds, rotmat, inplace=True):
             "You are setting 'inst2head_rotmat' after it has already "
             "been set. You can only set it once.")
 
-    csin = ds.coord_sys
-    if csin not in ['inst', 'beam']:
-        rotate2(ds, 'inst', inplace=True)
-
-    ds['inst2head_rotmat'] = xr.DataArray(np.array(rotmat),
-                                          dims=['x1', 'x2'],
-                                          coords={'x1': [1, 2, 3],
-                                                  'x2': [1, 2, 3]},
-                                          attrs={'units':'1'})
-
-    ds.attrs['inst2head_rotmat_was_set'] = 1  # logical
-    # Note that there is no validation that the user doesn't
-    # change `ds.attrs['inst2head_rotmat']` after calling this
-    # function.
-
-    if not csin == 'beam':  # csin not 'beam', then we're in inst
-        ds = r_vec._rotate_inst2head(ds)
-    if csin not in ['inst', 'beam']:
-        rotate2(ds, csin, inplace=True)
+    with _restore_on_failure(ds):
+        csin = ds.coord_sys
+        if csin not in ['inst', 'beam']:
+            rotate2(ds, 'inst', inplace=True)
+
+        ds['inst2head_rotmat'] = xr.DataArray(np.array(rotmat),
+                                              dims=['x1', 'x2'],
+                                              coords={'x1': [1, 2, 3],
+                                                      'x2': [1, 2, 3]},
+                                              attrs={'units': '1'})
+
+        ds.attrs['inst2head_rotmat_was_set'] = 1  # logical
+        # Note that there is no validation that the user doesn't
+        # change `ds.attrs['inst2head_rotmat']` after calling this
+        # function.
+
+        if not csin == 'beam':  # csin not 'beam', then we're in inst
+            ds = r_vec._rotate_inst2head(ds)
+        if csin not in ['inst', 'beam']:
+            rotate2(ds, csin, inplace=True)
 
     if not inplace:
         return ds
diff --git a/dolfyn/rotate/base.py b/dolfyn/rotate/base.py
index 87fe1d2..50c1566 100644
--- a/dolfyn/rotate/base.py
+++ b/dolfyn/rotate/base.py
@@ -2,9 +2,31 @@ import numpy as np
 import xarray as xr
 from numpy.linalg import det, inv
 from scipy.spatial.transform import Rotation as R
+from contextlib import contextmanager
 import warnings
 
 
+@contextmanager
+def _restore_on_failure(ds):
+    """Put the dataset back to what it was if the operations within
+    this context do not all succeed.
+
+    The operations must replace the data of variables, and not change
+    the arrays in place.
+    """
+    attrs = dict(ds.attrs)
+    variables = {nm: var.copy(deep=False) for nm, var in ds.variables.items()}
+    try:
+        yield
+    except BaseException:
+        for nm in [nm for nm in ds.variables if nm not in variables]:
+            del ds[nm]
+        for nm, var in variables.items():
+            ds[nm] = var
+        ds.attrs = attrs
+        raise
+
+
 def _make_model(ds):
     """The make and model of the instrument that collected the data
     in this data object.
diff --git a/dolfyn/rotate/rdi.py b/dolfyn/rotate/rdi.py
index d626aaa..de87b5d 100644
--- a/dolfyn/rotate/rdi.py
+++ b/dolfyn/rotate/rdi.py
@@ -61,9 +61,9 @@ def _inst2earth(adcpo, reverse=False, rotate_vars=None, force=False):
 
     # Only operate on the first 3-components, b/c the 4th is err_vel
     for nm in rotate_vars:
-        dat = adcpo[nm].values
+        dat = adcpo[nm].values.copy()
         dat[:3] = np.einsum(sumstr, rotmat, dat[:3])
-        adcpo[nm].values = dat.copy()
+        adcpo[nm].values = dat
 
     adcpo = _set_coords(adcpo, cs_new)
 
diff --git a/dolfyn/rotate/vector.py b/dolfyn/rotate/vector.py
index 92e8608..3f1f2be 100644
--- a/dolfyn/rotate/vector.py
+++ b/dolfyn/rotate/vector.py
@@ -176,9 +176,9 @@ def _earth2principal(advo, reverse=False, rotate_vars=None):
 
     # Perform the rotation:
     for nm in rotate_vars:
-        dat = advo[nm].values
+        dat = advo[nm].values.copy()
         dat[:2] = np.einsum('ij,j...->i...', rotmat[:2, :2], dat[:2])
-        advo[nm].values = dat.copy()
+        advo[nm].values = dat
 
     # Finalize the output.
     advo = rotb._set_coords(advo, cs_new)
-- 
2.43.0


From 89613802b948476d4ec4cb4940e58aacfffacd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:59 +0000
Subject: [PATCH 47/79] fix: Rotation to principal axes truncates integer data

The magnetometer of Signature bottom-track records is kept as integers.
---
 dolfyn/rotate/vector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dolfyn/rotate/vector.py b/dolfyn/rotate/vector.py
index 3f1f2be..e8cc0b7 100644
--- a/dolfyn/rotate/vector.py
+++ b/dolfyn/rotate/vector.py
@@ -176,7 +176,9 @@ def _earth2principal(advo, reverse=False, rotate_vars=None):
 
     # Perform the rotation:
     for nm in rotate_vars:
-        dat = advo[nm].values.copy()
+        # (a copy, and never integers)
+        dat = np.array(advo[nm].values,
+                       dtype=np.result_type(advo[nm].dtype, rotmat))
         dat[:2] = np.einsum('ij,j...->i...', rotmat[:2, :2], dat[:2])
         advo[nm].values = dat
 
-- 
2.43.0


From eaf209949910eca443f93c6ec557add1f1f3b5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:37 +0000
Subject: [PATCH 48/79] fix: Declination in userdata is recorded and not
 applied if the TRDI file has a magnetic variation

---
 dolfyn/io/rdi.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index ffd95d8..0ec546f 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -176,7 +176,6 @@ def _set_rdi_declination(dat, fname, inplace):
             "'magnetic_var_deg', delete the value from userdata.json and "
             "re-read the file."
             .format(dat.attrs['magnetic_var_deg'], fname, declin))
-        dat.attrs['declination'] = declin
 
     if declin is not None:
         set_declination(dat, declin, inplace)
-- 
2.43.0


From feaf7a85aba30cb1b8ed04a00614117be4545156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:22 +0000
Subject: [PATCH 49/79] fix: Interrupt at the end of a rotation restores the
 dataset too late

The state is restored in an exception handler of the function itself;
a suspended context manager could be closed at any later time.
---
 dolfyn/rotate/api.py  | 20 ++++++++++++++++----
 dolfyn/rotate/base.py | 34 ++++++++++++++++------------------
 2 files changed, 32 insertions(+), 22 deletions(-)

diff --git a/dolfyn/rotate/api.py b/dolfyn/rotate/api.py
index 99c27f5..a3dd851 100644
--- a/dolfyn/rotate/api.py
+++ b/dolfyn/rotate/api.py
@@ -2,7 +2,7 @@ from . import vector as r_vec
 from . import awac as r_awac
 from . import signature as r_sig
 from . import rdi as r_rdi
-from .base import _make_model, _restore_on_failure
+from .base import _make_model, _get_state, _set_state
 import numpy as np
 import xarray as xr
 import warnings
@@ -104,7 +104,8 @@ def rotate2(ds, out_frame='earth', inplace=True):
     else:
         reverse = True
 
-    with _restore_on_failure(ds):
+    original, state = ds, _get_state(ds)
+    try:
         while ds.coord_sys.lower() != out_frame.lower():
             csin = ds.coord_sys
             if csin == 'ship':
@@ -115,6 +116,9 @@ def rotate2(ds, out_frame='earth', inplace=True):
             else:
                 func = getattr(rmod, '_' + rc[inow] + '2' + rc[inow + 1])
             ds = func(ds, reverse=reverse)
+    except BaseException:
+        _set_state(original, state)
+        raise
 
     if not inplace:
         return ds
@@ -231,7 +235,8 @@ def set_declination(ds, declin, inplace=True):
                      [sd, cd, 0],
                      [0, 0, 1]])
 
-    with _restore_on_failure(ds):
+    original, state = ds, _get_state(ds)
+    try:
         if ds.coord_sys == 'earth':
             rotate2earth = True
             rotate2(ds, 'inst', inplace=True)
@@ -250,6 +255,9 @@ def set_declination(ds, declin, inplace=True):
 
         ds.attrs['declination'] = declin
         ds.attrs['declination_in_orientmat'] = 1  # logical
+    except BaseException:
+        _set_state(original, state)
+        raise
 
     if not inplace:
         return ds
@@ -295,7 +303,8 @@ def set_inst2head_rotmat(ds, rotmat, inplace=True):
             "You are setting 'inst2head_rotmat' after it has already "
             "been set. You can only set it once.")
 
-    with _restore_on_failure(ds):
+    original, state = ds, _get_state(ds)
+    try:
         csin = ds.coord_sys
         if csin not in ['inst', 'beam']:
             rotate2(ds, 'inst', inplace=True)
@@ -315,6 +324,9 @@ def set_inst2head_rotmat(ds, rotmat, inplace=True):
             ds = r_vec._rotate_inst2head(ds)
         if csin not in ['inst', 'beam']:
             rotate2(ds, csin, inplace=True)
+    except BaseException:
+        _set_state(original, state)
+        raise
 
     if not inplace:
         return ds
diff --git a/dolfyn/rotate/base.py b/dolfyn/rotate/base.py
index 50c1566..311cc63 100644
--- a/dolfyn/rotate/base.py
+++ b/dolfyn/rotate/base.py
@@ -2,29 +2,27 @@ import numpy as np
 import xarray as xr
 from numpy.linalg import det, inv
 from scipy.spatial.transform import Rotation as R
-from contextlib import contextmanager
 import warnings
 
 
-@contextmanager
-def _restore_on_failure(ds):
-    """Put the dataset back to what it was if the operations within
-    this context do not all succeed.
+def _get_state(ds):
+    """What is needed to put the dataset back to what it is now.
 
-    The operations must replace the data of variables, and not change
-    the arrays in place.
+    Operations that may have to be undone must replace the data of
+    variables, and not change the arrays in place.
     """
-    attrs = dict(ds.attrs)
-    variables = {nm: var.copy(deep=False) for nm, var in ds.variables.items()}
-    try:
-        yield
-    except BaseException:
-        for nm in [nm for nm in ds.variables if nm not in variables]:
-            del ds[nm]
-        for nm, var in variables.items():
-            ds[nm] = var
-        ds.attrs = attrs
-        raise
+    return dict(ds.attrs), {nm: var.copy(deep=False)
+                            for nm, var in ds.variables.items()}
+
+
+def _set_state(ds, state):
+    """Put the dataset back to what it was at the time of `_get_state`
+    """
+    attrs, variables = state
+    for nm in [nm for nm in ds.variables if nm not in variables]:
+        del ds[nm]
+    ds.update(variables)
+    ds.attrs = attrs
 
 
 def _make_model(ds):
-- 
2.43.0


From 26708e1831bd714f49b6630e31e7d61d9be0ef56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:19 +0000
Subject: [PATCH 50/79] fix: Debug log stays open, and the handlers of the
 application are lost, when reading with debug on

The log file is closed even if the file cannot be read, and what was
configured for the root logger before is in force again.
---
 dolfyn/io/base.py    | 27 +++++++++++++++++++++++++++
 dolfyn/io/nortek.py  | 24 ++++++------------------
 dolfyn/io/nortek2.py | 23 +++++------------------
 dolfyn/io/rdi.py     | 23 +++++------------------
 4 files changed, 43 insertions(+), 54 deletions(-)

diff --git a/dolfyn/io/base.py b/dolfyn/io/base.py
index 64dc1eb..6bb3d6e 100644
--- a/dolfyn/io/base.py
+++ b/dolfyn/io/base.py
@@ -2,13 +2,40 @@ import numpy as np
 import xarray as xr
 import json
 import os
+import logging
 import warnings
+from contextlib import contextmanager
+from pathlib import Path
 
 
 def _abspath(fname):
     return os.path.abspath(os.path.expanduser(fname))
 
 
+@contextmanager
+def _debug_log(filename, debug):
+    """Log into '<base-filename>.dolfyn.log' (and nowhere else), if
+    `debug` is true, until the end of this context.
+    """
+    if not debug:
+        yield
+        return
+    root = logging.root
+    handlers, level = root.handlers[:], root.level
+    log = logging.FileHandler(str(Path(filename).with_suffix('.dolfyn.log')),
+                              mode='w')
+    try:
+        log.setFormatter(
+            logging.Formatter('%(name)s - %(levelname)s - %(message)s'))
+        root.handlers[:] = [log]
+        root.setLevel(logging.NOTSET)
+        yield
+    finally:
+        root.handlers[:] = handlers
+        root.setLevel(level)
+        log.close()
+
+
 def _get_filetype(fname):
     """Detects whether the file is a Nortek, Signature (Nortek), or RDI
     file by reading the first few bytes of the file.
diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index 4604224..2581ab9 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -2,12 +2,12 @@ import warnings
 import logging
 import numpy as np
 from struct import unpack
-from pathlib import Path
 from datetime import datetime
 
 from . import nortek_defs
 from .. import time
-from .base import _find_userdata, _create_dataset, _handle_nan, _abspath
+from .base import _find_userdata, _create_dataset, _handle_nan, _abspath, \
+    _debug_log
 from ..tools import misc as tbx
 from ..rotate.vector import _calc_omat
 from ..rotate.base import _set_coords
@@ -39,17 +39,11 @@ def read_nortek(filename, userdata=True, debug=False, do_checksum=False,
       An xarray dataset from the binary instrument data
     """
 
-    # Start debugger logging
-    if debug:
-        for handler in logging.root.handlers[:]:
-            logging.root.removeHandler(handler)
-        filepath = Path(filename)
-        logfile = filepath.with_suffix('.dolfyn.log')
-        logging.basicConfig(filename=str(logfile),
-                            filemode='w',
-                            level=logging.NOTSET,
-                            format='%(name)s - %(levelname)s - %(message)s')
+    with _debug_log(filename, debug):
+        return _read_nortek(filename, userdata, debug, do_checksum, nens)
 
+
+def _read_nortek(filename, userdata, debug, do_checksum, nens):
     userdata = _find_userdata(filename, userdata)
 
     with _NortekReader(filename, debug=debug, do_checksum=do_checksum,
@@ -103,12 +97,6 @@ def read_nortek(filename, userdata=True, debug=False, do_checksum=False,
     if declin is not None:
         rot.set_declination(ds, declin, inplace=True)
 
-    # Close handler
-    if debug:
-        for handler in logging.root.handlers[:]:
-            logging.root.removeHandler(handler)
-            handler.close()
-
     return ds
 
 
diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index c8abf30..5d0c96a 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -1,13 +1,12 @@
 import numpy as np
 from struct import unpack, calcsize
 import warnings
-from pathlib import Path
 import logging
 import json
 
 from . import nortek2_defs as defs
 from . import nortek2_lib as lib
-from .base import _find_userdata, _create_dataset, _abspath
+from .base import _find_userdata, _create_dataset, _abspath, _debug_log
 from ..rotate.vector import _euler2orient
 from ..rotate.base import _set_coords
 from ..rotate.api import set_declination
@@ -40,17 +39,11 @@ def read_signature(filename, userdata=True, nens=None, rebuild_index=False,
       An xarray dataset from the binary instrument data
     """
 
-    # Start debugger logging
-    if debug:
-        for handler in logging.root.handlers[:]:
-            logging.root.removeHandler(handler)
-        filepath = Path(filename)
-        logfile = filepath.with_suffix('.dolfyn.log')
-        logging.basicConfig(filename=str(logfile),
-                            filemode='w',
-                            level=logging.NOTSET,
-                            format='%(name)s - %(levelname)s - %(message)s')
+    with _debug_log(filename, debug):
+        return _read_signature(filename, userdata, nens, rebuild_index, debug, dual_profile)
 
+
+def _read_signature(filename, userdata, nens, rebuild_index, debug, dual_profile):
     if nens is None:
         nens = [0, None]
     else:
@@ -109,12 +102,6 @@ def read_signature(filename, userdata=True, nens=None, rebuild_index=False,
         if 'config' in key:
             ds.attrs[key] = json.dumps(ds.attrs[key])
 
-    # Close handler
-    if debug:
-        for handler in logging.root.handlers[:]:
-            logging.root.removeHandler(handler)
-            handler.close()
-
     # Return two datasets if dual profile
     if rdr._dp:
         ds, ds2 = split_dp_datasets(ds)
diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 0ec546f..82e3b12 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -2,12 +2,11 @@ import numpy as np
 import xarray as xr
 import warnings
 from os.path import getsize
-from pathlib import Path
 import logging
 
 from .rdi_lib import bin_reader
 from . import rdi_defs as defs
-from .base import _find_userdata, _create_dataset, _abspath
+from .base import _find_userdata, _create_dataset, _abspath, _debug_log
 from .. import time as tmlib
 from ..rotate.rdi import _calc_beam_orientmat, _calc_orientmat
 from ..rotate.base import _set_coords
@@ -42,17 +41,11 @@ def read_rdi(filename, userdata=None, nens=None, debug_level=-1,
       An xarray dataset from the binary instrument data
     """
 
-    # Start debugger logging
-    if debug_level >= 0:
-        for handler in logging.root.handlers[:]:
-            logging.root.removeHandler(handler)
-        filepath = Path(filename)
-        logfile = filepath.with_suffix('.dolfyn.log')
-        logging.basicConfig(filename=str(logfile),
-                            filemode='w',
-                            level=logging.NOTSET,
-                            format='%(name)s - %(levelname)s - %(message)s')
+    with _debug_log(filename, debug_level >= 0):
+        return _read_rdi(filename, userdata, nens, debug_level, vmdas_search, winriver)
 
+
+def _read_rdi(filename, userdata, nens, debug_level, vmdas_search, winriver):
     # Reads into a dictionary of dictionaries using netcdf naming conventions
     # Should be easier to debug
     with _RDIReader(filename,
@@ -121,12 +114,6 @@ def read_rdi(filename, userdata=None, nens=None, debug_level=-1,
         warnings.warn("\nTwo profiling configurations retrieved from file"
                       "\nReturning first.")
 
-    # Close handler
-    if debug_level >= 0:
-        for handler in logging.root.handlers[:]:
-            logging.root.removeHandler(handler)
-            handler.close()
-
     return dss[0]
 
 
-- 
2.43.0


From 64e4f792908e413738a6d992d6f96e6df9686b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:19 +0000
Subject: [PATCH 51/79] fix: Files stay open after Signature files are read and
 after any file cannot be read

---
 dolfyn/io/nortek.py  |  9 ++++++++-
 dolfyn/io/nortek2.py | 27 ++++++++++++++++++++++-----
 dolfyn/io/rdi.py     |  6 ++++++
 dolfyn/io/rdi_lib.py | 10 +++++++---
 4 files changed, 43 insertions(+), 9 deletions(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index 2581ab9..d15eb8f 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -173,6 +173,13 @@ class _NortekReader():
         self.fname = fname
         self._bufsize = bufsize
         self.f = open(_abspath(fname), 'rb', 1000)
+        try:
+            self._init(endian, debug, do_checksum, bufsize, nens)
+        except BaseException:
+            self.f.close()
+            raise
+
+    def _init(self, endian, debug, do_checksum, bufsize, nens):
         self.do_checksum = do_checksum
         self.filesize  # initialize the filesize.
         self.debug = debug
@@ -241,7 +248,7 @@ class _NortekReader():
         getattr(self, 'init_' + self._inst)()
         self.f.close()  # This has a small buffer, so close it.
         # This has a large buffer...
-        self.f = open(_abspath(fname), 'rb', bufsize)
+        self.f = open(_abspath(self.fname), 'rb', bufsize)
         self.close = self.f.close
         if self._npings is not None:
             self.n_samp_guess = self._npings
diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index 5d0c96a..23e3826 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -58,8 +58,9 @@ def _read_signature(filename, userdata, nens, rebuild_index, debug, dual_profile
 
     userdata = _find_userdata(filename, userdata)
 
-    rdr = _Ad2cpReader(filename, rebuild_index=rebuild_index, debug=debug, dual_profile=dual_profile)
-    d = rdr.readfile(nens[0], nens[1])
+    with _Ad2cpReader(filename, rebuild_index=rebuild_index, debug=debug,
+                      dual_profile=dual_profile) as rdr:
+        d = rdr.readfile(nens[0], nens[1])
     rdr.sci_data(d)
     if rdr._dp:
         _clean_dp_skips(d)
@@ -124,12 +125,19 @@ class _Ad2cpReader():
                  debug=False, dual_profile=False):
         self.fname = fname
         self.debug = debug
+        try:
+            self._init(endian, bufsize, rebuild_index, dual_profile)
+        except BaseException:
+            self.close()
+            raise
+
+    def _init(self, endian, bufsize, rebuild_index, dual_profile):
         self._check_nortek(endian)
         self.f.seek(0, 2)  # Seek to end
         self._eof = self.f.tell()
-        self._index, self._dp = lib.get_index(fname,
+        self._index, self._dp = lib.get_index(self.fname,
                                               rebuild=rebuild_index,
-                                              debug=debug,
+                                              debug=self.debug,
                                               dp=dual_profile)
         # Nothing of what is recorded from now on
         self._index = self._index[self._index['pos'] < self._eof]
@@ -184,11 +192,20 @@ class _Ad2cpReader():
     def _reopen(self, bufsize=None):
         if bufsize is None:
             bufsize = 1000000
+        self.close()
+        self.f = open(_abspath(self.fname), 'rb', bufsize)
+
+    def close(self):
         try:
             self.f.close()
         except AttributeError:
             pass
-        self.f = open(_abspath(self.fname), 'rb', bufsize)
+
+    def __enter__(self):
+        return self
+
+    def __exit__(self, type, value, trace):
+        self.close()
 
     def _read_filehead_config_string(self, ):
         hdr = self._read_hdr()
diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 82e3b12..e8bffaf 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -187,7 +187,13 @@ class _RDIReader():
         self.cfgbb = {}
         self.hdr = {}
         self.f = bin_reader(self.fname)
+        try:
+            self._init(navg)
+        except BaseException:
+            self.f.close()
+            raise
 
+    def _init(self, navg):
         # Check header, double buffer, and get filesize
         self._filesize = getsize(self.fname)
         space = self.code_spacing()  # '0x7F'
diff --git a/dolfyn/io/rdi_lib.py b/dolfyn/io/rdi_lib.py
index daaccce..4096b57 100644
--- a/dolfyn/io/rdi_lib.py
+++ b/dolfyn/io/rdi_lib.py
@@ -35,9 +35,13 @@ class bin_reader():
         """
         self.endian = endian
         self.f = open(expanduser(fname), 'rb')
-        self.f.seek(0, 2)
-        self.fsize = self.tell()
-        self.f.seek(0, 0)
+        try:
+            self.f.seek(0, 2)
+            self.fsize = self.tell()
+            self.f.seek(0, 0)
+        except BaseException:
+            self.f.close()
+            raise
         self.close = self.f.close
         if checksum_size:
             pass
-- 
2.43.0


From a93f7c8fb20188292a222e77797ad1299193a34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:19 +0000
Subject: [PATCH 52/79] fix: Memory for all requested Nortek samples is
 allocated, however small the file

---
 dolfyn/io/nortek.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index d15eb8f..a3b3067 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -251,7 +251,7 @@ class _NortekReader():
         self.f = open(_abspath(self.fname), 'rb', bufsize)
         self.close = self.f.close
         if self._npings is not None:
-            self.n_samp_guess = self._npings
+            self.n_samp_guess = min(self._npings, self.n_samp_guess)
         self.f.seek(pnow, 0)  # Seek to the previous position.
 
         da = self.data['attrs']
-- 
2.43.0


From 99938534675caa4f9da6593a2aaaf2f608908c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:59 +0000
Subject: [PATCH 53/79] fix: Paths with '~' cannot be read, and userdata of
 files without extension is looked for elsewhere

---
 dolfyn/io/base.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dolfyn/io/base.py b/dolfyn/io/base.py
index 6bb3d6e..92bfd24 100644
--- a/dolfyn/io/base.py
+++ b/dolfyn/io/base.py
@@ -22,8 +22,8 @@ def _debug_log(filename, debug):
         return
     root = logging.root
     handlers, level = root.handlers[:], root.level
-    log = logging.FileHandler(str(Path(filename).with_suffix('.dolfyn.log')),
-                              mode='w')
+    logfile = Path(_abspath(filename)).with_suffix('.dolfyn.log')
+    log = logging.FileHandler(str(logfile), mode='w')
     try:
         log.setFormatter(
             logging.Formatter('%(name)s - %(levelname)s - %(message)s'))
@@ -49,7 +49,7 @@ def _get_filetype(fname):
        '<GIT-LFS pointer> - if the file looks like a GIT-LFS pointer.
     """
 
-    with open(fname, 'rb') as rdr:
+    with open(_abspath(fname), 'rb') as rdr:
         bytes = rdr.read(40)
     code = bytes[:2].hex()
     #print("{} - {}".format(fname.rsplit('/')[-1], bytes))
@@ -69,7 +69,8 @@ def _get_filetype(fname):
 def _find_userdata(filename, userdata=True):
     # This function finds the file to read
     if userdata:
-        for basefile in [filename.rsplit('.', 1)[0],
+        filename = _abspath(filename)
+        for basefile in [os.path.splitext(filename)[0],
                          filename]:
             jsonfile = basefile + '.userdata.json'
             if os.path.isfile(jsonfile):
-- 
2.43.0


From 1b0d070590561a21a0af7459a34e1722a6f60e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:59 +0000
Subject: [PATCH 54/79] fix: Encoding of userdata files depends on the locale

---
 dolfyn/io/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/base.py b/dolfyn/io/base.py
index 92bfd24..65888a5 100644
--- a/dolfyn/io/base.py
+++ b/dolfyn/io/base.py
@@ -85,7 +85,7 @@ def _read_userdata(fname):
     """Reads a userdata.json file and returns the data it contains as a
     dictionary.
     """
-    with open(fname) as data_file:
+    with open(fname, encoding='utf-8') as data_file:
         data = json.load(data_file)
     for nm in ['body2head_rotmat', 'body2head_vec']:
         if nm in data:
-- 
2.43.0


From 92e5e7bfdf8c49eadbb64570d66d7f12f8b44902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:58 +0000
Subject: [PATCH 55/79] fix: Saving to netCDF changes the dataset of the caller

---
 dolfyn/io/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dolfyn/io/api.py b/dolfyn/io/api.py
index caeca76..2604345 100644
--- a/dolfyn/io/api.py
+++ b/dolfyn/io/api.py
@@ -164,6 +164,9 @@ def save(ds, filename,
 
     filename = _check_file_ext(filename, 'nc')
 
+    # What follows must not change the caller's dataset
+    ds = ds.copy()
+
     # Handling complex values for netCDF4
     ds.attrs['complex_vars'] = []
     for var in ds.data_vars:
-- 
2.43.0


From b206e4e51a55d3b9973e53dec818a68c98c2d278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:58 +0000
Subject: [PATCH 56/79] fix: Datasets loaded from netCDF are saved in their
 former type, and not at all if they were compressed

---
 dolfyn/io/api.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dolfyn/io/api.py b/dolfyn/io/api.py
index 2604345..4e24a36 100644
--- a/dolfyn/io/api.py
+++ b/dolfyn/io/api.py
@@ -190,8 +190,12 @@ def save(ds, filename,
         enc[ky] = ds[ky].encoding
         # Remove unexpected netCDF4 encoding parameters
         # https://github.com/pydata/xarray/discussions/5709
-        params = ['szip', 'zstd', 'bzip2', 'blosc', 'contiguous', 'chunksizes']
+        params = ['szip', 'zstd', 'bzip2', 'blosc', 'contiguous', 'chunksizes',
+                  'preferred_chunks']
         [enc[ky].pop(p) for p in params if p in enc[ky]]
+        # The type may have changed since this variable was loaded
+        if not {'scale_factor', 'add_offset'} & set(enc[ky]):
+            enc[ky].pop('dtype', None)
 
         if compression:
             # New netcdf4-c cannot compress variable length strings
-- 
2.43.0


From 784f27dc98e370e4519106db6e69924db6e0b684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:58 +0000
Subject: [PATCH 57/79] fix: Encoding given to save() has no effect

---
 dolfyn/io/api.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dolfyn/io/api.py b/dolfyn/io/api.py
index 4e24a36..910639d 100644
--- a/dolfyn/io/api.py
+++ b/dolfyn/io/api.py
@@ -183,8 +183,7 @@ def save(ds, filename,
 
     # Write variable encoding
     enc = dict()
-    if 'encoding' in kwargs:
-        enc.update(kwargs['encoding'])
+    user_enc = kwargs.get('encoding') or {}
     for ky in ds.variables:
         # Save prior encoding
         enc[ky] = ds[ky].encoding
@@ -199,9 +198,10 @@ def save(ds, filename,
 
         if compression:
             # New netcdf4-c cannot compress variable length strings
-            if ds[ky].size <= 1 or isinstance(ds[ky].data[0], str):
-                continue
-            enc[ky].update(dict(zlib=True, complevel=1))
+            if ds[ky].size > 1 and not isinstance(ds[ky].data[0], str):
+                enc[ky].update(dict(zlib=True, complevel=1))
+    for ky in user_enc:
+        enc[ky] = {**enc.get(ky, {}), **user_enc[ky]}
 
     kwargs['encoding'] = enc
 
-- 
2.43.0


From 9dcd7af1e23a14154b334d00fc0ee9e5c4015d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:58 +0000
Subject: [PATCH 58/79] fix: Complex values with one nan part, or with names of
 one letter, are not restored from netCDF

---
 dolfyn/io/api.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/dolfyn/io/api.py b/dolfyn/io/api.py
index 910639d..32be81e 100644
--- a/dolfyn/io/api.py
+++ b/dolfyn/io/api.py
@@ -243,15 +243,16 @@ def load(filename):
             ds.attrs[nm] = [ds.attrs[nm]]
 
     # Rejoin complex numbers
-    if hasattr(ds, 'complex_vars'):
-        if len(ds.complex_vars):
-            if len(ds.complex_vars[0]) == 1:
-                ds.attrs['complex_vars'] = [ds.complex_vars]
-            for var in ds.complex_vars:
-                ds[var] = ds[var + '_real'] + ds[var + '_imag'] * 1j
-                ds = ds.drop_vars([var + '_real', var + '_imag'])
-
-        ds.attrs.pop('complex_vars')
+    if 'complex_vars' in ds.attrs:
+        complex_vars = ds.attrs.pop('complex_vars')
+        if isinstance(complex_vars, str):
+            complex_vars = [complex_vars]
+        for var in complex_vars:
+            real, imag = ds[var + '_real'], ds[var + '_imag']
+            # Not `real + imag * 1j`: that turns nan into nan + nan * 1j
+            ds[var] = real.astype(np.result_type(real.dtype, np.complex64))
+            ds[var].values.imag = imag.values
+            ds = ds.drop_vars([var + '_real', var + '_imag'])
 
     return ds
 
-- 
2.43.0


From 0cb223667c8c8039b4e913a5f8a77b0f34e49621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:32 +0000
Subject: [PATCH 59/79] fix: Saving to MATLAB format changes the dataset of the
 caller

---
 dolfyn/io/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dolfyn/io/api.py b/dolfyn/io/api.py
index 32be81e..58e2acf 100644
--- a/dolfyn/io/api.py
+++ b/dolfyn/io/api.py
@@ -290,6 +290,9 @@ def save_mat(ds, filename, datenum=True):
 
     filename = _check_file_ext(filename, 'mat')
 
+    # What follows must not change the caller's dataset
+    ds = ds.copy()
+
     # Convert time to datenum
     t_coords = [t for t in ds.coords if np.issubdtype(
         ds[t].dtype, np.datetime64)]
-- 
2.43.0


From cd41066b588a31bba80863160290fe5c6e42043d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:32 +0000
Subject: [PATCH 60/79] fix: Datasets with missing times cannot be saved in
 MATLAB format, and attributes of times are lost

---
 dolfyn/io/api.py | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/dolfyn/io/api.py b/dolfyn/io/api.py
index 58e2acf..8090dd5 100644
--- a/dolfyn/io/api.py
+++ b/dolfyn/io/api.py
@@ -304,12 +304,12 @@ def save_mat(ds, filename, datenum=True):
     else:
         func = date2epoch
 
-    for ky in t_coords:
-        dt = func(dt642date(ds[ky]))
-        ds = ds.assign_coords({ky: (ky, dt, ds[ky].attrs)})
-    for ky in t_data:
-        dt = func(dt642date(ds[ky]))
-        ds[ky].data = dt
+    for ky in t_coords + t_data:
+        t = ds[ky].values
+        dt = np.full(t.shape, np.nan)
+        ok = ~np.isnat(t)
+        dt[ok] = func(dt642date(t[ok]))
+        ds[ky] = (ds[ky].dims, dt, ds[ky].attrs)
 
     ds.attrs['time_coords'] = t_coords
     ds.attrs['time_data_vars'] = t_data
@@ -389,15 +389,12 @@ def load_mat(filename, datenum=True):
         func = epoch2date
 
     # Restore datnum to np.dt64
-    if hasattr(ds, 'time_coords'):
-        for ky in ds.attrs['time_coords']:
-            dt = date2dt64(func(ds[ky].values))
-            ds = ds.assign_coords({ky: dt})
-        ds.attrs.pop('time_coords')
-    if hasattr(ds, 'time_data_vars'):
-        for ky in ds.attrs['time_data_vars']:
-            dt = date2dt64(func(ds[ky].values))
-            ds[ky].data = dt
-        ds.attrs.pop('time_data_vars')
+    for ky in [*ds.attrs.pop('time_coords', []),
+               *ds.attrs.pop('time_data_vars', [])]:
+        t = ds[ky].values
+        dt = np.full(t.shape, 'NaT', 'datetime64[ns]')
+        ok = ~np.isnan(t)
+        dt[ok] = date2dt64(func(t[ok]))
+        ds[ky] = (ds[ky].dims, dt, ds[ky].attrs)
 
     return ds
-- 
2.43.0


From 7a50973fb01301b71290c066d05b2628c92feb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:32 +0000
Subject: [PATCH 61/79] fix: Logical variables and empty attributes are not
 restored from MATLAB files

---
 dolfyn/io/api.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/dolfyn/io/api.py b/dolfyn/io/api.py
index 8090dd5..acdf73f 100644
--- a/dolfyn/io/api.py
+++ b/dolfyn/io/api.py
@@ -313,6 +313,8 @@ def save_mat(ds, filename, datenum=True):
 
     ds.attrs['time_coords'] = t_coords
     ds.attrs['time_data_vars'] = t_data
+    ds.attrs['bool_vars'] = [ky for ky in ds.variables
+                             if ds[ky].dtype == bool]
 
     # Save xarray structure with more descriptive structure names
     matfile = {'vars': {}, 'coords': {}, 'config': {},
@@ -374,14 +376,18 @@ def load_mat(filename, datenum=True):
     for nm in ds.attrs:
         if isinstance(ds.attrs[nm], np.ndarray) and ds.attrs[nm].size > 1:
             try:
-                ds.attrs[nm] = [x.strip(' ') for x in list(ds.attrs[nm])]
+                ds.attrs[nm] = [x.rstrip(' ') for x in list(ds.attrs[nm])]
             except:
                 ds.attrs[nm] = list(ds.attrs[nm])
-        elif isinstance(ds.attrs[nm], str) and nm in ['time_coords', 'time_data_vars', 'rotate_vars']:
+        elif isinstance(ds.attrs[nm], np.ndarray) and ds.attrs[nm].dtype.kind == 'U':
+            ds.attrs[nm] = ''
+        elif isinstance(ds.attrs[nm], str) and nm in ['time_coords', 'time_data_vars',
+                                                      'bool_vars', 'rotate_vars']:
             ds.attrs[nm] = [ds.attrs[nm]]
 
-    if hasattr(ds, 'orientation_down'):
-        ds['orientation_down'] = ds['orientation_down'].astype(bool)
+    for ky in ds.attrs.pop('bool_vars', ['orientation_down']):
+        if ky in ds.variables:
+            ds[ky] = ds[ky].astype(bool)
 
     if datenum:
         func = matlab2date
-- 
2.43.0


From 0aab73d5f9b9594625a29368278ccae62cb15dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:32 +0000
Subject: [PATCH 62/79] fix: Dimensions of length one and attributes of
 variables are lost in MATLAB files, and some datasets cannot be loaded

---
 dolfyn/io/api.py | 55 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/dolfyn/io/api.py b/dolfyn/io/api.py
index acdf73f..a18b602 100644
--- a/dolfyn/io/api.py
+++ b/dolfyn/io/api.py
@@ -281,12 +281,15 @@ def save_mat(ds, filename, datenum=True):
     """
 
     def copy_attrs(matfile, ds, key):
-        if hasattr(ds[key], 'units'):
-            matfile['units'][key] = ds[key].units
-        if hasattr(ds[key], 'long_name'):
-            matfile['long_name'][key] = ds[key].long_name
-        if hasattr(ds[key], 'standard_name'):
-            matfile['standard_name'][key] = ds[key].standard_name
+        other = {}
+        for nm, val in ds[key].attrs.items():
+            if nm in ['units', 'long_name', 'standard_name']:
+                matfile[nm][key] = val
+            else:
+                other[nm] = val
+        if other:
+            matfile['attrs'][key] = other
+        matfile['dims'][key] = list(ds[key].dims)
 
     filename = _check_file_ext(filename, 'mat')
 
@@ -317,8 +320,9 @@ def save_mat(ds, filename, datenum=True):
                              if ds[ky].dtype == bool]
 
     # Save xarray structure with more descriptive structure names
-    matfile = {'vars': {}, 'coords': {}, 'config': {},
-               'units': {}, 'long_name': {}, 'standard_name': {}}
+    matfile = {'vars': {}, 'coords': {}, 'config': {}, 'units': {},
+               'long_name': {}, 'standard_name': {}, 'attrs': {},
+               'dims': {}, 'sizes': dict(ds.sizes)}
     for ky in ds.data_vars:
         matfile['vars'][ky] = ds[ky].values
         copy_attrs(matfile, ds, ky)
@@ -358,19 +362,38 @@ def load_mat(filename, datenum=True):
 
     data = sio.loadmat(filename, struct_as_record=False, squeeze_me=True)
 
-    ds_dict = {'vars': {}, 'coords': {}, 'config': {},
-               'units': {}, 'long_name': {}, 'standard_name': {}}
-    for nm in ds_dict:
-        key_list = data[nm]._fieldnames
-        for ky in key_list:
-            ds_dict[nm][ky] = getattr(data[nm], ky)
+    def fields(struct):
+        return {ky: getattr(struct, ky)
+                for ky in getattr(struct, '_fieldnames', [])}
+
+    ds_dict = {nm: fields(data[nm]) for nm in
+               ['vars', 'coords', 'config', 'units', 'long_name', 'standard_name']}
 
     ds_dict['data_vars'] = ds_dict.pop('vars')
     ds_dict['attrs'] = ds_dict.pop('config')
 
     # Recreate dataset
-    ds = _create_dataset(ds_dict)
-    ds = _set_coords(ds, ds.coord_sys)
+    if 'dims' in data:
+        sizes = fields(data['sizes'])
+        ds = xr.Dataset(attrs=ds_dict['attrs'])
+        for ky, dims in fields(data['dims']).items():
+            dims = [d.strip(' ') for d in np.atleast_1d(dims)]
+            group = 'coords' if ky in ds_dict['coords'] else 'data_vars'
+            val = np.asarray(ds_dict[group][ky])
+            if val.dtype.kind == 'U':
+                val = np.char.strip(val, ' ')
+            val = xr.Variable(dims, val.reshape([sizes[d] for d in dims]))
+            for nm in ['units', 'long_name', 'standard_name']:
+                if ky in ds_dict[nm]:
+                    val.attrs[nm] = ds_dict[nm][ky]
+            val.attrs.update(fields(getattr(data['attrs'], ky, None)))
+            if group == 'coords':
+                ds = ds.assign_coords({ky: val})
+            else:
+                ds[ky] = val
+    else:  # saved by an older version
+        ds = _create_dataset(ds_dict)
+        ds = _set_coords(ds, ds.coord_sys)
 
     # Convert numpy arrays and strings back to lists
     for nm in ds.attrs:
-- 
2.43.0


From 64fe1200fd83fc43c998888a56685867ea9d78a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:17 +0000
Subject: [PATCH 63/79] fix: Interrupted and failed saves leave files that load
 as something else, or cannot be repeated

---
 dolfyn/io/api.py  |  8 +++++---
 dolfyn/io/base.py | 44 ++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 49 insertions(+), 3 deletions(-)

diff --git a/dolfyn/io/api.py b/dolfyn/io/api.py
index a18b602..8122b2f 100644
--- a/dolfyn/io/api.py
+++ b/dolfyn/io/api.py
@@ -5,7 +5,7 @@ import pkg_resources
 from .nortek import read_nortek
 from .nortek2 import read_signature
 from .rdi import read_rdi
-from .base import _create_dataset, _get_filetype
+from .base import _create_dataset, _get_filetype, _abspath, _replacing
 from ..rotate.base import _set_coords
 from ..time import date2matlab, matlab2date, date2dt64, dt642date, date2epoch, epoch2date
 
@@ -208,7 +208,8 @@ def save(ds, filename,
     # Fix encoding on datetime64 variables.
     ds = _decode_cf(ds)
 
-    ds.to_netcdf(filename, format=format, engine=engine, **kwargs)
+    with _replacing(_abspath(filename), kwargs.get('mode', 'w') != 'w') as temp:
+        ds.to_netcdf(temp, format=format, engine=engine, **kwargs)
 
 
 def load(filename):
@@ -331,7 +332,8 @@ def save_mat(ds, filename, datenum=True):
         copy_attrs(matfile, ds, ky)
     matfile['config'] = ds.attrs
 
-    sio.savemat(filename, matfile)
+    with _replacing(filename) as temp:
+        sio.savemat(temp, matfile)
 
 
 def load_mat(filename, datenum=True):
diff --git a/dolfyn/io/base.py b/dolfyn/io/base.py
index 65888a5..143de10 100644
--- a/dolfyn/io/base.py
+++ b/dolfyn/io/base.py
@@ -1,8 +1,11 @@
 import numpy as np
 import xarray as xr
+import errno
 import json
 import os
 import logging
+import shutil
+import uuid
 import warnings
 from contextlib import contextmanager
 from pathlib import Path
@@ -36,6 +39,47 @@ def _debug_log(filename, debug):
         log.close()
 
 
+@contextmanager
+def _replacing(filename, append=False):
+    """The name of a file to write instead of `filename`, which it replaces
+    once it is complete and on the disk. Whatever fails, `filename` is never
+    incomplete.
+    """
+    target = os.path.realpath(filename)
+    exists = os.path.exists(target)
+    if exists and not os.path.isfile(target):  # e.g. a device
+        yield target
+        return
+    if exists and not os.access(target, os.W_OK):
+        raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), filename)
+    folder = os.path.dirname(target)
+    temp = os.path.join(folder, '.' + uuid.uuid4().hex + os.path.splitext(target)[1])
+    try:
+        if exists and append:
+            shutil.copyfile(target, temp)
+        yield temp
+        with open(temp, 'rb+') as f:
+            os.fsync(f.fileno())
+        if exists:
+            shutil.copymode(target, temp)
+        os.replace(temp, target)
+        if os.name == 'posix':
+            fd = os.open(folder, os.O_RDONLY)
+            try:
+                os.fsync(fd)
+            except OSError as e:  # not supported by some file systems
+                if e.errno not in (errno.EINVAL, errno.ENOTSUP):
+                    raise
+            finally:
+                os.close(fd)
+    except BaseException:
+        try:
+            os.unlink(temp)
+        except OSError:
+            pass
+        raise
+
+
 def _get_filetype(fname):
     """Detects whether the file is a Nortek, Signature (Nortek), or RDI
     file by reading the first few bytes of the file.
-- 
2.43.0


From f296e708b35c491143402d33fcf07f8a006143d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:49 +0000
Subject: [PATCH 64/79] fix: Matrices that are no rotations are accepted as
 inst2head_rotmat in beam coordinates

---
 dolfyn/rotate/api.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dolfyn/rotate/api.py b/dolfyn/rotate/api.py
index a3dd851..6526745 100644
--- a/dolfyn/rotate/api.py
+++ b/dolfyn/rotate/api.py
@@ -320,6 +320,7 @@ def set_inst2head_rotmat(ds, rotmat, inplace=True):
         # change `ds.attrs['inst2head_rotmat']` after calling this
         # function.
 
+        r_vec._check_inst2head_rotmat(ds)
         if not csin == 'beam':  # csin not 'beam', then we're in inst
             ds = r_vec._rotate_inst2head(ds)
         if csin not in ['inst', 'beam']:
-- 
2.43.0


From bd857237e4b4e5bb388fdb1356c98f97aea70a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:50 +0000
Subject: [PATCH 65/79] fix: read_rdi ignores userdata by default

---
 dolfyn/io/rdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index e8bffaf..07a16b8 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -13,7 +13,7 @@ from ..rotate.base import _set_coords
 from ..rotate.api import set_declination
 
 
-def read_rdi(filename, userdata=None, nens=None, debug_level=-1,
+def read_rdi(filename, userdata=True, nens=None, debug_level=-1,
              vmdas_search=False, winriver=False, **kwargs):
     """Read a TRDI binary data file.
 
-- 
2.43.0


From b966c6abfd96cc1eccce1fdd0b9a38a2aa316d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:50 +0000
Subject: [PATCH 66/79] fix: Userdata given by name is not used, and userdata
 that is no JSON object is not reported

---
 dolfyn/io/base.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/dolfyn/io/base.py b/dolfyn/io/base.py
index 143de10..9fb52d3 100644
--- a/dolfyn/io/base.py
+++ b/dolfyn/io/base.py
@@ -112,16 +112,15 @@ def _get_filetype(fname):
 
 def _find_userdata(filename, userdata=True):
     # This function finds the file to read
-    if userdata:
+    if isinstance(userdata, (str, os.PathLike)) or hasattr(userdata, 'read'):
+        return _read_userdata(userdata)
+    elif userdata:
         filename = _abspath(filename)
         for basefile in [os.path.splitext(filename)[0],
                          filename]:
             jsonfile = basefile + '.userdata.json'
             if os.path.isfile(jsonfile):
                 return _read_userdata(jsonfile)
-
-    elif isinstance(userdata, (str, )) or hasattr(userdata, 'read'):
-        return _read_userdata(userdata)
     return {}
 
 
@@ -129,8 +128,14 @@ def _read_userdata(fname):
     """Reads a userdata.json file and returns the data it contains as a
     dictionary.
     """
-    with open(fname, encoding='utf-8') as data_file:
-        data = json.load(data_file)
+    if hasattr(fname, 'read'):
+        data = json.load(fname)
+    else:
+        with open(_abspath(fname), encoding='utf-8') as data_file:
+            data = json.load(data_file)
+    if not isinstance(data, dict):
+        raise ValueError("The userdata in '{}' is not a JSON "
+                         "object.".format(fname))
     for nm in ['body2head_rotmat', 'body2head_vec']:
         if nm in data:
             new_name = 'inst' + nm[4:]
-- 
2.43.0


From 8194eccf4ad6cf065e22e7a980c74ab0b24280cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:50 +0000
Subject: [PATCH 67/79] fix: Userdata with 'dec', 'rotmat' or 'config' in their
 names are taken for something else

---
 dolfyn/io/nortek.py  | 4 ++--
 dolfyn/io/nortek2.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index a3b3067..8348192 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -74,9 +74,9 @@ def _read_nortek(filename, userdata, debug, do_checksum, nens):
     rotmat = None
     declin = None
     for nm in userdata:
-        if 'rotmat' in nm:
+        if nm == 'inst2head_rotmat':
             rotmat = userdata[nm]
-        elif 'dec' in nm:
+        elif nm == 'declination':
             declin = userdata[nm]
         else:
             dat['attrs'][nm] = userdata[nm]
diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index 23e3826..ac4ed60 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -83,7 +83,7 @@ def _read_signature(filename, userdata, nens, rebuild_index, debug, dual_profile
 
     declin = None
     for nm in userdata:
-        if 'dec' in nm:
+        if nm == 'declination':
             declin = userdata[nm]
         else:
             out['attrs'][nm] = userdata[nm]
@@ -100,14 +100,14 @@ def _read_signature(filename, userdata, nens, rebuild_index, debug, dual_profile
 
     # Convert config dictionary to json string
     for key in list(ds.attrs.keys()):
-        if 'config' in key:
+        if 'config' in key and key not in userdata:
             ds.attrs[key] = json.dumps(ds.attrs[key])
 
     # Return two datasets if dual profile
     if rdr._dp:
         ds, ds2 = split_dp_datasets(ds)
         for nm in userdata:
-            if 'dec' not in nm:
+            if nm != 'declination':
                 ds2.attrs[nm] = userdata[nm]
         out = (ds, ds2)
     else:
-- 
2.43.0


From f532618f0a4184b120d5b3d12f1feb30629afacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:26 +0000
Subject: [PATCH 68/79] fix: An invalid clock in TRDI ensembles loses or
 distorts other data

---
 dolfyn/io/rdi.py | 56 ++++++++++++++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 07a16b8..2cb941a 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -117,6 +117,19 @@ def _read_rdi(filename, userdata, nens, debug_level, vmdas_search, winriver):
     return dss[0]
 
 
+def _datetime(clock, century=defs.century):
+    """The date the clock of the instrument reads (years without a century are
+    those of this century). ValueError if that is no date.
+    """
+    clock = [int(c) for c in clock]
+    if clock[0] < 100:
+        clock[0] += century
+    if not 1900 <= clock[0] < 2200:
+        raise ValueError("The year of the clock is {}".format(clock[0]))
+    us = clock[6] * 10000 if len(clock) > 6 else 0
+    return tmlib.datetime(*clock[:6], microsecond=us)
+
+
 def _remove_gps_duplicates(dat):
     """Removes duplicate and nan timestamp values in 'time_gps' coordinate,
     and add hardware (ADCP DAQ) timestamp corresponding to GPS acquisition
@@ -333,10 +346,6 @@ class _RDIReader():
                 datl += [self.outdBB]
 
             for var, en, dat in zip(vars, ens, datl):
-                clock = en.rtc[:, :]
-                if clock[0, 0] < 100:
-                    clock[0, :] += defs.century
-
                 for nm in var:
                     # If n_cells has increased (WinRiver transects)
                     ds = defs._get(dat, nm)
@@ -350,9 +359,7 @@ class _RDIReader():
                     ds[..., iens] = bn
 
                 try:
-                    dates = tmlib.date2epoch(
-                        tmlib.datetime(*clock[:6, 0],
-                                       microsecond=clock[6, 0] * 10000))[0]
+                    dates = tmlib.date2epoch(_datetime(en.rtc[:, 0]))[0]
                 except ValueError:
                     warnings.warn("Invalid time stamp in ping {}.".format(
                         int(self.ensemble.number[0])))
@@ -891,7 +898,8 @@ class _RDIReader():
                 fd.seek(15, 1)
                 cent = fd.read_ui8(1)
                 ens.rtc[:, k] = fd.read_ui8(7)
-                ens.rtc[0, k] = ens.rtc[0, k] + cent * 100
+                if ens.rtc[0, k] < 100:
+                    ens.rtc[0, k] += cent * 100
                 self._nbyte += 23
         elif cfg['inst_model'].lower() == 'ocean surveyor':
             fd.seek(16, 1)  # 30 bytes all set to zero, 14 read above
@@ -917,7 +925,8 @@ class _RDIReader():
                 # Added more fields with century in clock
                 cent = fd.read_ui8(1)
                 ens.rtc[:, k] = fd.read_ui8(7)
-                ens.rtc[0, k] = ens.rtc[0, k] + cent * 100
+                if ens.rtc[0, k] < 100:
+                    ens.rtc[0, k] += cent * 100
                 self._nbyte += 8
             if cfg['prog_ver'] >= 56:
                 fd.seek(1)  # lag near bottom flag
@@ -1105,7 +1114,12 @@ class _RDIReader():
                            ]
         # UTC date time
         utim = fd.read_ui8(4)
-        date_utc = tmlib.datetime(utim[2] + utim[3] * 256, utim[1], utim[0])
+        try:
+            date_utc = _datetime([int(utim[2]) + int(utim[3]) * 256,
+                                  utim[1], utim[0]], century=0)
+        except ValueError:
+            # The clock of the navigation system is invalid
+            date_utc = None
 
         # 1st lat/lon position after previous ADCP ping
         # This byte is in hundredths of seconds (10s of milliseconds):
@@ -1119,7 +1133,10 @@ class _RDIReader():
         # Last lat/lon position prior to current ADCP ping
         utc_time_fix = tmlib.timedelta(
             milliseconds=(int(fd.read_ui32(1) / 10)))
-        ens.time_gps[k] = tmlib.date2epoch(date_utc + utc_time_fix)[0]
+        if date_utc is None:
+            ens.time_gps[k] = np.NaN
+        else:
+            ens.time_gps[k] = tmlib.date2epoch(date_utc + utc_time_fix)[0]
         ens.latitude_gps[k] = fd.read_i32(1) * self._cfac
         ens.longitude_gps[k] = fd.read_i32(1) * self._cfac
 
@@ -1132,11 +1149,7 @@ class _RDIReader():
         ens.flags_gps[k] = int(np.binary_repr(fd.read_ui16(1)))
         fd.seek(6, 1)  # reserved, ADCP ensemble #
 
-        # ADCP date time
-        utim = fd.read_ui8(4)
-        date_adcp = tmlib.datetime(utim[0] + utim[1] * 256, utim[3], utim[2])
-        time_adcp = tmlib.timedelta(
-            milliseconds=(int(fd.read_ui32(1) / 10)))
+        fd.seek(8, 1)  # ADCP date and time
 
         ens.pitch_gps[k] = fd.read_ui16(1) * 180 / 2 ** 15
         ens.roll_gps[k] = fd.read_ui16(1) * 180 / 2 ** 15
@@ -1179,11 +1192,12 @@ class _RDIReader():
                                        minutes=int(gga_time[2:4]),
                                        seconds=int(gga_time[4:6]),
                                        milliseconds=int(float(gga_time[6:])*1000))
-                clock = self.ensemble.rtc[:, :]
-                if clock[0, 0] < 100:
-                    clock[0, :] += defs.century
-                date = tmlib.datetime(*clock[:3, 0]) + time
-                ens.time_gps[k] = tmlib.date2epoch(date)[0]
+                try:
+                    date = _datetime(self.ensemble.rtc[:3, k]) + time
+                    ens.time_gps[k] = tmlib.date2epoch(date)[0]
+                except ValueError:
+                    # The clock of the ADCP is invalid
+                    ens.time_gps[k] = np.NaN
                 self.f.seek(1, 1)
                 ens.latitude_gps[k] = self.f.read_f64(1)
                 tcNS = self.f.reads(1)  # 'N' or 'S'
-- 
2.43.0


From 3b8ed400ab244ede80f7f371e589659e7b2773ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:26 +0000
Subject: [PATCH 69/79] fix: Times before 1970 with fractions of a second are
 one second late

---
 dolfyn/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/time.py b/dolfyn/time.py
index c3dc07b..a74872d 100644
--- a/dolfyn/time.py
+++ b/dolfyn/time.py
@@ -26,7 +26,7 @@ def epoch2dt64(ep_time):
     """
 
     # assumes t0=1970-01-01 00:00:00
-    out = np.array(ep_time.astype('int')).astype('datetime64[s]')
+    out = np.array(np.floor(ep_time).astype('int')).astype('datetime64[s]')
     out = out + ((ep_time % 1) * 1e9).astype('timedelta64[ns]')
     return out
 
-- 
2.43.0


From 6f23bcd648889d5d02f7dbb413ef504c8d717a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:26 +0000
Subject: [PATCH 70/79] fix: Signature recordings with an invalid month cannot
 be indexed

---
 dolfyn/io/nortek2_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek2_lib.py b/dolfyn/io/nortek2_lib.py
index 9253be8..f1246f3 100644
--- a/dolfyn/io/nortek2_lib.py
+++ b/dolfyn/io/nortek2_lib.py
@@ -210,7 +210,7 @@ def _index_records(fin, infile, N_ens, debug):
 
             fout.write(struct.pack('<QIQ4H6BHBI', N[idk], ens[idk], pos, idk,
                                    config, beams_cy, 0,
-                                   yr, mo + 1, dy, h, m, s, u, d_ver, rec_ens))
+                                   yr, (mo + 1) % 256, dy, h, m, s, u, d_ver, rec_ens))
             fin.seek(dat[4] - (36 + seek_2ens[idk]), 1)
             last_ens[idk] = ens[idk]
 
-- 
2.43.0


From 4b7d86b78d63454ff9b50444dfc6e69c3591878e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:26 +0000
Subject: [PATCH 71/79] fix: Faults of the clock of a Vector lose its
 orientation, valid times and sensor readings

---
 dolfyn/io/nortek.py  | 7 +++++--
 dolfyn/tools/misc.py | 8 ++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index 8348192..cf7be12 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -940,7 +940,8 @@ class _NortekReader():
         self._sci_data(nortek_defs.vec_sysdata)
         t = dat['coords']['time']
         dv = dat['data_vars']
-        dat['sys']['_sysi'] = ~np.isnan(t)
+        # (the clock may have been invalid in some of the records)
+        dat['sys']['_sysi'] = ~np.isnan(dv['batt'])
         # These are the indices in the sysdata variables
         # that are not interpolated.
         nburst = self.config['n_burst']
@@ -956,7 +957,9 @@ class _NortekReader():
             if len(sysi) == 0:
                 break
             # Skip the first entry for the interpolation process
-            inds = np.nonzero(sysi)[0][1:]
+            inds = np.nonzero(~np.isnan(t[iburst]))[0]
+            if len(inds) > 1 or (len(inds) and inds[0] == 0):
+                inds = inds[1:]
             arng = np.arange(len(t[iburst]), dtype=np.float64)
             if len(inds) >= 2:
                 p = np.poly1d(np.polyfit(inds, t[iburst][inds], 1))
diff --git a/dolfyn/tools/misc.py b/dolfyn/tools/misc.py
index baba0be..70e003a 100644
--- a/dolfyn/tools/misc.py
+++ b/dolfyn/tools/misc.py
@@ -263,8 +263,12 @@ def interpgaps(a, t, maxgap=np.inf, dim=0, extrapFlg=False):
                      (np.diff(gd) <= maxgap + 1))
         for i2 in range(0, inds.__len__()):
             ii = np.arange(gd[inds[i2]] + 1, gd[inds[i2] + 1])
-            ti = (t[ii] - t[gd[inds[i2]]]) / np.diff(t[[gd[inds[i2]],
-                                                        gd[inds[i2] + 1]]])
+            t0, t1 = t[gd[inds[i2]]], t[gd[inds[i2] + 1]]
+            if t0 == t1 or not ((t[ii] - t0) * (t[ii] - t1) <= 0).all():
+                # The times do not tell where the points lie in the gap
+                ti = (ii - ii[0] + 1) / (len(ii) + 1)
+            else:
+                ti = (t[ii] - t0) / (t1 - t0)
             a[ii] = (np.diff(a[gd[[inds[i2], inds[i2] + 1]]]) * ti +
                      a[gd[inds[i2]]]).astype(a.dtype)
 
-- 
2.43.0


From ee1bf682b0b758967ba831268d44d61bfed5b647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:26 +0000
Subject: [PATCH 72/79] fix: Headings of a Vector are interpolated the long way
 round through north

---
 dolfyn/io/nortek.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index cf7be12..533984f 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -980,7 +980,12 @@ class _NortekReader():
             dv['orientation_down'][iburst] = tmpd.astype('bool')
         tbx.interpgaps(dv['batt'], t)
         tbx.interpgaps(dv['c_sound'], t)
-        tbx.interpgaps(dv['heading'], t)
+        # The heading turns the short way, also through north
+        known = ~np.isnan(dv['heading'])
+        heading = dv['heading'].astype(np.float64)
+        heading[known] = np.unwrap(heading[known], period=360)
+        tbx.interpgaps(heading, t)
+        dv['heading'][~known] = heading[~known] % 360
         tbx.interpgaps(dv['pitch'], t)
         tbx.interpgaps(dv['roll'], t)
         tbx.interpgaps(dv['temp'], t)
-- 
2.43.0


From bc1a3849034ea02063d8f7b96043e56cd6ecbfde Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 05:50:10 +0000
Subject: [PATCH 73/79] fix: Signature bottom track configuration is decoded as
 that of a burst

---
 dolfyn/io/nortek2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index ac4ed60..da5fe77 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -522,7 +522,7 @@ def _reorg(dat):
         outdat['standard_name'].update(dnow['standard_name'])
         cfg['burst_config' + tag] = lib._headconfig_int2dict(
             lib._collapse(dset['config'][rec], exclude=collapse_exclude,
-                          name='config'))
+                          name='config'), mode='bt' if id == 23 else 'burst')
         outdat['coords']['time' + tag] = lib._calc_time(
             dnow['year'] + 1900,
             dnow['month'],
-- 
2.43.0


From 232fff5466e7a8b67a153f208eeae23b1638e667 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 05:59:17 +0000
Subject: [PATCH 74/79] fix: Memory for all samples a damaged Signature raw
 altimeter record claims is allocated

---
 dolfyn/io/nortek2.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index da5fe77..33f1be5 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -364,6 +364,10 @@ class _Ad2cpReader():
                 # Now read the num_samples
                 sz = unpack('<I', self.f.read(4))[0]
                 self.f.seek(-shift - 4, 1)
+                if shift + 6 + 2 * sz > hdr['sz']:
+                    raise Exception(
+                        "The number of samples in this 'Altimeter Raw' "
+                        "burst is larger than the burst.")
                 if first_pass:
                     # Fix the reader
                     rdr._shape[tmp_idx].append(sz)
-- 
2.43.0


From 64c0a7b70a8fa0acc3d29b2de5d7776487dfc91d Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 06:13:20 +0000
Subject: [PATCH 75/79] fix: Variables of one stream carry the label of another

---
 dolfyn/io/base.py    | 2 +-
 dolfyn/io/nortek2.py | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/base.py b/dolfyn/io/base.py
index 9fb52d3..bae2313 100644
--- a/dolfyn/io/base.py
+++ b/dolfyn/io/base.py
@@ -337,7 +337,7 @@ def _create_dataset(data):
                 ds[key].attrs['coverage_content_type'] = 'physicalMeasurement'
             try:  # make sure ones with tags get units
                 tg = '_' + key.rsplit('_')[-1]
-                if any(val in key for val in tag):
+                if any(val in key for val in tag) and key not in data[md]:
                     ds[key].attrs[md] = data[md][key[:-len(tg)]]
             except:
                 pass
diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index 33f1be5..de90135 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -519,7 +519,10 @@ def _reorg(dat):
             dset = dat['settings'].get(id, dnow)
             rec = np.ones(len(dset['ver']), dtype=bool)
         outdat['units'].update(dnow['units'])
-        outdat['long_name'].update(dnow['long_name'])
+        for ky, val in dnow['long_name'].items():
+            # This may be another quantity than that of the other streams
+            if outdat['long_name'].setdefault(ky, val) != val:
+                outdat['long_name'][ky + tag] = val
         for ky in dnow['units']:
             if not dnow['standard_name'][ky]:
                 dnow['standard_name'].pop(ky)
-- 
2.43.0


From 3f9a4c19d2872dc39328eb9c05e2c907adf97802 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 06:54:26 +0000
Subject: [PATCH 76/79] fix: Names of Signature settings lose more than their
 prefix

The name of a configuration line was stripped of all leading letters G, E
and T rather than of the prefix GET (GETECHO became CHO).
---
 dolfyn/io/nortek2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index de90135..c08fec9 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -227,7 +227,7 @@ class _Ad2cpReader():
         for ky in out:
             if ky.startswith('GET'):
                 dat = out[ky]
-                d = out2[ky.lstrip('GET')] = dict()
+                d = out2[ky[3:]] = dict()
                 for itm in dat.split(','):
                     k, val = itm.split('=')
                     try:
-- 
2.43.0


From e6b94a8a501620f36c2a99237cd20b0d99b2d258 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 06:54:38 +0000
Subject: [PATCH 77/79] fix: A Signature recording cannot be read if a text in
 its settings has a comma

Nor if it has an equals sign.
---
 dolfyn/io/nortek2.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index c08fec9..36d67c1 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -3,6 +3,7 @@ from struct import unpack, calcsize
 import warnings
 import logging
 import json
+import re
 
 from . import nortek2_defs as defs
 from . import nortek2_lib as lib
@@ -228,8 +229,9 @@ class _Ad2cpReader():
             if ky.startswith('GET'):
                 dat = out[ky]
                 d = out2[ky[3:]] = dict()
-                for itm in dat.split(','):
-                    k, val = itm.split('=')
+                # (texts in quotes may have these characters, too)
+                for itm in re.findall(r'(?:"[^"]*"|[^,])+', dat):
+                    k, val = itm.split('=', 1)
                     try:
                         val = int(val)
                     except ValueError:
-- 
2.43.0


From 1062113eb775b46091319cf1f715b4d07f3fee6c Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 07:33:32 +0000
Subject: [PATCH 78/79] fix: Bottom ranges of WinRiver recordings take their
 high bytes from the wrong place

The end of the bottom track block was sought 12 bytes short when the
block carries the position of WinRiver, so bytes of the skipped data were
added to the ranges as multiples of 655.36 m.
---
 dolfyn/io/rdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 2cb941a..f7f7a90 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -1056,7 +1056,7 @@ class _RDIReader():
                                                        ens.longitude_gps[k]))
                 ens.latitude_gps[k] = np.NaN
                 ens.longitude_gps[k] = np.NaN
-            fd.seek(71 - 45 - 16 - 17, 1)
+            fd.seek(5, 1)
             self._nbyte = 2 + 68
         else:
             # Skip reference layer data
-- 
2.43.0


From d7207efb07e5bafa8abe9179408f3fbc5cd2339d Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 07:58:10 +0000
Subject: [PATCH 79/79] fix: Signature altimeter settings are those of
 ensembles without a record

Where most ensembles to be read have no burst record, the altimeter status
was collapsed over the zeros of these, unlike the other settings.
---
 dolfyn/io/nortek2.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index 36d67c1..ea4bc28 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -460,7 +460,7 @@ class _Ad2cpReader():
                                10.0 ** dnow['vel_scale']).astype('float32')
 
 
-def _altraw_reorg(outdat, tag=''):
+def _altraw_reorg(outdat, status_alt, tag=''):
     """Submethod for `_reorg` particular to raw altimeter pings (ID 26 and 31)
     """
     for ky in list(outdat['data_vars']):
@@ -472,7 +472,7 @@ def _altraw_reorg(outdat, tag=''):
 
     # Read altimeter status
     outdat['data_vars'].pop('status_altraw' + tag)
-    status_alt = lib._alt_status2data(outdat['data_vars']['status_alt' + tag])
+    status_alt = lib._alt_status2data(status_alt)
     for ky in status_alt:
         outdat['attrs'][ky + tag] = lib._collapse(
             status_alt[ky].astype('uint8'), name=ky)
@@ -501,6 +501,7 @@ def _reorg(dat):
     cfg['inst_model'] = (cfh['ID'].split(',')[0][5:-1])
     cfg['inst_make'] = 'Nortek'
     cfg['inst_type'] = 'ADCP'
+    status_alt = {}
 
     for id, tag in [(21, ''), (22, '_avg'), (23, '_bt'),
                     (24, '_b5'), (26, 'raw'), (28, '_echo'),
@@ -576,12 +577,14 @@ def _reorg(dat):
                    ]:
             if ky in dnow:
                 outdat['data_vars'][ky + tag] = dnow[ky]
+        if 'status_alt' in dset:
+            status_alt[tag] = dset['status_alt'][rec]
 
     # Move 'altimeter raw' data to its own down-sampled structure
     if 26 in dat:
-        _altraw_reorg(outdat)
+        _altraw_reorg(outdat, status_alt[''])
     if 31 in dat:
-        _altraw_reorg(outdat, tag='_avg')
+        _altraw_reorg(outdat, status_alt['_avg'], tag='_avg')
 
     # Read status data
     status0_vars = [x for x in outdat['data_vars'] if 'status0' in x]
-- 
2.43.0

