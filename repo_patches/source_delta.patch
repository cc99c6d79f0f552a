From 04ebce2cca1fb59e76eaf53da53cb9d03991b766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:18 +0000
Subject: [PATCH 01/30] fix: DataContainer deletion honours the reversed
 baseline orientation

---
 hera_cal/datacontainer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hera_cal/datacontainer.py b/hera_cal/datacontainer.py
index 3f24509..fa9e550 100644
--- a/hera_cal/datacontainer.py
+++ b/hera_cal/datacontainer.py
@@ -180,6 +180,8 @@ class DataContainer:
                     f'{k} is not.'
                 )
             k = comply_bl(k)
+            if k not in self._data and reverse_bl(k) in self._data:
+                k = reverse_bl(k)
             del self._data[k]
         self._antpairs = {k[:2] for k in self._data.keys()}
         self._pols = {k[-1] for k in self._data.keys()}
-- 
2.43.0


From ff6a5bb02af88e0baa82678f50205d8b5a4f428f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:18 +0000
Subject: [PATCH 02/30] fix: floor-dividing DataContainers returns a
 DataContainer

---
 hera_cal/datacontainer.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/hera_cal/datacontainer.py b/hera_cal/datacontainer.py
index fa9e550..9f65412 100644
--- a/hera_cal/datacontainer.py
+++ b/hera_cal/datacontainer.py
@@ -340,9 +340,6 @@ class DataContainer:
             if D[list(D.keys())[0]].shape[1] != self.__getitem__(list(self.keys())[0]).shape[1]:
                 raise ValueError("[1] axis of dictionary values don't match")
 
-            # start new object
-            newD = odict()
-
             # iterate over D keys
             for i, k in enumerate(D.keys()):
                 if self.__contains__(k):
-- 
2.43.0


From 07f083aa8084140ab256457cfcff0c5b80bea397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:18 +0000
Subject: [PATCH 03/30] fix: select times and frequencies correctly when the
 container's axis is not sorted

---
 hera_cal/datacontainer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hera_cal/datacontainer.py b/hera_cal/datacontainer.py
index 9f65412..ad3e05d 100644
--- a/hera_cal/datacontainer.py
+++ b/hera_cal/datacontainer.py
@@ -520,7 +520,8 @@ class DataContainer:
             nt_inds = indices
             new_times = np.array(dc.times)[nt_inds]
         else:
-            nt_inds = np.searchsorted(np.array(dc.times), np.array(new_times))
+            order = np.argsort(dc.times, kind='stable')  # times need not be sorted, e.g. after a previous selection
+            nt_inds = order[np.searchsorted(np.array(dc.times), np.array(new_times), sorter=order)]
 
         for bl in dc:
             assert dc[bl].shape[0] == len(dc.times), 'select_or_expand_times assume that time is the 0th data dimension.'
@@ -579,7 +580,8 @@ class DataContainer:
 
             if not np.all([fq in obj.freqs for fq in freqs]):
                 raise ValueError('All freqs must be in self.freqs.')
-            channels = np.searchsorted(obj.freqs, freqs)
+            order = np.argsort(obj.freqs, kind='stable')  # freqs need not be sorted, e.g. after a previous selection
+            channels = order[np.searchsorted(obj.freqs, freqs, sorter=order)]
 
         if obj.freqs is None:
             warnings.warn("It is impossible to automatically detect which axis is frequency. Trying last axis.")
-- 
2.43.0


From 051815d7cf1d8dd68b73ea002f89fed76ba1cc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:18 +0000
Subject: [PATCH 04/30] fix: select_freqs cuts the frequency axis when Ntimes
 equals Nfreqs

---
 hera_cal/datacontainer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hera_cal/datacontainer.py b/hera_cal/datacontainer.py
index ad3e05d..da1679a 100644
--- a/hera_cal/datacontainer.py
+++ b/hera_cal/datacontainer.py
@@ -587,7 +587,9 @@ class DataContainer:
             warnings.warn("It is impossible to automatically detect which axis is frequency. Trying last axis.")
             axis = -1
         else:
-            axis = obj[next(iter(obj.keys()))].shape.index(len(obj.freqs))
+            # if more than one axis matches (e.g. Ntimes == Nfreqs), use the last one
+            shape = obj[next(iter(obj.keys()))].shape
+            axis = len(shape) - 1 - shape[::-1].index(len(obj.freqs))
         for bl in obj:
             obj[bl] = obj[bl].take(channels, axis=axis)
 
-- 
2.43.0


From 192b91cc787c1f1ee45046604ecd0e0ce4612d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:18 +0000
Subject: [PATCH 05/30] fix: DataContainer.concatenate yields each shared
 baseline once

---
 hera_cal/datacontainer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hera_cal/datacontainer.py b/hera_cal/datacontainer.py
index da1679a..1923f21 100644
--- a/hera_cal/datacontainer.py
+++ b/hera_cal/datacontainer.py
@@ -209,8 +209,7 @@ class DataContainer:
                     raise ValueError("[0] axis of dictionary values aren't identical in length")
 
         # get shared keys
-        keys = set(sum((list(d.keys()) for d in D), []))
-        keys = [k for k in keys if k in self]
+        keys = [k for k in self.keys() if any(k in d for d in D)]
 
         # iterate over D keys
         newD = {k: np.concatenate([self[k]] + [d[k] for d in D], axis=axis) for k in keys}
-- 
2.43.0


From 381a5c3d9c8c93582e762bbe503452591dae92da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:09 +0000
Subject: [PATCH 06/30] fix: removing a redundant group keeps antennas that
 other groups still use

---
 hera_cal/red_groups.py | 21 +--------------------
 1 file changed, 1 insertion(+), 20 deletions(-)

diff --git a/hera_cal/red_groups.py b/hera_cal/red_groups.py
index 73aa073..8fae765 100644
--- a/hera_cal/red_groups.py
+++ b/hera_cal/red_groups.py
@@ -196,7 +196,6 @@ class RedundantGroups:
                         raise TypeError("All baselines must have the same type, got an AntPair and a Baseline")
 
     def __attrs_post_init__(self):
-        self._data_ants = {ant for red in self._red_list for ap in red for ant in ap[:2]}
         self._data_bls = {bl for red in self._red_list for bl in red}
 
         self._red_key_to_bls_map = {}
@@ -276,23 +275,7 @@ class RedundantGroups:
     @property
     def data_ants(self) -> frozenset[int]:
         """The set of antennas that are in the baseline groups."""
-        return frozenset(self._data_ants)
-
-    def _add_data_ants(self, ants: Iterable[int]):
-        """Add antennas to the list of antennas in the baseline groups.
-
-        Not to be called by users, but used internally to quickly update the cached
-        properties (rather than having to fully recompute them).
-        """
-        self._data_ants.update(ants)
-
-    def _remove_data_ants(self, ants: Iterable[int]):
-        """Remove antennas from the list of antennas in the baseline groups.
-
-        Not to be called by users, but used internally to quickly update the cached
-        properties (rather than having to fully recompute them).
-        """
-        self._data_ants.difference_update(ants)
+        return frozenset(ant for bl in self._data_bls for ant in bl[:2])
 
     @property
     def data_bls(self) -> frozenset[BlLike]:
@@ -306,7 +289,6 @@ class RedundantGroups:
         properties (rather than having to fully recompute them).
         """
         self._data_bls.update(bls)
-        self._add_data_ants({ant for bl in bls for ant in bl[:2]})
 
     def _remove_data_bls(self, bls: Iterable[BlLike]):
         """Remove baselines from the list of baselines in the baseline groups.
@@ -315,7 +297,6 @@ class RedundantGroups:
         properties (rather than having to fully recompute them).
         """
         self._data_bls.difference_update(bls)
-        self._remove_data_ants({ant for bl in bls for ant in bl[:2]})
 
     def _reset_ubl(self, ubl: BlLike, bls: Iterable[BlLike]):
         """Reset the redundant group associated with a unique baseline.
-- 
2.43.0


From 402f2a3d3aa803f58cc2fc35e964851624082773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:09 +0000
Subject: [PATCH 07/30] fix: RedundantGroups.append(inplace=False) works on the
 copy, not the original

---
 hera_cal/red_groups.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hera_cal/red_groups.py b/hera_cal/red_groups.py
index 8fae765..fcc6a73 100644
--- a/hera_cal/red_groups.py
+++ b/hera_cal/red_groups.py
@@ -422,7 +422,7 @@ class RedundantGroups:
                 if inplace:
                     return
                 else:
-                    return self
+                    return obj
 
             # Now we're gaurenteed that we have some baselines that are new, and that
             # they all map to the same already-existing group.
@@ -436,7 +436,7 @@ class RedundantGroups:
             else:
                 obj._red_list.insert(pos, red)
 
-            self._add_new_group(red)
+            obj._add_new_group(red)
 
         if not inplace:
             return obj
-- 
2.43.0


From b3ee51463b96d8d5250444764753a440db47386f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:09 +0000
Subject: [PATCH 08/30] fix: RedundantGroups finds the group of a baseline by
 membership, not by its first element

---
 hera_cal/red_groups.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/hera_cal/red_groups.py b/hera_cal/red_groups.py
index fcc6a73..09c6da9 100644
--- a/hera_cal/red_groups.py
+++ b/hera_cal/red_groups.py
@@ -427,8 +427,7 @@ class RedundantGroups:
             # Now we're gaurenteed that we have some baselines that are new, and that
             # they all map to the same already-existing group.
             ublkey = next(iter(ubls.values()))
-            obj[ublkey] = sorted(set(self[ublkey] + red))
-            obj._reset_ubl(ublkey, obj[ublkey])
+            obj[ublkey] = sorted(set(self[ublkey] + list(red)))
         else:
             # We're adding a completely new group
             if pos is None:
@@ -465,26 +464,24 @@ class RedundantGroups:
             self._reset_ubl(self.get_ubl_key(self._red_list[key][0]), value)
             self._red_list[key] = value
         elif key in self:
-            ukey = self.get_ubl_key(key)
-            self._red_list = [value if red[0] == ukey else red for red in self._red_list]
-            self._reset_ubl(ukey, value)
+            self[self.index(key)] = value
         else:
             # We're setting a new redundant group
             self.append(value)
 
     def __delitem__(self, key: int | BlLike):
-        if isinstance(key, int):
-            ukey = self.get_ubl_key(self._red_list[key][0])
-            del self._red_list[key]
-        else:
-            ukey = self.get_ubl_key(key)
-            self._red_list = [red for red in self._red_list if red[0] != ukey]
+        if not isinstance(key, int):
+            key = self.index(key)
 
+        ukey = self.get_ubl_key(self._red_list[key][0])
+        del self._red_list[key]
         self._remove_group(ukey)
 
     def index(self, key: BlLike) -> int:
         """Return the index of a redundant group."""
-        return list(self._red_key_to_bls_map.keys()).index(self.get_ubl_key(key))
+        ubl = self.get_ubl_key(key)
+        rubl = reverse_bl(ubl)
+        return [self.get_ubl_key(red[0]) in (ubl, rubl) for red in self._red_list].index(True)
 
     def filter_reds(self, *, inplace: bool = False, **kwargs) -> RedundantGroups:
         """Return a new RedundantGroups object with baselines filtered out.
-- 
2.43.0


From 24eec9a4484d7ed3d94cbde293cabe0a32470df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:09 +0000
Subject: [PATCH 09/30] fix: RedundantGroups keys appended and auto-correlation
 groups like initial ones

---
 hera_cal/red_groups.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/hera_cal/red_groups.py b/hera_cal/red_groups.py
index 09c6da9..1b6c331 100644
--- a/hera_cal/red_groups.py
+++ b/hera_cal/red_groups.py
@@ -329,7 +329,10 @@ class RedundantGroups:
             try:
                 ubl = self.key_chooser(bls)
             except NonExistentBaselineError:
-                ubl = bls[0]
+                try:
+                    ubl = reverse_bl(self.key_chooser([reverse_bl(bl) for bl in bls]))
+                except NonExistentBaselineError:
+                    ubl = bls[0]
 
         rubl = reverse_bl(ubl)
         self._red_key_to_bls_map[ubl] = bls
@@ -557,13 +560,11 @@ class RedundantGroups:
                 chooser=self.key_chooser.chooser,
             )
 
-            to_remap = [ubl for ubl in self._red_key_to_bls_map.keys() if ubl not in bls and reverse_bl(ubl) not in bls]
-            # Remove all flips....
-            to_remap = [ubl for ubl in to_remap if ubl[0] <= ubl[1]]
-
             obj.key_chooser = new_chooser
-            for bl in to_remap:
-                obj._reset_ubl(bl, self[bl])
+            for red in obj._red_list:
+                ubl = obj.get_ubl_key(red[0])
+                if ubl not in bls and reverse_bl(ubl) not in bls:
+                    obj._reset_ubl(ubl, red)
         if not inplace:
             return obj
 
-- 
2.43.0


From 13f5d16cca6ce92a9df78b5983f501f025bc0b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:09 +0000
Subject: [PATCH 10/30] fix: RedDataContainer handles data stored under a
 conjugated baseline of a group

---
 hera_cal/datacontainer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hera_cal/datacontainer.py b/hera_cal/datacontainer.py
index 1923f21..63c57f8 100644
--- a/hera_cal/datacontainer.py
+++ b/hera_cal/datacontainer.py
@@ -712,6 +712,8 @@ class RedDataContainer(DataContainer):
         redkeys = {}
         for bl in self.bls():
             ubl = self.reds.get_ubl_key(bl)
+            if reverse_bl(ubl) in redkeys:
+                ubl = reverse_bl(ubl)
             if ubl in redkeys:
                 raise ValueError(
                     'RedDataContainer can only be constructed with (at most) one baseline per group, '
@@ -728,7 +730,7 @@ class RedDataContainer(DataContainer):
         representing this group.
         '''
         # return self._reds_keyed_on_data.get_ubl_key(bl)
-        out = self.reds.get_reds_in_bl_set(bl, self.keys(), include_conj=False)
+        out = self.reds.get_reds_in_bl_set(bl, self.keys(), include_conj=True)
         if len(out) == 1:
             return next(iter(out))
         elif len(out) == 0:
-- 
2.43.0


From f6707b85c858c217dabb47543281a786303d2262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:09 +0000
Subject: [PATCH 11/30] fix: chisq counts each observation once when split by
 antenna polarization

---
 hera_cal/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/utils.py b/hera_cal/utils.py
index b533b5d..eec06ac 100644
--- a/hera_cal/utils.py
+++ b/hera_cal/utils.py
@@ -1060,7 +1060,7 @@ def chisq(data, model, data_wgts=None, gains=None, gain_flags=None, split_by_ant
                 if ap1 in chisq:
                     assert ap1 in nObs
                     chisq[ap1] = chisq[ap1] + chisq_here
-                    nObs[ap1] += nObs[ap1] + nObs_from_wgts
+                    nObs[ap1] = nObs[ap1] + nObs_from_wgts
                 else:
                     assert ap1 not in nObs
                     chisq[ap1] = copy.deepcopy(chisq_here)
-- 
2.43.0


From b8181d4dc2c8b20166dc96ccde7109d12f323300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:09 +0000
Subject: [PATCH 12/30] fix: chunk_baselines_by_redundant_groups does not
 modify its input groups

---
 hera_cal/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hera_cal/utils.py b/hera_cal/utils.py
index eec06ac..0dfc6e2 100644
--- a/hera_cal/utils.py
+++ b/hera_cal/utils.py
@@ -1821,7 +1821,7 @@ def chunk_baselines_by_redundant_groups(reds, max_chunk_size):
                           " of baselines exceeding max_chunk_size=%d."
                           " First baseline is %s"
                           " Loading group anyways." % (len(reds[group_index]), max_chunk_size, str(reds[group_index][0])))
-            baseline_chunks.append(grp)
+            baseline_chunks.append(list(grp))
         else:
             # if baseline_chunks is empty, initialize the first chunk.
             if len(baseline_chunks) == 0:
@@ -1829,7 +1829,7 @@ def chunk_baselines_by_redundant_groups(reds, max_chunk_size):
             if len(baseline_chunks[-1]) + len(grp) <= max_chunk_size:
                 baseline_chunks[-1].extend(grp)
             else:
-                baseline_chunks.append(grp)
+                baseline_chunks.append(list(grp))
     return baseline_chunks
 
 
-- 
2.43.0


From 91963f2e77365cd484d7b995684a60a12cf743a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:19 +0000
Subject: [PATCH 13/30] fix: zeropad_array un-pads the bin values of the axis
 it un-pads

---
 hera_cal/vis_clean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/vis_clean.py b/hera_cal/vis_clean.py
index 1c4981c..baee457 100644
--- a/hera_cal/vis_clean.py
+++ b/hera_cal/vis_clean.py
@@ -1780,7 +1780,7 @@ def zeropad_array(data, binvals=None, zeropad=0, axis=-1, undo=False):
                 s = tuple(s)
                 data = data[s]
                 if binvals[i] is not None:
-                    binvals[i] = binvals[i][s[i]]
+                    binvals[i] = binvals[i][s[ax]]
 
             else:
                 zshape = list(data.shape)
-- 
2.43.0


From 741bad53317d316d598a3c9eae4343cbb7c68a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:17 +0000
Subject: [PATCH 14/30] fix: select_freqs accepts a slice of channels, as
 documented

---
 hera_cal/datacontainer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hera_cal/datacontainer.py b/hera_cal/datacontainer.py
index 63c57f8..651adf2 100644
--- a/hera_cal/datacontainer.py
+++ b/hera_cal/datacontainer.py
@@ -589,6 +589,8 @@ class DataContainer:
             # if more than one axis matches (e.g. Ntimes == Nfreqs), use the last one
             shape = obj[next(iter(obj.keys()))].shape
             axis = len(shape) - 1 - shape[::-1].index(len(obj.freqs))
+        if isinstance(channels, slice):
+            channels = np.arange(obj[next(iter(obj.keys()))].shape[axis])[channels]
         for bl in obj:
             obj[bl] = obj[bl].take(channels, axis=axis)
 
-- 
2.43.0


From 98610cad61471a02321fc6125ec7ecaf919b0577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:21 +0000
Subject: [PATCH 15/30] fix: calibrate_in_place downsamples boolean cal_flags
 when data_flags are weights

---
 hera_cal/apply_cal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hera_cal/apply_cal.py b/hera_cal/apply_cal.py
index 7888a61..efca61f 100644
--- a/hera_cal/apply_cal.py
+++ b/hera_cal/apply_cal.py
@@ -654,7 +654,8 @@ def calibrate_in_place(data, new_gains, data_flags=None, cal_flags=None, old_gai
     exponent = {'divide': 1, 'multiply': -1}[gain_convention]
 
     # build dictionary of all necessary gain shapes to account for calibration of BDA data
-    new_gains_by_Nt, cal_flags_by_Nt = build_gains_by_cadences(data, new_gains, cal_flags=cal_flags, flags_are_wgts=flags_are_wgts)
+    # (flags_are_wgts only describes data_flags; cal_flags are always boolean)
+    new_gains_by_Nt, cal_flags_by_Nt = build_gains_by_cadences(data, new_gains, cal_flags=cal_flags)
     if old_gains is not None:
         old_gains_by_Nt, _ = build_gains_by_cadences(data, old_gains)
 
-- 
2.43.0


From 209414c89b5d849bfd285ea6670e221b6e11c2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:21 +0000
Subject: [PATCH 16/30] fix: calibrate_bl(copy=True) leaves zero-gain samples
 as they are, not uninitialized

---
 hera_cal/redcal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/redcal.py b/hera_cal/redcal.py
index 1403f11..a77f024 100644
--- a/hera_cal/redcal.py
+++ b/hera_cal/redcal.py
@@ -604,7 +604,7 @@ class RedSol():
         '''
         gij = self.gain_bl(bl)
         if copy:
-            return np.divide(data, gij, where=(gij != 0))
+            return np.divide(data, gij, out=(data + np.zeros_like(gij)), where=(gij != 0))
         else:
             np.divide(data, gij, out=data, where=(gij != 0))
             return data
-- 
2.43.0


From 7f4f07bb8a8a47762441c5db4d9c32e5445ded90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:01 +0000
Subject: [PATCH 17/30] fix: a partially filled last LST output file keeps its
 data (NaN-padded grid rows matched no integrations)

---
 hera_cal/lst_stack/config.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hera_cal/lst_stack/config.py b/hera_cal/lst_stack/config.py
index 83a0096..5d43386 100644
--- a/hera_cal/lst_stack/config.py
+++ b/hera_cal/lst_stack/config.py
@@ -588,7 +588,7 @@ class LSTBinConfigurator:
 
         # Get the best lst_branch_cut by finding the largest gap in LSTs and starting
         # AFTER it
-        lst_branch_cut = float(utils.get_best_lst_branch_cut(np.concatenate(lst_grid)))
+        lst_branch_cut = float(utils.get_best_lst_branch_cut(lst_grid[~np.isnan(lst_grid)]))
 
         # Turn matched_files back into a list of lists of strings.
         matched_files = [
@@ -1078,8 +1078,10 @@ class LSTConfig(_LSTConfigBase):
         required for a single LST bin or output file (which might contain a few
         LST bins).
         """
+        # The last output file may have fewer bins than the others (it is padded with NaN).
         lst_grid = self.lst_grid[outfile]
-        grid_edges = self.lst_grid_edges[outfile]
+        lst_grid = lst_grid[~np.isnan(lst_grid)]
+        grid_edges = np.append(lst_grid - self.dlst / 2, lst_grid[-1] + self.dlst / 2)
 
         if lstindex is not None:
             lst_grid = lst_grid[[lstindex]]
-- 
2.43.0


From aea9a4b6ebc90ee1a1c2a7ead371183031e2dfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:01 +0000
Subject: [PATCH 18/30] fix: integrations read for LST bins are those the bins
 contain, also over a full 2pi range

---
 hera_cal/lst_stack/config.py |  3 ++-
 hera_cal/lst_stack/io.py     | 12 ++++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/hera_cal/lst_stack/config.py b/hera_cal/lst_stack/config.py
index 5d43386..f33e98e 100644
--- a/hera_cal/lst_stack/config.py
+++ b/hera_cal/lst_stack/config.py
@@ -1215,7 +1215,8 @@ class LSTConfigSingle(_LSTConfigBase):
             lsts = meta.lsts % (2 * np.pi)
             lsts[lsts < lstmin] += 2 * np.pi
 
-            tind = np.argwhere((lsts >= lstmin) & (lsts < lstmax)).flatten()
+            # LST bins contain their upper edge, but not their lower edge.
+            tind = np.argwhere((lsts > lstmin) & (lsts <= lstmax)).flatten()
             tinds.append(tind)
 
         return tinds
diff --git a/hera_cal/lst_stack/io.py b/hera_cal/lst_stack/io.py
index 27cb126..3137f89 100644
--- a/hera_cal/lst_stack/io.py
+++ b/hera_cal/lst_stack/io.py
@@ -105,10 +105,13 @@ def filter_required_files_by_times(
     where_inpainted_files: list[list[str]] | None = None,
 ) -> tuple[list, list, list, list, list, list]:
     lstmin, lstmax = lst_range
+    # A range whose ends are given out of order crosses the LST wrap. Keep the width of
+    # the range (rather than wrapping both ends) so that it can cover all of 2pi.
+    width = lstmax - lstmin
+    if width < 0:
+        width %= 2 * np.pi
     lstmin %= 2 * np.pi
-    lstmax %= 2 * np.pi
-    if lstmin > lstmax:
-        lstmax += 2 * np.pi
+    lstmax = lstmin + width
 
     have_calfiles = cal_files is not None
     if not cal_files:
@@ -134,7 +137,8 @@ def filter_required_files_by_times(
             lsts = meta.lsts % (2 * np.pi)
             lsts[lsts < lstmin] += 2 * np.pi
 
-            tind = np.argwhere((lsts > lstmin) & (lsts < lstmax)).flatten()
+            # LST bins contain their upper edge, but not their lower edge.
+            tind = np.argwhere((lsts > lstmin) & (lsts <= lstmax)).flatten()
 
             if len(tind) > 0:
                 tinds.append(tind)
-- 
2.43.0


From d6effceead570c09a298656f7f2d904a5a12127f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:01 +0000
Subject: [PATCH 19/30] fix: LST bin edges that wrap (or end at 2pi) can be
 used without time_idx

---
 hera_cal/lst_stack/binning.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/hera_cal/lst_stack/binning.py b/hera_cal/lst_stack/binning.py
index 9150294..41923e3 100644
--- a/hera_cal/lst_stack/binning.py
+++ b/hera_cal/lst_stack/binning.py
@@ -711,16 +711,11 @@ def lst_bin_files_for_baselines(
 
     if time_idx is None:
         adjust_lst_bin_edges(lst_bin_edges)
-        lst_bin_edges %= 2 * np.pi
-        op = np.logical_and if lst_bin_edges[0] < lst_bin_edges[-1] else np.logical_or
         time_idx = []
         for meta in metas:
             _lsts = meta.get_transactional("lsts")
-            time_idx.append(
-                np.argwhere(
-                    op(_lsts >= lst_bin_edges[0], _lsts < lst_bin_edges[-1])
-                ).flatten()
-            )
+            # same (wrap-aware) selection as the binning in lst_align
+            time_idx.append(np.argwhere(get_lst_bins(_lsts, lst_bin_edges)[2]).flatten())
 
     if lsts is None:
         lsts = np.concatenate(
-- 
2.43.0


From f919e1f8de027d7330943497443dc0f14abc2878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:01 +0000
Subject: [PATCH 20/30] fix: filter_reds expands (i, j) selections over every
 polarization of mixed-pol groups

---
 hera_cal/redcal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hera_cal/redcal.py b/hera_cal/redcal.py
index a77f024..33028c7 100644
--- a/hera_cal/redcal.py
+++ b/hera_cal/redcal.py
@@ -188,8 +188,11 @@ def filter_reds(reds, bls=None, ex_bls=None, ants=None, ex_ants=None, ubls=None,
         pols = set(p for p in pols if p not in ex_pols)
     reds = [gp for gp in reds if gp[0][2] in pols]
 
+    # groups can mix polarizations (see pol_mode '4pol_minV'), so look at every baseline
+    pols_in_reds = set(bl[2] for gp in reds for bl in gp)
+
     def expand_bls(gp):
-        gp3 = [(g[0], g[1], p) for g in gp if len(g) == 2 for p in pols]
+        gp3 = [(g[0], g[1], p) for g in gp if len(g) == 2 for p in pols_in_reds]
         return set(gp3 + [g for g in gp if len(g) == 3])
     antpols = set(sum([list(split_pol(p)) for p in pols], []))
 
-- 
2.43.0


From 72f04d991a6dc109fa0d6bf2ca0d9c006f42ad30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:45 +0000
Subject: [PATCH 21/30] fix: lst_average counts only non-inpainted samples also
 when no std is requested

---
 hera_cal/lst_stack/averaging.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hera_cal/lst_stack/averaging.py b/hera_cal/lst_stack/averaging.py
index 0d25f1b..d307684 100644
--- a/hera_cal/lst_stack/averaging.py
+++ b/hera_cal/lst_stack/averaging.py
@@ -257,6 +257,7 @@ def lst_average(
         std, norm = compute_std(data, nsamples, meandata)
     else:
         std = None
+        norm = np.sum(nsamples, axis=0)
 
     return meandata.data, lstbin_flagged, std, norm.data, ndays_binned
 
-- 
2.43.0


From 3e8f044bd1398767ba9d429057a2a19928314e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:45 +0000
Subject: [PATCH 22/30] fix: red_average keeps red_bl_keys aligned with the
 groups that have data

---
 hera_cal/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hera_cal/utils.py b/hera_cal/utils.py
index 0dfc6e2..d2fa6f9 100644
--- a/hera_cal/utils.py
+++ b/hera_cal/utils.py
@@ -1392,6 +1392,9 @@ def red_average(data, reds=None, bl_tol=1.0, inplace=False,
     else:
         antpairs = data.get_antpairs()
     reds = [[bl for bl in blg if bl in antpairs or bl[::-1] in antpairs] for blg in reds]
+    if red_bl_keys is not None:
+        # keep keys aligned with the groups that have data
+        red_bl_keys = [blk for blk, blg in zip(red_bl_keys, reds) if len(blg) > 0]
     reds = [blg for blg in reds if len(blg) > 0]
 
     # iterate over redundant groups and polarizations
-- 
2.43.0


From ebceab15b0f2c32501f13f04b748d3f33e89b091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:45 +0000
Subject: [PATCH 23/30] fix: red_average with manual weights does not overwrite
 unflagged averages with 1

---
 hera_cal/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hera_cal/utils.py b/hera_cal/utils.py
index d2fa6f9..043f153 100644
--- a/hera_cal/utils.py
+++ b/hera_cal/utils.py
@@ -1424,9 +1424,6 @@ def red_average(data, reds=None, bl_tol=1.0, inplace=False,
             # take the weighted average
             wsum = np.sum(w, axis=0).clip(1e-10, np.inf)  # this is the normalization
             davg = np.sum(d * w, axis=0) / wsum  # weighted average
-            # set flagged data to 1.0+0.0j
-            flagged_f = np.all(f == 0, axis=0)
-            davg[flagged_f] = 1.0
             fmax = np.max(f, axis=2)  # collapse along freq: marks any fully flagged integrations
             if tint.squeeze().ndim == 1:  # tint.squeeze() can be one-dimensional if we have one time sample in our data.
                 iavg = np.sum(tint.squeeze()[:, None] * fmax, axis=0) / np.sum(fmax, axis=0).clip(1e-10, np.inf)
@@ -1439,6 +1436,8 @@ def red_average(data, reds=None, bl_tol=1.0, inplace=False,
                 favg = np.all(np.isclose(w * f, 0), axis=0)
             else:
                 favg = np.all(np.isclose(w, 0), axis=0)
+            # set flagged data to 1.0+0.0j
+            davg[favg] = 1.0
 
             # replace with new data
             if fed_container:
-- 
2.43.0


From 9b4b77c953ec8470cba02a638cfbc07a1b069060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:50 +0000
Subject: [PATCH 24/30] fix: CalibrationSmoother passes ant_threshold on as the
 antenna threshold

---
 hera_cal/smooth_cal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/smooth_cal.py b/hera_cal/smooth_cal.py
index d98e9a6..1c66b72 100644
--- a/hera_cal/smooth_cal.py
+++ b/hera_cal/smooth_cal.py
@@ -1012,7 +1012,7 @@ class CalibrationSmoother():
         # perform data quality checks and flag thresholding
         self.check_consistency()
         flag_threshold_and_broadcast(self.flag_grids, freq_threshold=freq_threshold,
-                                     time_threshold=time_threshold, ant_threshold=time_threshold)
+                                     time_threshold=time_threshold, ant_threshold=ant_threshold)
 
         # build blacklists
         self.blacklist_wgt = blacklist_wgt
-- 
2.43.0


From 9a977f40df2f52e039ceacbdef5ea8f56b6311ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:50 +0000
Subject: [PATCH 25/30] fix: pick_reference_antenna handles equally flagged
 candidates with different flag patterns

---
 hera_cal/smooth_cal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/smooth_cal.py b/hera_cal/smooth_cal.py
index 1c66b72..994e3aa 100644
--- a/hera_cal/smooth_cal.py
+++ b/hera_cal/smooth_cal.py
@@ -669,7 +669,7 @@ def pick_reference_antenna(gains, flags, freqs, per_pol=True, acceptable_candida
             refant_rephasor = np.abs(gains[ref] * rephasors[ref]) / (gains[ref] * rephasors[ref])
             angle_noise = [interleaved_noise_variance_estimate(np.angle(gains[ant] * rephasors[ant] * refant_rephasor),
                            kernel=[[-.5, 1, -.5]])[~(flags[ant] | flags[ref])] for ant in candidates]
-            median_angle_noise_as_refant[ref] = np.median(angle_noise)
+            median_angle_noise_as_refant[ref] = np.median(np.concatenate(angle_noise))
         return sorted(median_angle_noise_as_refant, key=median_angle_noise_as_refant.__getitem__)[0]
 
     def select_closest_to_center(candidates, antpos, flags):
-- 
2.43.0


From e54dc79e23e6b5d7e709f524cb413ee195112dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:50 +0000
Subject: [PATCH 26/30] fix: flag_threshold_and_broadcast applies
 freq_threshold to channels and time_threshold to times

---
 hera_cal/smooth_cal.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hera_cal/smooth_cal.py b/hera_cal/smooth_cal.py
index 994e3aa..0eea5a2 100644
--- a/hera_cal/smooth_cal.py
+++ b/hera_cal/smooth_cal.py
@@ -612,11 +612,11 @@ def flag_threshold_and_broadcast(flags, freq_threshold=0.35, time_threshold=0.5,
     while np.sum(all_flagged) > sum_flagged:
         sum_flagged = np.sum(all_flagged)
         # consider times that are not flagged for all chans, then flag chans that are flagged too often
-        flagged_chans = np.mean(all_flagged, axis=0) == 1
-        all_flagged[np.mean(all_flagged[:, ~flagged_chans], axis=1) > freq_threshold, :] = True
-        # consider chans that are not flagged for all times, then flag times that are flagged too often
         flagged_times = np.mean(all_flagged, axis=1) == 1
-        all_flagged[:, np.mean(all_flagged[~flagged_times, :], axis=0) > time_threshold] = True
+        all_flagged[:, np.mean(all_flagged[~flagged_times, :], axis=0) > freq_threshold] = True
+        # consider chans that are not flagged for all times, then flag times that are flagged too often
+        flagged_chans = np.mean(all_flagged, axis=0) == 1
+        all_flagged[np.mean(all_flagged[:, ~flagged_chans], axis=1) > time_threshold, :] = True
 
     # apply flags to all antennas
     for ant in flags.keys():
-- 
2.43.0


From aa0bf1e8a72cf7c98a9033598fbf10c001ce9b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:50 +0000
Subject: [PATCH 27/30] fix: truncate_flagged_edges keeps a chunk whose only
 unflagged channel is its first

---
 hera_cal/vis_clean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/vis_clean.py b/hera_cal/vis_clean.py
index baee457..d09977b 100644
--- a/hera_cal/vis_clean.py
+++ b/hera_cal/vis_clean.py
@@ -141,7 +141,7 @@ def truncate_flagged_edges(data_in, weights_in, x, ax='freq'):
             ind_right = 0
             chunkslice = slice(chunk[0], chunk[1])
             unflagged_chans = np.where(~np.all(np.isclose(weights_in[:, chunkslice], 0.0), axis=0))[0]
-            if np.count_nonzero(unflagged_chans) > 0:
+            if len(unflagged_chans) > 0:
                 # truncate data to be filtered where appropriate.
                 ind_left = np.min(unflagged_chans)
                 ind_right = np.max(unflagged_chans) + 1
-- 
2.43.0


From 0f16319e28323ea07e59eb10fe44f92488cddc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:50 +0000
Subject: [PATCH 28/30] fix: flag_rows_with_contiguous_flags counts a run of
 flags at the end of a row

---
 hera_cal/vis_clean.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hera_cal/vis_clean.py b/hera_cal/vis_clean.py
index d09977b..8efd1e2 100644
--- a/hera_cal/vis_clean.py
+++ b/hera_cal/vis_clean.py
@@ -303,6 +303,8 @@ def flag_rows_with_contiguous_flags(weights_in, max_contiguous_flag, ax='freq'):
                     if current_flag_length >= max_contiguous:
                         max_contiguous = current_flag_length
                     current_flag_length = 0
+            # the row may also end on a flag.
+            max_contiguous = max(max_contiguous, current_flag_length)
             if ax == 'both':
                 if max_contiguous >= max_contiguous_flag[1]:
                     wout[rownum][:] = 0.
-- 
2.43.0


From b230a23351e2f852f1a416e7ababa4821e390369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:50 +0000
Subject: [PATCH 29/30] fix: timeavg_data keeps averaged times and lsts when
 every key is skipped

---
 hera_cal/frf.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/hera_cal/frf.py b/hera_cal/frf.py
index 140bbdb..eaf96a7 100644
--- a/hera_cal/frf.py
+++ b/hera_cal/frf.py
@@ -1236,14 +1236,16 @@ class FRFilter(VisClean):
             avg_flags[k] = af
             avg_nsamples[k] = an
             at = ea['avg_times']
-        if output_postfix != '':
-            setattr(self, "{}_times_{}".format(output_prefix, output_postfix), np.asarray(at))
-            setattr(self, "{}_lsts_{}".format(output_prefix, output_postfix), np.asarray(al))
-        else:
-            setattr(self, "{}_times".format(output_prefix), np.asarray(at))
-            setattr(self, "{}_lsts".format(output_prefix), np.asarray(al))
-        self.t_avg = t_avg
-        self.Navg = Navg
+        # if every key was skipped, leave the existing averaged times and lsts in place
+        if at is not None:
+            if output_postfix != '':
+                setattr(self, "{}_times_{}".format(output_prefix, output_postfix), np.asarray(at))
+                setattr(self, "{}_lsts_{}".format(output_prefix, output_postfix), np.asarray(al))
+            else:
+                setattr(self, "{}_times".format(output_prefix), np.asarray(at))
+                setattr(self, "{}_lsts".format(output_prefix), np.asarray(al))
+            self.t_avg = t_avg
+            self.Navg = Navg
 
     def filter_data(self, data, frps, flags=None, nsamples=None,
                     output_prefix='filt', keys=None, overwrite=False,
-- 
2.43.0


From 0607debba7b17123551551f0db6b0dc6b8f31f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:50 +0000
Subject: [PATCH 30/30] fix: merge_gains ORs flags also when several sets lack
 an antenna

---
 hera_cal/abscal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/abscal.py b/hera_cal/abscal.py
index 2c30218..5e48d70 100644
--- a/hera_cal/abscal.py
+++ b/hera_cal/abscal.py
@@ -1757,7 +1757,7 @@ def merge_gains(gains, merge_shared=True):
     # iterate over keys
     for i, k in enumerate(keys):
         if fedflags:
-            merged_gains[k] = reduce(operator.add, [g.get(k, True) for g in gains])
+            merged_gains[k] = reduce(operator.or_, [g.get(k, True) for g in gains])
         else:
             merged_gains[k] = reduce(operator.mul, [g.get(k, 1.0) for g in gains])
 
-- 
2.43.0

