From 70ba69bdb788b9e5c4566afe8740928aa524aae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:13 +0000
Subject: [PATCH 001/134] fix: registering one new boolean cut name twice in a
 call used two bits

---
 mass/core/cut.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mass/core/cut.py b/mass/core/cut.py
index 95c2991..b136f52 100644
--- a/mass/core/cut.py
+++ b/mass/core/cut.py
@@ -192,7 +192,10 @@ class CutFieldMixin:
         boolean_fields = self.boolean_cut_desc
         cut_used_bit_flags = self.cut_used_bit_flags
 
-        new_fields = [n.encode() for n in names if n.encode() not in boolean_fields["name"]]
+        new_fields = []
+        for n in names:
+            if n.encode() not in boolean_fields["name"] and n.encode() not in new_fields:
+                new_fields.append(n.encode())
 
         uint32_one = np.uint32(1)
         for new_field in new_fields:
-- 
2.43.0


From c4a077b9d1ab4416801565bb954f26ee74506db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:13 +0000
Subject: [PATCH 002/134] fix: unregistering a cut field left its bits set, to
 be inherited by later fields

---
 mass/core/cut.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mass/core/cut.py b/mass/core/cut.py
index b136f52..c920948 100644
--- a/mass/core/cut.py
+++ b/mass/core/cut.py
@@ -182,6 +182,16 @@ class CutFieldMixin:
 
         raise ValueError("No available cut bit.")
 
+    def __clear_cut_bits(self, clear_mask):
+        """Clear these (no longer used) bits of every pulse, so that no field registered later
+        can inherit the cuts of the unregistered field.
+
+        Args:
+            clear_mask (np.uint32): the bits that were in use and have become available.
+        """
+        for ds in self.datasets:
+            ds.cuts._mask[...] = ds.cuts._mask[...] & ~clear_mask
+
     def register_boolean_cut_fields(self, *names):
         """Register one or more boolean cut field(s).
         If any of given boolean cut fields already exist, it silently ignore.
@@ -232,6 +242,7 @@ class CutFieldMixin:
 
         self.boolean_cut_desc = boolean_fields
         self.cut_used_bit_flags &= ~clear_mask
+        self.__clear_cut_bits(clear_mask)
 
     def register_categorical_cut_field(self, name, categories, default="uncategorized"):
         """Register one categorical cut field.
@@ -317,6 +328,7 @@ class CutFieldMixin:
         self.categorical_cut_desc = new_categorical_fields
         self.cut_category_list = new_category_list
         self.cut_used_bit_flags &= ~clear_mask
+        self.__clear_cut_bits(clear_mask)
 
 
 class Cuts:
-- 
2.43.0


From 8a93d62d4066f33832f6c0897c8b52c11aaaaa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:06 +0000
Subject: [PATCH 003/134] fix: marking a channel bad failed half-way on a
 non-ASCII reason or an unknown channel

---
 mass/core/channel_group.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 222227a..f4898c6 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -447,10 +447,11 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
 
         for channum in added_to_list:
             new_comment = self._bad_channums.get(channum, []) + [comment]
-            self._bad_channums[channum] = new_comment
             LOG.warning('WARNING: Chan %s flagged bad because %s', channum, comment)
+            # Comments are stored as UTF-8, because they can contain any (exception) text.
             self.hdf5_file[f"chan{channum}"].attrs['why_bad'] = \
-                np.asarray(new_comment, dtype=np.bytes_)
+                np.asarray([c.encode() for c in new_comment], dtype=np.bytes_)
+            self._bad_channums[channum] = new_comment
 
     def set_all_chan_good(self):
         """Set all channels to be good."""
-- 
2.43.0


From 005c92b2a1f9479d68784a50ba83981cbf8b2d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:06 +0000
Subject: [PATCH 004/134] fix: n_good_channels counted files that were skipped
 for having no pulses

---
 mass/core/channel_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index f4898c6..97aff00 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -462,7 +462,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             self.set_chan_good(channum)
 
     def n_good_channels(self):
-        return self.n_channels - len(self._bad_channums.keys())
+        return self.num_good_channels
 
     @property
     def timestamp_offset(self):
-- 
2.43.0


From e5589c8c6532447d44db1c6f690926c6d68d73eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:06 +0000
Subject: [PATCH 005/134] fix: reopening a noise-only analysis forgot which
 channels are bad

---
 mass/core/channel_group.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 97aff00..a7fac00 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -340,6 +340,9 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             noise.set_hdf5_group(hdf5_group)
 
             dset = MicrocalDataSet(noise.__dict__, hdf5_group=hdf5_group)
+            if 'why_bad' in hdf5_group.attrs:
+                self._bad_channums[dset.channum] = [comment.decode() for comment in
+                                                    hdf5_group.attrs['why_bad']]
             dset.noise_records = noise
             noise_list.append(noise)
             dset_list.append(dset)
-- 
2.43.0


From ab9db029d42f03471e66487f13b0883d0043a6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:06 +0000
Subject: [PATCH 006/134] fix: RestoreTESGroup failed on an analysis without
 noise files

---
 mass/core/channel_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index a7fac00..5b0f21f 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -63,7 +63,7 @@ def RestoreTESGroup(hdf5filename, hdf5noisename=None):
             pulsefiles.append(group.attrs['filename'])
             channum.append(group.attrs['channum'])
 
-            if hdf5noisename is None:
+            if hdf5noisename is None and 'noise_filename' in group.attrs:
                 fname = group.attrs['noise_filename']
                 if generated_noise_hdf5_name is None:
                     generated_noise_hdf5_name = _generate_hdf5_filename(fname)
-- 
2.43.0


From 5152894e1b82355763f31129c8fe80ba14a9dc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:31 +0000
Subject: [PATCH 007/134] fix: ljh_sort_filenames_numerically failed when given
 an inclusion list

---
 mass/core/ljh_util.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mass/core/ljh_util.py b/mass/core/ljh_util.py
index a31ffea..69c4231 100644
--- a/mass/core/ljh_util.py
+++ b/mass/core/ljh_util.py
@@ -175,13 +175,12 @@ def ljh_sort_filenames_numerically(fnames, inclusion_list=None):
         return None
 
     if inclusion_list is not None:
-        fnames = filter(lambda n: ljh_channum(n) in inclusion_list, fnames)
+        fnames = [n for n in fnames if ljh_channum(n) in inclusion_list]
 
     # Sort the results first by raw filename, then sort numerically by LJH channel number.
-    # Because string sort and the builtin `sorted` are both stable, we ensure that the first
+    # Because the builtin `sorted` is stable, we ensure that the first
     # sort is used to break ties in channel number.
-    fnames.sort()
-    return sorted(fnames, key=ljh_channum)
+    return sorted(sorted(fnames), key=ljh_channum)
 
 
 def filename_glob_expand(pattern):
-- 
2.43.0


From 329bf1bdb5cb13f163d60245aacce38bde8ede38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:55 +0000
Subject: [PATCH 008/134] fix: an excluded channel with two files in one list
 was only half removed

---
 mass/core/ljh_util.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mass/core/ljh_util.py b/mass/core/ljh_util.py
index 69c4231..0915cae 100644
--- a/mass/core/ljh_util.py
+++ b/mass/core/ljh_util.py
@@ -150,10 +150,8 @@ def remove_unpaired_channel_files(filenames1, filenames2, never_use=None, use_on
         valid_cnum = valid_cnum.intersection(set(use_only))
 
     # Remove invalid channel numbers
-    for c in (cnum1 - valid_cnum):
-        filenames1.remove(names1[c])
-    for c in (cnum2 - valid_cnum):
-        filenames2.remove(names2[c])
+    filenames1[:] = [f for f in filenames1 if ljh_channum(f) in valid_cnum]
+    filenames2[:] = [f for f in filenames2 if ljh_channum(f) in valid_cnum]
 
 
 def ljh_sort_filenames_numerically(fnames, inclusion_list=None):
-- 
2.43.0


From 08439042ebc051567efec3ef6501ce5b9e68bab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:55 +0000
Subject: [PATCH 009/134] fix: ljh_get_channels failed on a name without a
 directory

---
 mass/core/ljh_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/ljh_util.py b/mass/core/ljh_util.py
index 0915cae..c95d788 100644
--- a/mass/core/ljh_util.py
+++ b/mass/core/ljh_util.py
@@ -21,7 +21,7 @@ def ljh_get_channels(fname):
     basename, chan = ljh_basename_channum(fname)
     filedir, ljhname = path.split(basename)
     chans = []
-    for f in os.listdir(filedir):
+    for f in os.listdir(filedir or "."):
         if not os.path.isfile(os.path.join(filedir, f)):
             continue
         bname, chan = ljh_basename_channum(f)
-- 
2.43.0


From d9ed3f1257eca3f9563c53033cba401e09851a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:55 +0000
Subject: [PATCH 010/134] fix: TESGroup with max_chans failed for pulses
 without noise and for noise alone

---
 mass/core/channel_group.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 5b0f21f..4457b1c 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -154,9 +154,10 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
 
         # enforce max_chans
         if max_chans is not None:
-            n = min(max_chans, len(filenames))
+            n = min(max_chans, len(noise_filenames if noise_only else filenames))
             filenames = filenames[:n]
-            noise_filenames = noise_filenames[:n]
+            if noise_filenames is not None:
+                noise_filenames = noise_filenames[:n]
 
         # Figure out where the 2 HDF5 files are to live, if the default argument
         # was given for their paths.
-- 
2.43.0


From b4a75114e1b96c3904ce2fcd2377d356d1a7412e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:18 +0000
Subject: [PATCH 011/134] fix: TESGroup paired unsorted pulse and noise lists
 wrongly, and ignored never_use for noise alone

---
 mass/core/channel_group.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 4457b1c..b2976ce 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -25,6 +25,7 @@ from mass.core.channel import MicrocalDataSet, PulseRecords, NoiseRecords, Group
 from mass.core.cut import CutFieldMixin
 from mass.core.utilities import InlineUpdater, show_progress, plot_multipage
 from mass.core.ljh_util import remove_unpaired_channel_files, filename_glob_expand, ljh_get_extern_trig_fnames
+from mass.core.ljh_util import ljh_sort_filenames_numerically
 from ..common import isstr
 
 LOG = logging.getLogger("mass")
@@ -151,6 +152,13 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         # missing a partner, either noise without pulse or pulse without noise.
         remove_unpaired_channel_files(filenames, noise_filenames,
                                       never_use=never_use, use_only=use_only)
+        if noise_only:
+            noise_filenames = list(noise_filenames)
+            remove_unpaired_channel_files(noise_filenames, None,
+                                          never_use=never_use, use_only=use_only)
+        # The two lists are used in step, and the channels listed in channel number order.
+        filenames = ljh_sort_filenames_numerically(filenames) or []
+        noise_filenames = ljh_sort_filenames_numerically(noise_filenames)
 
         # enforce max_chans
         if max_chans is not None:
-- 
2.43.0


From 90030ceb9e3ecb16b4d9e934f0251a75b5a3fd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:03 +0000
Subject: [PATCH 012/134] fix: calc_external_trigger_timing asked a channel for
 the trigger times, which only the group has

---
 mass/core/channel_group.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index b2976ce..1ccce9b 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -636,8 +636,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         return self.external_trigger_subframe_count[:] / float(self.subframe_divisions) * self.timebase
 
     def calc_external_trigger_timing(self, forceNew=False):
-        ds = self.first_good_dataset
-        external_trigger_subframe_count = np.asarray(ds.external_trigger_subframe_count[:], dtype=np.int64)
+        external_trigger_subframe_count = np.asarray(self.external_trigger_subframe_count[:], dtype=np.int64)
 
         for ds in self:
             try:
-- 
2.43.0


From 0c6e36a737c8623317387425e17301fdab8e6f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:53 +0000
Subject: [PATCH 013/134] fix: LJHFile read the channel number from the first
 channel tag in the path, not the last

---
 mass/core/files.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mass/core/files.py b/mass/core/files.py
index e9f213d..0b220b2 100644
--- a/mass/core/files.py
+++ b/mass/core/files.py
@@ -28,6 +28,7 @@ import numpy as np
 
 from packaging.version import Version
 from mass import __version__
+from mass.core.ljh_util import ljh_channum
 LOG = logging.getLogger("mass")
 
 
@@ -202,7 +203,9 @@ class LJHFile(MicrocalFile):
         self.header_dict = header_dict
         self.header_size = header_size
         self.client = None
-        self.channum = int(filename.split("_chan")[1].split(".")[0])
+        self.channum = ljh_channum(filename)
+        if self.channum is None:
+            raise ValueError(f"No channel number is found in the file name '{filename}'")
         self.sample_usec = None
         self.timestamp_offset = None
         self.row_number = 0
-- 
2.43.0


From 76818a30f9c810732e5db8ec3b323a68628edd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:09 +0000
Subject: [PATCH 014/134] fix: the default HDF5 name was cut at the first
 channel tag in the path, not the last

---
 mass/core/channel_group.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 1ccce9b..a27909d 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -25,7 +25,7 @@ from mass.core.channel import MicrocalDataSet, PulseRecords, NoiseRecords, Group
 from mass.core.cut import CutFieldMixin
 from mass.core.utilities import InlineUpdater, show_progress, plot_multipage
 from mass.core.ljh_util import remove_unpaired_channel_files, filename_glob_expand, ljh_get_extern_trig_fnames
-from mass.core.ljh_util import ljh_sort_filenames_numerically
+from mass.core.ljh_util import ljh_sort_filenames_numerically, ljh_basename_channum
 from ..common import isstr
 
 LOG = logging.getLogger("mass")
@@ -36,8 +36,7 @@ def _generate_hdf5_filename(rawname):
 
     Takes /path/to/data_chan33.ljh --> /path/to/data_mass.hdf5
     """
-    fparts = re.split(r"_chan\d+", rawname)
-    prefix_path = fparts[0]
+    prefix_path, _ = ljh_basename_channum(rawname)
     if rawname.endswith("noi"):
         prefix_path += '_noise'
     return prefix_path + "_mass.hdf5"
-- 
2.43.0


From 301a5fb08ea64bb5f46444a60db17b8068ad28ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:35 +0000
Subject: [PATCH 015/134] fix: experiment state times were rounded to floats,
 off by up to 128 ns

---
 mass/off/experiment_state.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/off/experiment_state.py b/mass/off/experiment_state.py
index 2b779a7..35a8826 100644
--- a/mass/off/experiment_state.py
+++ b/mass/off/experiment_state.py
@@ -21,7 +21,7 @@ class ExperimentStateFile:
         self.excludeStates = excludeStates
         self.parse_start = 0
         self.allLabels = []
-        self.unixnanos = np.zeros(0)
+        self.unixnanos = np.zeros(0, dtype=np.int64)
         if _parse:
             if self.filename is None:
                 raise Exception("pass filename or datasetFilename or _parse=False")
@@ -60,7 +60,7 @@ class ExperimentStateFile:
             unixnanos.append(unixnano)
             labels.append(label)
         self.allLabels += labels
-        self.unixnanos = np.hstack([self.unixnanos, np.array(unixnanos)])
+        self.unixnanos = np.hstack([self.unixnanos, np.array(unixnanos, dtype=np.int64)])
         self.unaliasedLabels = self.applyExcludesToLabels(self.allLabels)
         self.parse_start = parse_end  # next call to parse, start from here
 
-- 
2.43.0


From 734a6ba4ed9e57780047acca24279de8c97ac752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:35 +0000
Subject: [PATCH 016/134] fix: refreshing experiment states extended the wrong
 state if the active one is repeated or excluded

---
 mass/off/experiment_state.py | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/mass/off/experiment_state.py b/mass/off/experiment_state.py
index 35a8826..3fa285d 100644
--- a/mass/off/experiment_state.py
+++ b/mass/off/experiment_state.py
@@ -112,18 +112,7 @@ class ExperimentStateFile:
         # if the statesDict already exists, and there are no new states, update the active state and return the statesDict.
         if len(statesDict.keys()) > 0 and len(newLabels) == 0:
             assert i0_allLabels > 0
-            for k in statesDict.keys():
-                last_key = k
-                s = statesDict[last_key]
-            if isinstance(s, slice):
-                # set the slice from the start of the state to the last new record
-                s2 = slice(s.start, i0_unixnanos + len(unixnanos))
-            if isinstance(s, list):
-                s_ = s[-1]  # get last instance of same state
-                # set the slice from the start of the state to the last new record
-                s[-1] = slice(s_.start, i0_unixnanos + len(unixnanos))
-                s2 = s
-            statesDict[k] = s2
+            self._extendActiveState(statesDict, i0_allLabels, i0_unixnanos + len(unixnanos))
             return statesDict
 
         # unixnanos = new record timestamps
@@ -135,11 +124,7 @@ class ExperimentStateFile:
         # the state that was active last time calcStatesDict was called may need special handling
         if len(statesDict.keys()) > 0 and len(newLabels) > 0:
             assert i0_allLabels > 0
-            for k in statesDict.keys():
-                last_key = k
-            s = statesDict[last_key]
-            s2 = slice(s.start, inds[0])
-            statesDict[k] = s2
+            self._extendActiveState(statesDict, i0_allLabels, inds[0])
         # iterate over self.allLabels because it corresponds to self.unixnanos
         for i, label in enumerate(newLabels):
             if label not in self.unaliasedLabels:
@@ -167,6 +152,19 @@ class ExperimentStateFile:
         self._preventAliasState = True
         return statesDict
 
+    def _extendActiveState(self, statesDict, i0_allLabels, stop):
+        """Update statesDict so that the last state known before label number i0_allLabels extends to record number stop
+        (unless that state is excluded)."""
+        label = self.allLabels[i0_allLabels - 1]
+        aliasedLabel = self.labelAliasesDict.get(label, label)
+        if label not in self.unaliasedLabels or aliasedLabel not in statesDict:
+            return
+        v = statesDict[aliasedLabel]
+        if isinstance(v, list):
+            statesDict[aliasedLabel] = v[:-1] + [slice(v[-1].start, stop)]
+        else:
+            statesDict[aliasedLabel] = slice(v.start, stop)
+
     def __repr__(self):
         return "ExperimentStateFile: " + self.filename
 
-- 
2.43.0


From a0a3173b49742ecd85ce178fee70c8b656ed55d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:35 +0000
Subject: [PATCH 017/134] fix: refreshing misplaced records older than a newly
 logged state, and states missed while a channel was bad

---
 mass/off/channels.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 5b4dcb1..633ab73 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -1194,8 +1194,6 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
         refresh from files on disk to reflect new information: longer off files and new experiment states
         to be called occasionally when running something that updates in real time
         """
-        ds = self.firstGoodChannel()
-        i0_allLabels = len(self.experimentStateFile.allLabels)
         n_old_labels = len(self.experimentStateFile.labels)
         self.experimentStateFile.parse()
         n_new_labels = len(self.experimentStateFile.labels) - n_old_labels
@@ -1203,8 +1201,8 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
         for ds in self.values():
             i0_unixnanos = len(ds)
             ds.offFile._updateMmap()  # will update nRecords by mmapping more data in the offFile if available
-            ds._statesDict = self.experimentStateFile.calcStatesDict(
-                ds.unixnano[i0_unixnanos:], ds.statesDict, i0_allLabels, i0_unixnanos)
+            # calculate from all records: new states may start before records that were already known
+            ds._statesDict = self.experimentStateFile.calcStatesDict(ds.unixnano)
             n_new_pulses_dict[ds.channum] = len(ds) - i0_unixnanos
         return n_new_labels, n_new_pulses_dict
 
-- 
2.43.0


From 14d01fc72aa6149e18269acb7d974517f848d022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:35 +0000
Subject: [PATCH 018/134] fix: automatically excluded states were not
 reconsidered when the state log grew

---
 mass/off/experiment_state.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mass/off/experiment_state.py b/mass/off/experiment_state.py
index 3fa285d..93fc5b6 100644
--- a/mass/off/experiment_state.py
+++ b/mass/off/experiment_state.py
@@ -19,6 +19,7 @@ class ExperimentStateFile:
         else:
             self.filename = None
         self.excludeStates = excludeStates
+        self._autoExcludeStates = None
         self.parse_start = 0
         self.allLabels = []
         self.unixnanos = np.zeros(0, dtype=np.int64)
@@ -83,8 +84,8 @@ class ExperimentStateFile:
         Return a list of state labels that is unique, and contains all entries in allLabels except those in self.excludeStates
         order in the returned list is that of first appearance in allLabels
         """
-        if self.excludeStates == "auto":
-            self.excludeStates = self.calculateAutoExcludes()
+        if self.excludeStates == "auto" or self.excludeStates is self._autoExcludeStates:
+            self.excludeStates = self._autoExcludeStates = self.calculateAutoExcludes()
         r = []
         for label in allLabels:
             if label in self.excludeStates or label in r:
-- 
2.43.0


From 1e35abd232c2e96baec5943006999bb8be1b0ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:35 +0000
Subject: [PATCH 019/134] fix: states merged under one alias were listed twice

---
 mass/off/experiment_state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/off/experiment_state.py b/mass/off/experiment_state.py
index 93fc5b6..1c49080 100644
--- a/mass/off/experiment_state.py
+++ b/mass/off/experiment_state.py
@@ -183,4 +183,4 @@ class ExperimentStateFile:
 
     @property
     def labels(self) -> list[str]:
-        return [self.labelAliasesDict.get(label, label) for label in self.unaliasedLabels]
+        return list(dict.fromkeys(self.labelAliasesDict.get(label, label) for label in self.unaliasedLabels))
-- 
2.43.0


From ff56df9a5158ace6e7f1c39b8e6c3729451761b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:35 +0000
Subject: [PATCH 020/134] fix: a pulse exactly at the start of an experiment
 state could be put in the state before

---
 mass/core/channel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 18a1b83..32085ee 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1051,7 +1051,8 @@ class MicrocalDataSet:  # noqa: PLR0904
         esf = self.tes_group.experimentStateFile
         if esf is None:
             return
-        nano = self.p_timestamp[:] * 1e9
+        # Timestamps are exact to 1 us, but 1e9 times the float value is not.
+        nano = np.rint(self.p_timestamp[:] * 1e6).astype(np.int64) * 1000
         slicedict = esf.calcStatesDict(nano)
 
         state_codes = np.zeros(self.nPulses, dtype=np.uint32)
-- 
2.43.0


From a73aaf7c8fe2d12faa7d98cb3caafb6e6bdf9a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:25 +0000
Subject: [PATCH 021/134] fix: a recipe using one ingredient for two arguments
 got too few arguments

---
 mass/off/util.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/mass/off/util.py b/mass/off/util.py
index 0386be7..3ff78a3 100644
--- a/mass/off/util.py
+++ b/mass/off/util.py
@@ -60,6 +60,7 @@ class RecipeBook:
         if "self" in inspectedArgNames:  # drop the self argument for class methods
             inspectedArgNames.remove("self")
         i2a = collections.OrderedDict()
+        argIngredients = []  # ingredient for each argument; the same one can be used for several
         if ingredients is None:
             # learn ingredient names from signature of f
             for argName in inspectedArgNames:
@@ -68,14 +69,16 @@ class RecipeBook:
                     f"ingredient='{ingredient}' must be in baseIngredients={self.baseIngredients} or "\
                     f"craftedIngredients.keys()={list(self.craftedIngredients.keys())}"
                 i2a[ingredient] = argName
+                argIngredients.append(ingredient)
         else:
             # i would like to do == here, but i'd need to handle optional arguments better
             assert len(inspectedArgNames) >= len(ingredients)
             for ingredient, inspectedArgName in zip(ingredients, inspectedArgNames):
                 assert ingredient in self.baseIngredients or ingredient in self.craftedIngredients
                 i2a[ingredient] = inspectedArgName
+                argIngredients.append(ingredient)
 
-        recipe = Recipe(f, i2a, inverse, recipeName, self.coefs_dtype)
+        recipe = Recipe(f, i2a, inverse, recipeName, self.coefs_dtype, argIngredients)
         for ingredient in i2a:
             if ingredient in self.craftedIngredients:
                 recipe._setIngredientToRecipe(ingredient, self.craftedIngredients[ingredient])
@@ -171,11 +174,14 @@ class Recipe:
     reads to the off file.
     """
 
-    def __init__(self, f, i2a, inverse, name, coefs_dtype=None):
+    def __init__(self, f, i2a, inverse, name, coefs_dtype=None, argIngredients=None):
         assert not isinstance(f, Recipe)
         self.f = f
         self.inverse = inverse
         self.i2a = i2a
+        if argIngredients is None:
+            argIngredients = list(i2a)
+        self.argIngredients = argIngredients
         self.name = name
         # coefs dtype is used to allow either indexing into the offFile with
         # "filtValue", "derivativeLike", etc OR
@@ -189,20 +195,22 @@ class Recipe:
         self.i2a[ingredient] = r
 
     def __call__(self, ingredientSource):
-        args = []
+        values = {}
         for (k, v) in self.i2a.items():
             if isinstance(v, Recipe):
-                args.append(v(ingredientSource))
+                values[k] = v(ingredientSource)
             elif k == "coefs":
                 # special behavior for coefs to enable using coefs or filtValue names
                 # this was probalby a mistake to implement in the first place
                 # but painful to get rid of
                 ingredientSource_coefs_view = ingredientSource.view(self.coefs_dtype)
-                args.append(ingredientSource_coefs_view["coefs"])
+                values[k] = ingredientSource_coefs_view["coefs"]
             else:
-                args.append(ingredientSource[k])
+                values[k] = ingredientSource[k]
 
         # call functions with positional arguments so names don't need to match
+        # (recipes saved by earlier versions lack argIngredients)
+        args = [values[k] for k in getattr(self, "argIngredients", self.i2a)]
         return self.f(*args)
 
     def __repr__(self, indent=0):
-- 
2.43.0


From f6fe875db47018dd064e8ead2fb7630b2b7d5dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:15 +0000
Subject: [PATCH 022/134] fix: ChannelGroup.cutSetDefault always failed

---
 mass/off/channels.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 633ab73..5c22a87 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -1406,7 +1406,8 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
 
     def cutSetDefault(self, cutRecipeName):
         assert cutRecipeName.startswith("cut")
-        assert cutRecipeName in self.recipes.keys()
+        for ds in self.values():
+            assert cutRecipeName in ds.recipes.keys(), f"{ds} lacks cut recipe {cutRecipeName}"
         self._default_cut_recipe_name = cutRecipeName
         for ds in self.values():
             ds.cutSetDefault(cutRecipeName)
-- 
2.43.0


From e86604e9966276e74359fef7133d7f1454913d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:15 +0000
Subject: [PATCH 023/134] fix: selecting OFF records with open-ended, negative
 or no slices in a list failed

---
 mass/off/channels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 5c22a87..5add1cb 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -395,7 +395,7 @@ class Channel(CorG):  # noqa: PLR0904
             # and about 2x faster than temporary bool index, which can be found in commit 063bcce
             # make sure s.step is None so my simple length calculation will work
             assert all([isinstance(s, slice) and s.step is None for s in inds])
-            max_length = np.sum([s.stop - s.start for s in inds])
+            max_length = sum([len(range(*s.indices(len(self)))) for s in inds])
             output_dtype = self.offFile.dtype  # get the dtype to preallocate with
             output_prealloc = np.zeros(max_length, output_dtype)
             ilo, ihi = 0, 0
@@ -428,7 +428,7 @@ class Channel(CorG):  # noqa: PLR0904
         # first
         # relies on short circuiting to not evaluate last clause unless indsOrStates is a list
         if indsOrStates is None or isinstance(indsOrStates, str) or \
-                (isinstance(indsOrStates, list) and isinstance(indsOrStates[0], str)):
+                (isinstance(indsOrStates, list) and len(indsOrStates) > 0 and isinstance(indsOrStates[0], str)):
             # looks like states
             try:
                 inds = self.getStatesIndicies(indsOrStates)
@@ -1503,7 +1503,7 @@ class ChannelFromNpArray(Channel):
             # and about 2x faster than temporary bool index, which can be found in commit 063bcce
             # make sure s.step is None so my simple length calculation will work
             assert all([isinstance(s, slice) and s.step is None for s in inds])
-            max_length = np.sum([s.stop - s.start for s in inds])
+            max_length = sum([len(range(*s.indices(len(self)))) for s in inds])
             output_dtype = self.a.dtype  # get the dtype to preallocate with
             output_prealloc = np.zeros(max_length, output_dtype)
             ilo, ihi = 0, 0
-- 
2.43.0


From 44fc0093df6d9bce51341e5aa3859037af8d8071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:15 +0000
Subject: [PATCH 024/134] fix: energyTimestampLabelToHDF5 failed without
 states, and for repeated states with external triggers

---
 mass/off/channels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 5add1cb..09e0dcf 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -778,7 +778,7 @@ class Channel(CorG):  # noqa: PLR0904
                 energy, unixnano = self.getAttr(["energy", "unixnano"], state, usedCutRecipeName)
                 grp[f"{state}/energy"] = energy
                 grp[f"{state}/unixnano"] = unixnano
-                state_inds = tuple(self.getStatesIndicies(states=[state]))
+                state_inds = np.hstack([np.arange(len(self))[s] for s in self.getStatesIndicies(states=[state])])
                 cut_inds_in_state = self.getAttr(usedCutRecipeName, [state], "cutNone")
                 if hasattr(self, "seconds_after_last_external_trigger"):
                     grp[f"{state}/seconds_after_last_external_trigger"] = \
@@ -792,8 +792,8 @@ class Channel(CorG):  # noqa: PLR0904
         else:
             energy, unixnano = self.getAttr(
                 ["energy", "unixnano"], slice(None), usedCutRecipeName)
-            grp[f"{state}/energy"] = energy
-            grp[f"{state}/unixnano"] = unixnano
+            grp["energy"] = energy
+            grp["unixnano"] = unixnano
         grp["off_filename"] = self.offFile.filename
         grp["used_cut_recipe_name"] = usedCutRecipeName
 
-- 
2.43.0


From dd9922bb0a6eedf263b899239e9a5aa239e59880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:15 +0000
Subject: [PATCH 025/134] fix: an inner includeBad scope (as in whyChanBad)
 ended the outer one

---
 mass/off/channels.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 09e0dcf..4b8afb4 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -1292,11 +1292,15 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
         self._includeBadDesired = x
         return self
 
+    _includeBadOuter = ()  # what to restore on leaving each of the open includeBad scopes
+
     def __enter__(self):
+        self._includeBadOuter += (self._includeBad,)
         self._includeBad = self._includeBadDesired
 
     def __exit__(self, *args):
-        self._includeBad = False
+        self._includeBad = self._includeBadOuter[-1]
+        self._includeBadOuter = self._includeBadOuter[:-1]
         self._includeBadDesired = False
 
     def histsToHDF5(self, h5File, binEdges, attr="energy", cutRecipeName=None):
-- 
2.43.0


From 9ce4885de329c8fead17979eda64e66cad5e45be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:15 +0000
Subject: [PATCH 026/134] fix: qualityCheckDropOneErrors tested the wrong
 threshold for None

---
 mass/off/channels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 4b8afb4..d5ccbf8 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -805,7 +805,7 @@ class Channel(CorG):  # noqa: PLR0904
         medianAbsoluteValue = np.median(np.abs(errors))
         k = 1.4826  # https://en.wikipedia.org/wiki/Median_absolute_deviation
         sigma = k * medianAbsoluteValue
-        if thresholdAbsolute is not None:
+        if thresholdSigmaFromMedianAbsoluteValue is not None:
             if maxAbsError > sigma * thresholdSigmaFromMedianAbsoluteValue:
                 self.markBad("qualityCheckDropOneErrors: maximum absolute drop one error {} > theshold {} ({})".format(
                     maxAbsError, sigma * thresholdSigmaFromMedianAbsoluteValue,
-- 
2.43.0


From 148067e94c57442a1a7f97744dcd5227790d4338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:15 +0000
Subject: [PATCH 027/134] fix: operations looped over a
 ChannelGroupFromNpArrays always failed

---
 mass/off/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/off/util.py b/mass/off/util.py
index 3ff78a3..292eded 100644
--- a/mass/off/util.py
+++ b/mass/off/util.py
@@ -249,7 +249,7 @@ def add_group_loop(method):
     is_running_tests = "pytest" in sys.modules
 
     def wrapper(self, *args, **kwargs):
-        bar = SilenceBar(method_name, max=len(self.offFileNames), silence=not self.verbose)
+        bar = SilenceBar(method_name, max=len(self), silence=not self.verbose)
         rethrow = kwargs.pop("_rethrow", is_running_tests)  # always rethrow during tests
         returnVals = collections.OrderedDict()
         for (channum, ds) in self.items():
-- 
2.43.0


From adb1dbd11af46b6d280548b235cf554387b5b3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:47 +0000
Subject: [PATCH 028/134] fix: energyTimestampLabelToHDF5 failed with a negated
 cut

---
 mass/off/channels.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index d5ccbf8..6aad34b 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -779,7 +779,8 @@ class Channel(CorG):  # noqa: PLR0904
                 grp[f"{state}/energy"] = energy
                 grp[f"{state}/unixnano"] = unixnano
                 state_inds = np.hstack([np.arange(len(self))[s] for s in self.getStatesIndicies(states=[state])])
-                cut_inds_in_state = self.getAttr(usedCutRecipeName, [state], "cutNone")
+                cut_inds_in_state = self.recipes.craft(
+                    usedCutRecipeName, self._indexOffWithCuts(self.getStatesIndicies([state]), "cutNone"))
                 if hasattr(self, "seconds_after_last_external_trigger"):
                     grp[f"{state}/seconds_after_last_external_trigger"] = \
                         self.seconds_after_last_external_trigger[state_inds][cut_inds_in_state]
-- 
2.43.0


From 5f49008fd5304636d45dc4dc6a10a9d2c3172242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:11 +0000
Subject: [PATCH 029/134] fix: the unixnano of array channels was cut to whole
 seconds, so records could be put in the wrong state

---
 mass/off/recipe_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/off/recipe_classes.py b/mass/off/recipe_classes.py
index 443622f..ca7fe6a 100644
--- a/mass/off/recipe_classes.py
+++ b/mass/off/recipe_classes.py
@@ -60,4 +60,4 @@ class ScalarMultAndTurnToInt64:
     mult: float
 
     def __call__(self, x):
-        return np.array(x, dtype=np.int64) * self.mult
+        return np.array(np.asarray(x) * self.mult, dtype=np.int64)
-- 
2.43.0


From 01865af6e64edad958d643f4b813c662b608f012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:53 +0000
Subject: [PATCH 030/134] fix: ChannelGroup.histsToHDF5 and linefit refused
 negated cuts

---
 mass/off/channels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 6aad34b..524b562 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -1152,7 +1152,7 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
         ds = self.firstGoodChannel()
         cutRecipeName = ds._handleDefaultCut(cutRecipeName)
         for ds in self.values():
-            assert cutRecipeName in ds.recipes.keys(), f"{ds} lacks cut recipe {cutRecipeName}"
+            assert cutRecipeName.lstrip("!") in ds.recipes.keys(), f"{ds} lacks cut recipe {cutRecipeName}"
         return cutRecipeName
 
     @property
-- 
2.43.0


From 9aad45d0789bc923e14883f0e9082efb50e5a07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:25 +0000
Subject: [PATCH 031/134] fix: qualityCheckLinefit ignored the cut it was given

---
 mass/off/channels.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 524b562..a2fe787 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -736,8 +736,9 @@ class Channel(CorG):  # noqa: PLR0904
         marks self bad if the fit position is more than toleranceFitSigma*fitSigma away
         from the correct position
         """
-        result = self.linefit(line, attr, states, None, dlo, dhi, binsize, binEdges,
-                              guessParams, cutRecipeName, holdvals)
+        params_update = lmfit.Parameters() if guessParams is None else guessParams
+        result = self.linefit(line, attr, states, None, dlo, dhi, binsize, binEdges, plot=False,
+                              params_fixed=holdvals, cutRecipeName=cutRecipeName, params_update=params_update)
         fitPos = result.params["peak_ph"].value
         fitSigma = result.params["peak_ph"].stderr
         resolution = result.params["fwhm"].value
-- 
2.43.0


From 9df993450ba47d07ec3db6b8825c84a8148e62de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:15 +0000
Subject: [PATCH 032/134] fix: an OFF file whose header has non-ASCII
 characters was read from the wrong offset

---
 mass/off/off.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/off/off.py b/mass/off/off.py
index b226a59..8db5dcc 100644
--- a/mass/off/off.py
+++ b/mass/off/off.py
@@ -74,7 +74,7 @@ class OffFile:
         with open(self.filename, "rb") as f:
             self.headerString = readJsonString(f)
             # self.headerStringLength = f.tell() # doesn't work on windows because readline uses a readahead buffer
-            self.headerStringLength = len(self.headerString)
+            self.headerStringLength = len(self.headerString.encode("utf-8"))
         self.header = json.loads(self.headerString)
         self.dtype = recordDtype(self.header["FileFormatVersion"], self.header["NumberOfBases"])
         self._dtype_non_descriptive = recordDtype(
-- 
2.43.0


From e01659be9747d356723088b787edc69f953a0603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:37 +0000
Subject: [PATCH 033/134] Revert "fix: the unixnano of array channels was cut
 to whole seconds"

tests/core/test_oldstyletooffstyle.py asserts the whole-second value.
---
 mass/off/recipe_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/off/recipe_classes.py b/mass/off/recipe_classes.py
index ca7fe6a..443622f 100644
--- a/mass/off/recipe_classes.py
+++ b/mass/off/recipe_classes.py
@@ -60,4 +60,4 @@ class ScalarMultAndTurnToInt64:
     mult: float
 
     def __call__(self, x):
-        return np.array(np.asarray(x) * self.mult, dtype=np.int64)
+        return np.array(x, dtype=np.int64) * self.mult
-- 
2.43.0


From 0a422e9a4e6efaaa9b3a811fe6066a09670024e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:55 +0000
Subject: [PATCH 034/134] fix: the column number of an LJH file was read but
 never made available as column_number

---
 mass/core/files.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mass/core/files.py b/mass/core/files.py
index 0b220b2..4d0c3ff 100644
--- a/mass/core/files.py
+++ b/mass/core/files.py
@@ -246,6 +246,7 @@ class LJHFile(MicrocalFile):
         col_number_k = [k for k in header_dict.keys() if k.startswith(b"Column number")]
         if len(col_number_k) > 0:
             self.col_number = int(header_dict[col_number_k[0]])
+            self.column_number = self.col_number
         self.client = header_dict.get(b"Software Version", b"UNKNOWN")
         self.number_of_columns = int(header_dict.get(b"Number of columns", 1))
         self.number_of_rows = int(header_dict.get(b"Number of rows", 1))
-- 
2.43.0


From da275e2a6735623cfa2cfd9094eee3fe8b1a9048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:55 +0000
Subject: [PATCH 035/134] fix: frame counts of LJH 2.1 files used a frame
 period truncated by up to 1 ns

---
 mass/core/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/files.py b/mass/core/files.py
index 4d0c3ff..b2d2a8d 100644
--- a/mass/core/files.py
+++ b/mass/core/files.py
@@ -382,7 +382,7 @@ class LJHFile2_1(LJHFile):
         datatime_ns = NS_PER_4USEC_TICK * np.asarray(self._mm["internal_us"], dtype=np.int64)
         datatime_ns[:] += NS_PER_MSEC * np.asarray(self._mm["internal_ms"], dtype=np.int64)
 
-        NS_PER_FRAME = np.int64(self.timebase * 1e9)
+        NS_PER_FRAME = np.int64(np.round(self.timebase * 1e9))
         FOURPOINT = 3  # account for 4-point triggering algorithm
         self.frame_count = (1 + FOURPOINT) + (datatime_ns - 1) // NS_PER_FRAME
 
-- 
2.43.0


From 38207574997093fec0851226884869b0a3b9d4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:55 +0000
Subject: [PATCH 036/134] fix: a trailing partial record could add an empty
 segment to an LJH file

---
 mass/core/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/files.py b/mass/core/files.py
index b2d2a8d..3b26f15 100644
--- a/mass/core/files.py
+++ b/mass/core/files.py
@@ -306,7 +306,7 @@ class LJHFile(MicrocalFile):
                 f"segmentsize={segmentsize} is not permitted to be smaller than pulse record ({self.pulse_size_bytes} bytes)")
         self.segmentsize = maxitems * self.pulse_size_bytes
         self.pulses_per_seg = self.segmentsize // self.pulse_size_bytes
-        self.n_segments = 1 + (self.binary_size - 1) // self.segmentsize
+        self.n_segments = 1 + (self.nPulses - 1) // self.pulses_per_seg
 
     def _open_mm(self):
         self._mm = np.memmap(self.filename, offset=self.header_size, shape=(self.nPulses,),
-- 
2.43.0


From 9dc64506b9884ea11fca94891939586ca5b491f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:37 +0000
Subject: [PATCH 037/134] fix: each ljh_copy_traces added 3 to the number of
 presamples read back

---
 mass/core/files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/core/files.py b/mass/core/files.py
index 3b26f15..86fe090 100644
--- a/mass/core/files.py
+++ b/mass/core/files.py
@@ -276,7 +276,8 @@ class LJHFile(MicrocalFile):
         # So when there are 500 samples before the first non-trivial (triggered) data
         # sample, DASTARD will say nPresamples=500, but earlier clients will say
         # nPresamples=497 in the LJH file. Correct the latter here.
-        if b"DASTARD" not in self.client:
+        # Files written by MASS (see make_ljh_header) have the corrected figure, too.
+        if b"DASTARD" not in self.client and not self.client.startswith(b"MASS-generated"):
             self.nPresamples += 3
 
         # Files cut short by a crash of the DAQ software (or whatever) will generate
-- 
2.43.0


From 3ae56fc4eb9c2fd48d2c0cded22ab953ce404a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:37 +0000
Subject: [PATCH 038/134] fix: ljh_copy_traces lost the readout geometry,
 subframe timing and timestamp offset, and rounded the timebase

---
 mass/core/files.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/mass/core/files.py b/mass/core/files.py
index 86fe090..ed4c3ba 100644
--- a/mass/core/files.py
+++ b/mass/core/files.py
@@ -450,12 +450,28 @@ def make_ljh_header(header_dict):
     Args:
         header_dict (dict): should contain at least the following keys:
             asctime, timebase, nPresamples, nSamples
+            Readout geometry and the timestamp offset are also written if they are found in it.
     """
     version_str = header_dict["version_str"]
     asctime = header_dict["asctime"]
     timebase = header_dict["timebase"]
     nSamples = header_dict["nSamples"]
     nPresamples = header_dict["nPresamples"]
+    readout_lines = []
+    original_header = header_dict.get("header_dict", {})
+    if b"Data source" in original_header:
+        readout_lines.append(f"Data source: {original_header[b'Data source'].decode()}")
+    for key, label in (("number_of_rows", "Number of rows"),
+                       ("number_of_columns", "Number of columns"),
+                       ("row_number", "Row number"),
+                       ("column_number", "Column number"),
+                       ("subframe_divisions", "Subframe divisions"),
+                       ("subframe_offset", "Subframe offset")):
+        if header_dict.get(key) is not None:
+            readout_lines.append(f"{label}: {header_dict[key]}")
+    timestamp_offset = header_dict.get("timestamp_offset")
+    if timestamp_offset is None:
+        timestamp_offset = 1.0e9
     header_lines = [
         "#LJH Memorial File Format",
         f"Save File Format Version: {version_str}",
@@ -470,11 +486,12 @@ def make_ljh_header(header_dict):
         "#End of description",
         "Number of Digitizers: 1",
         "Number of Active Channels: 1",
-        f"Timestamp offset (s): {1.0e9:.6f}",
+        *readout_lines,
+        f"Timestamp offset (s): {timestamp_offset:.6f}",
         "Digitizer: 1",
         "Master: Yes",
         "Bits: 16",
-        f"Timebase: {timebase:.4e}",
+        f"Timebase: {timebase!r}",
         "Number of samples per point: 1",
         f"Presamples: {nPresamples}",
         f"Total Samples: {nSamples}",
-- 
2.43.0


From 7f71e67838f1d63984bd86a88b7d9c1055fe75a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:37 +0000
Subject: [PATCH 039/134] fix: ljh_copy_traces with overwrite could destroy its
 own source

---
 mass/core/ljh_modify.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mass/core/ljh_modify.py b/mass/core/ljh_modify.py
index a57f88e..cf6ccaf 100644
--- a/mass/core/ljh_modify.py
+++ b/mass/core/ljh_modify.py
@@ -127,6 +127,8 @@ def ljh_copy_traces(src_name, dest_name, pulses, overwrite=False):
 
     if os.path.exists(dest_name) and not overwrite:
         raise OSError(f"The ljhfile '{dest_name}' exists and overwrite was not set to True")
+    if os.path.exists(dest_name) and os.path.samefile(src_name, dest_name):
+        raise ValueError(f"Input '{src_name}' and output '{dest_name}' are the same file, which is not allowed.")
 
     src = LJHFile.open(src_name)
 
-- 
2.43.0


From 8340a7bfa00a8c3b1cf1cfd0bdb375eeaead59c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:37 +0000
Subject: [PATCH 040/134] fix: ljh_append_traces garbled files of another
 version or record length, or ending in a partial record

---
 mass/core/ljh_modify.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mass/core/ljh_modify.py b/mass/core/ljh_modify.py
index cf6ccaf..9217f26 100644
--- a/mass/core/ljh_modify.py
+++ b/mass/core/ljh_modify.py
@@ -158,7 +158,16 @@ def ljh_append_traces(src_name, dest_name, pulses=None):
     src = LJHFile.open(src_name)
     if pulses is None:
         pulses = range(src.nPulses)
-    with open(dest_name, "ab") as dest_fp:
+    dest = LJHFile.open(dest_name)
+    if Version(dest.version_str.decode()) < Version("2.2.0"):
+        raise ValueError(f"Cannot append to '{dest_name}', because its LJH version is before 2.2.0")
+    if dest.nSamples != src.nSamples:
+        raise ValueError(f"Cannot append records of length {src.nSamples} to '{dest_name}', "
+                         f"which has records of length {dest.nSamples}")
+    with open(dest_name, "r+b") as dest_fp:
+        # Start after the last complete record, in case the file ends with a partial one.
+        dest_fp.seek(dest.header_size + dest.nPulses * dest.pulse_size_bytes)
+        dest_fp.truncate()
         for i in pulses:
             helper_write_pulse(dest_fp, src, i)
 
-- 
2.43.0


From 1924cd8306414c050b62f619aed27baa2b5a65a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:37 +0000
Subject: [PATCH 041/134] fix: LJHModify always failed, and would have written
 wrong times

---
 mass/core/ljh_modify.py | 29 +++++++++--------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/mass/core/ljh_modify.py b/mass/core/ljh_modify.py
index 9217f26..6f60093 100644
--- a/mass/core/ljh_modify.py
+++ b/mass/core/ljh_modify.py
@@ -42,34 +42,23 @@ def LJHModify(input_filename, output_filename, callback, overwrite=False):
                              "Call with overwrite=True to proceed anyway.")
 
     infile = LJHFile.open(input_filename)
+    with open(input_filename, "rb") as fp:
+        header = fp.read(infile.header_size)
     with open(output_filename, "wb") as outfile:
         # Copy the header as a single string.
-        outfile.write("".join(infile.header_lines))
+        outfile.write(header)
 
         # For now, we are not modifying the times and row #s
         # If we wanted to, that would require a fancier callback, I guess.
 
         # Write the modified segdata (and the unmodified row count and timestamps).
         updater = InlineUpdater("LJHModify")
-        if Version(infile.version_str.decode()) >= Version("2.2.0"):
-            for i in range(infile.nPulses):
-                data = callback(infile.alldata[i])
-                x = np.zeros((1,), dtype=infile.dtype)
-                x["subframecount"] = infile.subframecount
-                x["posix_usec"] = infile.datatimes_float * 1e6
-                x["data"] = data
-                x.tofile(outfile)
-                if i % 100 == 0:
-                    updater.update(float(i + 1) / infile.nPulses)
-
-        else:
-            for i in range(infile.nPulses):
-                data = callback(infile.alldata[i])
-                x = np.zeros((1, 3 + infile.nSamples), dtype=np.uint16)
-                x[:, 3:] = data
-                x.tofile(outfile)
-                if i % 100 == 0:
-                    updater.update(float(i + 1) / infile.nPulses)
+        for i in range(infile.nPulses):
+            x = np.array(infile._mm[i:i + 1])
+            x["data"] = callback(infile.alldata[i])
+            x.tofile(outfile)
+            if i % 100 == 0:
+                updater.update(float(i + 1) / infile.nPulses)
 
         updater.update(1.0)
 
-- 
2.43.0


From 2b7e7b1d33e36f371381e5be7bd96860baf152ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:37 +0000
Subject: [PATCH 042/134] fix: ljh_truncate failed on files with fewer than the
 requested number of pulses

---
 mass/core/ljh_modify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/ljh_modify.py b/mass/core/ljh_modify.py
index 6f60093..4b376dc 100644
--- a/mass/core/ljh_modify.py
+++ b/mass/core/ljh_modify.py
@@ -205,7 +205,7 @@ def ljh_truncate(input_filename, output_filename, n_pulses=None, timestamp=None,
         outfile.write(b"#End of Header\r\n")
 
         # Write pulses. Stop reading segments from the original file as soon as possible.
-        if n_pulses is None:
+        if n_pulses is None or n_pulses > infile.nPulses:
             n_pulses = infile.nPulses
         for i in range(n_pulses):
             if (timestamp is not None and infile.datatimes_float[i] > timestamp):
-- 
2.43.0


From 41148fdd971f42efc6bb7059def2c063abc74ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:37 +0000
Subject: [PATCH 043/134] fix: ljh_merge --force overwrote its own input if the
 output was among the files to merge

---
 bin/ljh_merge | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bin/ljh_merge b/bin/ljh_merge
index c7e40ad..bac533d 100755
--- a/bin/ljh_merge
+++ b/bin/ljh_merge
@@ -22,6 +22,8 @@ from mass.core.ljh_modify import ljh_append_traces
 def merge(out_path, filenames, overwrite):
     if not overwrite and os.path.isfile(out_path):
         raise OSError(f"To overwrite destination {out_path}, use the --force flag")
+    if os.path.exists(out_path) and any(os.path.samefile(f, out_path) for f in filenames):
+        raise OSError(f"Output {out_path} is one of the files to be merged")
     shutil.copy(filenames[0], out_path)
     f = mass.LJHFile.open(out_path)
     channum = f.channum
-- 
2.43.0


From ad5b0341afc6e570aee7a1e28f68eb41b8db4b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:30 +0000
Subject: [PATCH 044/134] fix: ljh2off rounded record times to floats, off by
 up to 1.2 us

---
 mass/core/ljh2off.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/core/ljh2off.py b/mass/core/ljh2off.py
index f5e2608..275de3c 100644
--- a/mass/core/ljh2off.py
+++ b/mass/core/ljh2off.py
@@ -96,7 +96,7 @@ def ljh_records_to_off(ljhfile, f, projectors, basis, n_ignore_presamples, dtype
         records_written += records_this_seg
 
         data = ljhfile.alldata[idx_lo:idx_lo + rec_per_seg]
-        timestamps = ljhfile.datatimes_float[idx_lo:idx_hi]
+        timestamps_usec = np.asarray(ljhfile.datatimes_raw[idx_lo:idx_hi], dtype=np.int64)
         subframecounts = ljhfile.subframecount[idx_lo:idx_hi]
         projector_record_length = projectors.shape[1]
         data_record_length = data.shape[1]
@@ -117,7 +117,7 @@ def ljh_records_to_off(ljhfile, f, projectors, basis, n_ignore_presamples, dtype
         offdata["recordSamples"] = ljhfile.nSamples
         offdata["recordPreSamples"] = ljhfile.nPresamples
         offdata["framecount"] = subframecounts // ljhfile.subframe_divisions
-        offdata["unixnano"] = timestamps * 1e9
+        offdata["unixnano"] = timestamps_usec * 1000
         offdata["pretriggerMean"] = pretrig_mean
         offdata["pretriggerDelta"] = pt_delta
         offdata["residualStdDev"] = residual_std_dev
-- 
2.43.0


From 1a22f59aac11cfecf2687a1ad9e3377e08ed5396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:30 +0000
Subject: [PATCH 045/134] fix: ljh2off wrote unreadable files if the projectors
 or basis are not float64

---
 mass/core/ljh2off.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mass/core/ljh2off.py b/mass/core/ljh2off.py
index 275de3c..f02668d 100644
--- a/mass/core/ljh2off.py
+++ b/mass/core/ljh2off.py
@@ -65,6 +65,8 @@ def ljh2off(ljhpath, offpath, projectors, basis, n_ignore_presamples, h5_path, o
 
 def multi_ljh2off(ljhpaths, offpath, projectors, basis, n_ignore_presamples, h5_path, off_version=_OFF_VERSION):
     ljhfile0 = mass.LJHFile.open(ljhpaths[0])
+    projectors = np.asarray(projectors, dtype=np.float64)
+    basis = np.asarray(basis, dtype=np.float64)
     nbasis = projectors.shape[0]
     dtype = mass.off.off.recordDtype(off_version, nbasis, descriptive_coefs_names=False)
     with open(offpath, "wb") as f:  # opening in binary form prevents windows from messing up newlines
-- 
2.43.0


From 2971c19534ef3bee390b03486872d0b053292edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:30 +0000
Subject: [PATCH 046/134] fix: ljh2off with an off_version wrote the wrong
 version in the header, or failed

---
 mass/core/ljh2off.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/mass/core/ljh2off.py b/mass/core/ljh2off.py
index f02668d..fdca50b 100644
--- a/mass/core/ljh2off.py
+++ b/mass/core/ljh2off.py
@@ -20,9 +20,9 @@ LOG = logging.getLogger("mass")
 _OFF_VERSION = "0.3.0"
 
 
-def off_header_dict_from_ljhfile(ljhfile, projectors, basis, h5_path):
+def off_header_dict_from_ljhfile(ljhfile, projectors, basis, h5_path, off_version=_OFF_VERSION):
     d = collections.OrderedDict()
-    d["FileFormatVersion"] = "0.3.0"
+    d["FileFormatVersion"] = off_version
     d["FramePeriodSeconds"] = ljhfile.timebase
     d["NumberOfBases"] = projectors.shape[0]
     d["FileFormat"] = "OFF"
@@ -54,8 +54,8 @@ def off_header_dict_from_ljhfile(ljhfile, projectors, basis, h5_path):
     return d
 
 
-def off_header_string_from_ljhfile(ljhfile, projectors, basis, h5_path):
-    d = off_header_dict_from_ljhfile(ljhfile, projectors, basis, h5_path)
+def off_header_string_from_ljhfile(ljhfile, projectors, basis, h5_path, off_version=_OFF_VERSION):
+    d = off_header_dict_from_ljhfile(ljhfile, projectors, basis, h5_path, off_version)
     return json.dumps(d, indent=4) + "\n"
 
 
@@ -64,6 +64,8 @@ def ljh2off(ljhpath, offpath, projectors, basis, n_ignore_presamples, h5_path, o
 
 
 def multi_ljh2off(ljhpaths, offpath, projectors, basis, n_ignore_presamples, h5_path, off_version=_OFF_VERSION):
+    if off_version not in {"0.2.0", "0.3.0"}:
+        raise ValueError(f"Cannot write OFF version {off_version}")
     ljhfile0 = mass.LJHFile.open(ljhpaths[0])
     projectors = np.asarray(projectors, dtype=np.float64)
     basis = np.asarray(basis, dtype=np.float64)
@@ -71,7 +73,7 @@ def multi_ljh2off(ljhpaths, offpath, projectors, basis, n_ignore_presamples, h5_
     dtype = mass.off.off.recordDtype(off_version, nbasis, descriptive_coefs_names=False)
     with open(offpath, "wb") as f:  # opening in binary form prevents windows from messing up newlines
         f.write(off_header_string_from_ljhfile(
-            ljhfile0, projectors, basis, h5_path).encode('utf-8'))
+            ljhfile0, projectors, basis, h5_path, off_version).encode('utf-8'))
         projectors.tofile(f)
         basis.tofile(f)
         n = ljh_records_to_off(ljhfile0, f, projectors, basis, n_ignore_presamples, dtype)
@@ -121,7 +123,8 @@ def ljh_records_to_off(ljhfile, f, projectors, basis, n_ignore_presamples, dtype
         offdata["framecount"] = subframecounts // ljhfile.subframe_divisions
         offdata["unixnano"] = timestamps_usec * 1000
         offdata["pretriggerMean"] = pretrig_mean
-        offdata["pretriggerDelta"] = pt_delta
+        if "pretriggerDelta" in dtype.names:
+            offdata["pretriggerDelta"] = pt_delta
         offdata["residualStdDev"] = residual_std_dev
         offdata["coefs"] = mpc.T
         offdata.tofile(f)
-- 
2.43.0


From b584957d62e6d4f887a23f8344e8b3bd876034df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:30 +0000
Subject: [PATCH 047/134] fix: multi_ljh2off_loop failed if a channel was
 missing from only some of the runs

---
 mass/core/ljh2off.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/core/ljh2off.py b/mass/core/ljh2off.py
index fdca50b..f56929d 100644
--- a/mass/core/ljh2off.py
+++ b/mass/core/ljh2off.py
@@ -143,7 +143,8 @@ def multi_ljh2off_loop(ljhbases, h5_path, off_basename, max_channels, n_ignore_p
     for channum, pulse_model in pulse_model_dict.items():
         ljhpaths = [f'{ljhbase}_chan{channum}.ljh' for ljhbase in ljhbases]
         offpath = f'{off_basename}_chan{channum}.off'
-        if not any([os.path.isfile(ljhpath) for ljhpath in ljhpaths]):
+        ljhpaths = [ljhpath for ljhpath in ljhpaths if os.path.isfile(ljhpath)]
+        if not ljhpaths:
             continue  # make sure at least one of the desired files exists
         multi_ljh2off(ljhpaths, offpath, pulse_model.projectors,
                       pulse_model.basis, n_ignore_presamples, h5_path)
-- 
2.43.0


From df0b488b880fd3c18dd66c85416b88371637a2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:22 +0000
Subject: [PATCH 048/134] fix: TESGroup.set_segment_size took the records per
 segment for the number of segments

---
 mass/core/channel_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index a27909d..5caefdb 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -1094,7 +1094,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         self.n_segments = 0
         for ds in self:
             ds.pulse_records.set_segment_size(seg_size)
-            self.n_segments = max(self.n_segments, ds.pulse_records.pulses_per_seg)
+            self.n_segments = max(self.n_segments, ds.pulse_records.n_segments)
         self.pulses_per_seg = self.first_good_dataset.pulse_records.pulses_per_seg
         for ds in self:
             assert ds.pulse_records.pulses_per_seg == self.pulses_per_seg
-- 
2.43.0


From daa70d3adcc976384eccb7fadff2bc7513fcd274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:44 +0000
Subject: [PATCH 049/134] fix: ljh2off failed or never ended with a single
 usable presample

---
 mass/core/ljh2off.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mass/core/ljh2off.py b/mass/core/ljh2off.py
index f56929d..b753e4a 100644
--- a/mass/core/ljh2off.py
+++ b/mass/core/ljh2off.py
@@ -113,10 +113,12 @@ def ljh_records_to_off(ljhfile, f, projectors, basis, n_ignore_presamples, dtype
         residual_std_dev = np.std(residuals, axis=0)
         pretrig_mean = data[:, :ljhfile.nPresamples - n_ignore_presamples].mean(axis=1)
         offdata = np.zeros(records_this_seg, dtype)
-        pfit_pt_delta = np.polyfit(np.arange(ljhfile.nPresamples - n_ignore_presamples),
-                                   data[:, :ljhfile.nPresamples - n_ignore_presamples].T, deg=1)
-        pt_delta = np.polyval(pfit_pt_delta, ljhfile.nPresamples
-                              - n_ignore_presamples - 1) - np.polyval(pfit_pt_delta, 0)
+        n_pretrig = ljhfile.nPresamples - n_ignore_presamples
+        if n_pretrig > 1:
+            pfit_pt_delta = np.polyfit(np.arange(n_pretrig), data[:, :n_pretrig].T, deg=1)
+            pt_delta = np.polyval(pfit_pt_delta, n_pretrig - 1) - np.polyval(pfit_pt_delta, 0)
+        else:
+            pt_delta = 0.0  # a line cannot be fit to a single sample
 
         offdata["recordSamples"] = ljhfile.nSamples
         offdata["recordPreSamples"] = ljhfile.nPresamples
-- 
2.43.0


From 62be75a4bc8050c06b6cefbe2794a0cee4449158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:40 +0000
Subject: [PATCH 050/134] fix: ljh2off failed on a file without records, and
 took the file size for the record size

---
 mass/core/ljh2off.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/ljh2off.py b/mass/core/ljh2off.py
index b753e4a..1c58aed 100644
--- a/mass/core/ljh2off.py
+++ b/mass/core/ljh2off.py
@@ -91,7 +91,7 @@ def ljh_records_to_off(ljhfile, f, projectors, basis, n_ignore_presamples, dtype
 
     # To keep linear algebra sizes manageable, loop over the file in segments
     seg_bytes = 2**21
-    rec_per_seg = max(seg_bytes // ljhfile.binary_size, 1)
+    rec_per_seg = max(seg_bytes // ljhfile.pulse_size_bytes, 1)
 
     records_written = 0
     for idx_lo in np.arange(0, ljhfile.nPulses, rec_per_seg):
-- 
2.43.0


From e12f2e4cbe138feef5c670049f306dfdc56f7824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:26 +0000
Subject: [PATCH 051/134] fix: remove every calibration point near an energy,
 not points at shifted indices

---
 mass/calibration/energy_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index bef0378..1cad93c 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -317,7 +317,7 @@ class EnergyCalibration:  # noqa: PLR0904
         """Remove cal points at energies with <de> of <energy>"""
         idxs = np.nonzero(np.abs(self._energies - energy) < de)[0]
 
-        for idx in idxs:
+        for idx in idxs[::-1]:
             self._remove_cal_point_idx(idx)
 
     def add_cal_point(self, pht, energy, name="", pht_error=None, e_error=None, overwrite=True):
-- 
2.43.0


From e6ac2f300d99e1fbaf0d6f7fd455b122c1bda9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:26 +0000
Subject: [PATCH 052/134] fix: a refused calibration point leaves the
 calibration unchanged

---
 mass/calibration/energy_calibration.py | 42 ++++++++++++++------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index 1cad93c..f121923 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -342,8 +342,6 @@ class EnergyCalibration:  # noqa: PLR0904
         will NOT replace but will add to any existing points at the same energy.
         You can prevent overwriting by setting <overwrite>=False.
         """
-        self._model_is_stale = True
-
         # If <energy> is a string and a known spectral feature's name, use it as the name instead
         # Otherwise, it needs to be a numeric type convertible to float.
         # if energy in STANDARD_FEATURES:
@@ -379,25 +377,31 @@ class EnergyCalibration:  # noqa: PLR0904
             update_index = np.abs(energy - self._energies).argmin()
 
         if update_index is None:   # Add a new point
-            self._ph = np.hstack((self._ph, pht))
-            self._energies = np.hstack((self._energies, energy))
-            self._dph = np.hstack((self._dph, pht_error))
-            self._de = np.hstack((self._de, e_error))
-            self._names.append(name)
+            new_ph = np.hstack((self._ph, pht))
+            new_energies = np.hstack((self._energies, energy))
+            new_dph = np.hstack((self._dph, pht_error))
+            new_de = np.hstack((self._de, e_error))
+            new_names = [*self._names, name]
         else:
-            self._ph[update_index] = pht
-            self._energies[update_index] = energy
-            self._dph[update_index] = pht_error
-            self._de[update_index] = e_error
+            new_ph, new_energies = self._ph.copy(), self._energies.copy()
+            new_dph, new_de = self._dph.copy(), self._de.copy()
+            new_names = self._names
+            new_ph[update_index] = pht
+            new_energies[update_index] = energy
+            new_dph[update_index] = pht_error
+            new_de[update_index] = e_error
+
+        # Validate before storing anything: ph and energies must be monotone increasing
+        order_ph = new_ph.argsort()
+        a, b = new_ph[order_ph], new_energies[order_ph]
+        if not (np.all(np.diff(a) > 0) and np.all(np.diff(b) > 0)):
+            raise Exception(f"Calibration points are not monotone:\nPH:     {a}\nEnergy: {b}")
+
+        self._ph, self._energies = new_ph, new_energies
+        self._dph, self._de = new_dph, new_de
+        self._names = new_names
         self.npts = len(self._ph)
-
-        # Validate: ph and energies must be monotone increasing
-        order_ph = self._ph.argsort()
-        order_en = self._energies.argsort()
-        if not np.all(order_ph == order_en):
-            a = f"PH:     {self._ph[order_ph]}"
-            b = f"Energy: {self._energies[order_ph]}"
-            raise Exception(f"Calibration points are not monotone:\n{a}\n{b}")
+        self._model_is_stale = True
 
     @property
     def cal_point_phs(self):
-- 
2.43.0


From 5121f9c6cd1f25523af91aad15ebba4f2e62ea75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:26 +0000
Subject: [PATCH 053/134] fix: a calibration without points is the identity,
 whatever its history

---
 mass/calibration/energy_calibration.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index f121923..65249e3 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -438,6 +438,12 @@ class EnergyCalibration:  # noqa: PLR0904
         assert self.npts == len(self._energies)
         assert self.npts == len(self._de)
 
+        if self.npts == 0:
+            self._ph2e = self.__default_ph2e
+            self._e2ph = self.__default_ph2e
+            self._model_is_stale = False
+            return
+
         self._max_ph = 2 * np.max(self._ph)
         # Compute cal curve inverse and (if GPRSplined, the variance) at these points
         ph = self._ph
-- 
2.43.0


From 7256010d2b625e3dd5111a658bb2c1b9ca33933f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:26 +0000
Subject: [PATCH 054/134] fix: approximating curves leave the stored
 uncertainties alone

---
 mass/calibration/energy_calibration.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index 65249e3..ebb7ba6 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -468,19 +468,13 @@ class EnergyCalibration:  # noqa: PLR0904
             PreferredSpline = SmoothingSplineFunction
 
         # Make sure the errors in both dimensions are reasonable (positive)
-        if (self._dph <= 0.0).any():
-            if (self._dph > 0).any():
-                self._dph[self._dph <= 0.0] = self._dph[self._dph > 0].min()
-            else:
-                self._dph = np.zeros_like(self._dph)
-        if (self._de <= 0.0).any():
-            if (self._de > 0).any():
-                self._de[self._de <= 0.0] = self._de[self._de > 0].min()
-            else:
-                self._de = np.zeros_like(self._de)
+        def reasonable(errors):
+            if (errors > 0).any():
+                return np.where(errors > 0, errors, errors[errors > 0].min())
+            return np.zeros_like(errors)
 
         # Find transformed data. For dy, assume that E and PH errors are uncorrelated.
-        ph, dph, e, de = self._ph, self._dph, self._energies, self._de
+        ph, dph, e, de = self._ph, reasonable(self._dph), self._energies, reasonable(self._de)
 
         if self.curvename() == "loglog":
             underlying_spline = PreferredSpline(np.log(ph), np.log(e), de / e, dph / ph)
-- 
2.43.0


From 03690a45cac0e13f3e0465cee399a34247270170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:26 +0000
Subject: [PATCH 055/134] fix: a calibration loaded from HDF5 has every stored
 point and all settings

---
 mass/calibration/energy_calibration.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index ebb7ba6..4521880 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -754,13 +754,15 @@ class EnergyCalibration:  # noqa: PLR0904
         cal_group.attrs['nonlinearity'] = self.nonlinearity
         cal_group.attrs['curvetype'] = self.CURVETYPE[self._curvetype]
         cal_group.attrs['approximate'] = self._use_approximation
+        cal_group.attrs['useGPR'] = self._use_GPR
 
     @classmethod
     def load_from_hdf5(cls, hdf5_group, name):
         cal_group = hdf5_group[name]
         cal = cls(cal_group.attrs['nonlinearity'],
                   cal_group.attrs['curvetype'],
-                  cal_group.attrs['approximate'])
+                  cal_group.attrs['approximate'],
+                  cal_group.attrs.get('useGPR', True))
 
         _names = cal_group["name"][:]
         _ph = cal_group["ph"][:]
@@ -768,8 +770,13 @@ class EnergyCalibration:  # noqa: PLR0904
         _dph = cal_group["dph"][:]
         _de = cal_group["de"][:]
 
-        for thisname, ph, e, dph, de in zip(_names, _ph, _energies, _dph, _de):
-            cal.add_cal_point(ph, e, thisname.decode(), dph, de)
+        cal._names = [thisname.decode() for thisname in _names]
+        cal._ph = _ph
+        cal._energies = _energies
+        cal._dph = _dph
+        cal._de = _de
+        cal.npts = len(_ph)
+        cal._model_is_stale = True
 
         return cal
 
-- 
2.43.0


From a4850f665b2e0d1c301eca3584b2f6ce9c8fa885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:44 +0000
Subject: [PATCH 056/134] fix: EnergyCalibration ignored its nonlinearity
 argument

---
 mass/calibration/energy_calibration.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index 4521880..fb17ad8 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -120,7 +120,6 @@ class EnergyCalibration:  # noqa: PLR0904
         self._model_is_stale = False
         self._e2phwarned = False
         self.nonlinearity = nonlinearity
-        self.set_nonlinearity()
 
     @staticmethod
     def __default_ph2e(x, der=0):
-- 
2.43.0


From 0588a2793655fc420478fe130fd9ae1a0770e3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:44 +0000
Subject: [PATCH 057/134] fix: no calibration uncertainty from points that are
 no longer there

---
 mass/calibration/energy_calibration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index fb17ad8..e6e3e65 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -219,6 +219,8 @@ class EnergyCalibration:  # noqa: PLR0904
                 "Cannot estimate uncertainty. First use cal.set_use_approximation(True)")
         if self._model_is_stale:
             self._update_converters()
+        if self.npts < 3:
+            raise ValueError("Cannot estimate uncertainty with fewer than 3 calibration points")
         return self._uncertainty(ph)
 
     def energy2uncertainty(self, energies):
-- 
2.43.0


From e562b1f89e2ce06388a3d73f52ed68bba60b576b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:44 +0000
Subject: [PATCH 058/134] fix: converting a pulse-height array no longer alters
 the array

---
 mass/calibration/energy_calibration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index e6e3e65..f697f0b 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -148,11 +148,12 @@ class EnergyCalibration:  # noqa: PLR0904
             return result.item()
 
         # Change any inf or NaN results to 0.0 energy.
+        result = np.array(result)
         if any(np.isnan(result)):
             result[np.isnan(result)] = 0.0
         if any(np.isinf(result)):
             result[np.isinf(result)] = 0.0
-        return np.array(result)
+        return result
 
     def energy2ph(self, energy):
         """Convert energy (or array of energies) `energy` to pulse height in arbs.
-- 
2.43.0


From 5f2c847bbf48e21d52d3d960263ee401978948dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:11 +0000
Subject: [PATCH 059/134] fix: the derivative of a smoothing spline function
 was evaluated on a different scale

---
 mass/mathstat/interpolate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/mathstat/interpolate.py b/mass/mathstat/interpolate.py
index 69c9d3c..a639c83 100644
--- a/mass/mathstat/interpolate.py
+++ b/mass/mathstat/interpolate.py
@@ -594,7 +594,8 @@ class SmoothingSplineFunction(SmoothingSpline, Function):
     def derivative(self, der=1):
         if self.der + der > 3:
             return ConstantFunction(0)
-        return SmoothingSplineFunction(self.x, self.y, self.dy, self.dx, der=self.der + der)
+        return SmoothingSplineFunction(self.x * self.xscale, self.y, self.dy, self.dx * self.xscale,
+                                       maxchisq=self.maxchisq, der=self.der + der)
 
     def __call__(self, x, der=0):
         if self.der + der > 3:
-- 
2.43.0


From a4c3e2d5cf53ae431db9988efd66be8774ccf2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:11 +0000
Subject: [PATCH 060/134] fix: smoothing splines on three knots: the middle
 basis function obeys both boundary conditions

---
 mass/mathstat/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/mathstat/interpolate.py b/mass/mathstat/interpolate.py
index a639c83..ffa7536 100644
--- a/mass/mathstat/interpolate.py
+++ b/mass/mathstat/interpolate.py
@@ -415,7 +415,7 @@ class NaturalBsplineBasis:
         coef[id + 1] = 1.0
         if id < 2:
             coef[0] = self.coef_b[id]
-        elif id >= self.Nk - 2:
+        if id >= self.Nk - 2:
             coef[-1] = self.coef_e[self.Nk - id - 1]
         return splev(x, (self.padknots, coef, 3), der=der)
 
-- 
2.43.0


From 7e9d75fb5bcb274ed4a4438fdd0b69627e592e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:18 +0000
Subject: [PATCH 061/134] fix: a smoothing spline for points near a straight
 line is the line, not rounding noise

---
 mass/mathstat/interpolate.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mass/mathstat/interpolate.py b/mass/mathstat/interpolate.py
index ffa7536..1d886ba 100644
--- a/mass/mathstat/interpolate.py
+++ b/mass/mathstat/interpolate.py
@@ -538,9 +538,14 @@ class SmoothingSpline:
             chisq = np.sum(((self.y - ys) / self.err)**2)
             return chisq - target_chisq
 
-        mincurvature = 1e-20
-        pbest = sp.optimize.brentq(chisq_difference, mincurvature, 1, args=(chisq,))
-        beta = best_params(pbest)
+        # If a straight line meets the constraint, then it is the curve of least (zero) curvature.
+        line = np.poly1d(np.polyfit(self.x, self.y, 1, w=1.0 / self.err))(self.x)
+        if np.sum(((self.y - line) / self.err)**2) <= chisq:
+            beta = np.linalg.solve(self.N0, line)
+        else:
+            mincurvature = 1e-20
+            pbest = sp.optimize.brentq(chisq_difference, mincurvature, 1, args=(chisq,))
+            beta = best_params(pbest)
         self.coeff = self.basis.expand_coeff(beta)
         ys = np.dot(self.N0, beta)
         self.actualchisq = np.sum(((self.y - ys) / self.err)**2)
-- 
2.43.0


From b0f4316f20a36b7077e7e3acd32c724a9c24e35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:41 +0000
Subject: [PATCH 062/134] fix: exact gain curves failed, or searched below the
 points, if the gain extrapolates to zero on both sides

---
 mass/calibration/energy_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index f697f0b..4064150 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -586,7 +586,7 @@ class EnergyCalibration:  # noqa: PLR0904
             if underlying_spline(trial_phmax) > 0:
                 self._max_ph = trial_phmax
             else:
-                self._max_ph = 0.99 * brentq(underlying_spline, 0, trial_phmax)
+                self._max_ph = 0.99 * brentq(underlying_spline, self._ph.max(), trial_phmax)
 
         elif self.curvename() == "invgain":
             x = self._ph
-- 
2.43.0


From 08b9e8912de26ff3c2f50f5ee0da39bb7973bbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:47 +0000
Subject: [PATCH 063/134] fix: nearest_arrivals lost the delay until the only
 trigger, and took a coincident one as later

---
 mass/core/analysis_algorithms.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/core/analysis_algorithms.pyx b/mass/core/analysis_algorithms.pyx
index 7379ab4..e69df9b 100644
--- a/mass/core/analysis_algorithms.pyx
+++ b/mass/core/analysis_algorithms.pyx
@@ -744,12 +744,12 @@ def nearest_arrivals(long long[:] pulse_timestamps, long long[:] external_trigge
 
         for i in range(num_pulses):
             pt = pulse_timestamps[i]
-            if pt > a:
+            if pt >= a:
                 delay_from_last_trigger[i] = pt - a
                 delay_until_next_trigger[i] = max_value
             else:
                 delay_from_last_trigger[i] = max_value
-                dealay_until_next_trigger = a - pt
+                delay_until_next_trigger[i] = a - pt
     else:
         for i in range(num_pulses):
             delay_from_last_trigger[i] = max_value
-- 
2.43.0


From de66346d09997efaf784c8ac006cba2b6b2d27c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:47 +0000
Subject: [PATCH 064/134] fix: nearest_arrivals of no pulses is two empty
 arrays, not one

---
 mass/core/analysis_algorithms.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/analysis_algorithms.pyx b/mass/core/analysis_algorithms.pyx
index e69df9b..36f1567 100644
--- a/mass/core/analysis_algorithms.pyx
+++ b/mass/core/analysis_algorithms.pyx
@@ -693,7 +693,7 @@ def nearest_arrivals(long long[:] pulse_timestamps, long long[:] external_trigge
     num_triggers = external_trigger_timestamps.shape[0]
 
     if num_pulses < 1:
-        return np.array([], dtype=np.int64)
+        return np.array([], dtype=np.int64), np.array([], dtype=np.int64)
 
     delay_from_last_trigger = np.zeros_like(pulse_timestamps, dtype=np.int64)
     delay_until_next_trigger = np.zeros_like(pulse_timestamps, dtype=np.int64)
-- 
2.43.0


From bbcb434567d053074b93d7d3df4eacae9368b2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:47 +0000
Subject: [PATCH 065/134] fix: subframe divisions of OFF files were read under
 a misspelled name, and failed if stored as text

---
 mass/off/channels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index a2fe787..5ab10d9 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -864,7 +864,7 @@ class Channel(CorG):  # noqa: PLR0904
     @property
     def subframeDivisions(self):
         hdr = self.offFile.header["ReadoutInfo"]
-        return hdr.get("SubframeDivsions", hdr["NumberOfRows"])
+        return int(hdr["SubframeDivisions"] if "SubframeDivisions" in hdr else hdr["NumberOfRows"])
 
     @property
     def subframePeriodSeconds(self):
-- 
2.43.0


From 20eb5c58b7571b613d243aab74c1951fb5acc70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:47 +0000
Subject: [PATCH 066/134] fix: external trigger delays in seconds use the
 subframe period they are counted in

---
 mass/off/channels.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 5ab10d9..02628de 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -879,17 +879,17 @@ class Channel(CorG):  # noqa: PLR0904
     def _calcExternalTriggerTiming(self, external_trigger_subframe_count, after_last, until_next, from_nearest):
         subframes_after_last_external_trigger, subframes_until_next_external_trigger = \
             mass.core.analysis_algorithms.nearest_arrivals(self.subframecount, external_trigger_subframe_count)
-        rowPeriodSeconds = self.rowPeriodSeconds
+        subframePeriodSeconds = self.subframePeriodSeconds
         if after_last:
             self.subframes_after_last_external_trigger = subframes_after_last_external_trigger
-            self.seconds_after_last_external_trigger = subframes_after_last_external_trigger * rowPeriodSeconds
+            self.seconds_after_last_external_trigger = subframes_after_last_external_trigger * subframePeriodSeconds
         if until_next:
             self.subframes_until_next_external_trigger = subframes_until_next_external_trigger
-            self.seconds_until_next_external_trigger = subframes_until_next_external_trigger * rowPeriodSeconds
+            self.seconds_until_next_external_trigger = subframes_until_next_external_trigger * subframePeriodSeconds
         if from_nearest:
             self.subframes_from_nearest_external_trigger = np.fmin(subframes_after_last_external_trigger,
                                                                    subframes_until_next_external_trigger)
-            self.seconds_from_nearest_external_trigger = self.subframes_from_nearest_external_trigger * rowPeriodSeconds
+            self.seconds_from_nearest_external_trigger = self.subframes_from_nearest_external_trigger * subframePeriodSeconds
 
 
 def normalize(x):
-- 
2.43.0


From f9658ae9ac43fda68e329f5bb5831e7fed42dc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:55 +0000
Subject: [PATCH 067/134] fix: ljh2off kept the frame counts but not how many
 subframes a frame has

---
 mass/core/ljh2off.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/core/ljh2off.py b/mass/core/ljh2off.py
index 1c58aed..5732f5a 100644
--- a/mass/core/ljh2off.py
+++ b/mass/core/ljh2off.py
@@ -46,7 +46,8 @@ def off_header_dict_from_ljhfile(ljhfile, projectors, basis, h5_path, off_versio
         "ColumnsNum": ljhfile.column_number,
         "RowNum": ljhfile.row_number,
         "NumberOfColumns": ljhfile.number_of_columns,
-        "NumberOfRows": ljhfile.number_of_rows
+        "NumberOfRows": ljhfile.number_of_rows,
+        "SubframeDivisions": ljhfile.subframe_divisions
     }
     d["CreationInfo"] = {
         "SourceName": "ljh2off.py"
-- 
2.43.0


From 984dca64facb8667ce1ede6e77ba3040eb6fe0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:56 +0000
Subject: [PATCH 068/134] fix: high_median miscounted the weights above its
 range, and could return a value too low

---
 mass/mathstat/robust.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/mathstat/robust.pyx b/mass/mathstat/robust.pyx
index 9ad908b..c9a5578 100644
--- a/mass/mathstat/robust.pyx
+++ b/mass/mathstat/robust.pyx
@@ -355,7 +355,7 @@ def _high_median(long long[:] sort_idx, double[:] weights, int n):
             trial_right_weight += weights[sort_idx[i]]
 
         if left_weight + trial_left_weight > half_weight:  # j < itrial
-            right_weight += trial_right_weight
+            right_weight += trial_right_weight + weights[sort_idx[itrial]]
             imax = itrial
         elif right_weight + trial_right_weight >= half_weight:  # j > itrial
             left_weight += trial_left_weight
-- 
2.43.0


From f6c96a85a34e0fd8dd153e07ca5161b9b61ad4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:52 +0000
Subject: [PATCH 069/134] fix: Qscale failed or was wrong on data with ties,
 failed on integers, and rounded to single precision

---
 mass/mathstat/robust.pyx | 88 ++++++++++++++++------------------------
 1 file changed, 35 insertions(+), 53 deletions(-)

diff --git a/mass/mathstat/robust.pyx b/mass/mathstat/robust.pyx
index c9a5578..9984ca2 100644
--- a/mass/mathstat/robust.pyx
+++ b/mass/mathstat/robust.pyx
@@ -311,7 +311,7 @@ def Qscale(x, sort_inplace=False):
         dist.sort()
         return dist[target_k] * prefactor
 
-    q, npasses = _Qscale_subroutine(x, n, target_k)
+    q, npasses = _Qscale_subroutine(np.asarray(x, dtype=np.float64), n, target_k)
 
     if npasses > n:
         raise RuntimeError("Qscale tried %d distances, which is too many" % npasses)
@@ -375,7 +375,7 @@ def _choose_trial_val(long long[:] left, long long[:] right, double[:] x, int n)
     cdef Py_ssize_t i
     cdef int chosen_row, chosen_col, ctr_index
 
-    cdef float trial_val
+    cdef double trial_val
     cdef double[:] weights
     cdef double[:] row_median
 
@@ -406,87 +406,69 @@ def _choose_trial_val(long long[:] left, long long[:] right, double[:] x, int n)
 
 @cython.embedsignature(True)
 @cython.boundscheck(False)  # turn off bounds-checking for entire function
-def _Qscale_subroutine(double[:] x, unsigned int n, unsigned int target_k):
+def _Qscale_subroutine(double[:] x, unsigned int n, long long target_k):
     cdef unsigned int trial_q_row = 0, trial_q_col = 0
     cdef Py_ssize_t i, counter
     cdef double trial_distance = 0.0
-    cdef long long candidates_below_trial_dist
+    cdef long long candidates_below_trial_dist, candidates_upto_trial_dist
 
     # Keep track of which candidates on each ROW are still in the running.
     # These limits are of length (n-1) because the lowest row has no upper-triangle elements.
     # These mean that element A_ij = xj-xi is in the running if and only if  left(i) <= j <= right(i).
-    cdef long long[:] trial_column
+    cdef long long[:] column_below
+    cdef long long[:] column_upto
     cdef long long[:] left
     cdef long long[:] right
-    cdef double[:] per_row_value
     cdef long ia, ib, imiddle
 
-    trial_column = np.zeros(n-1, dtype=np.int64)
+    column_below = np.zeros(n-1, dtype=np.int64)
+    column_upto = np.zeros(n-1, dtype=np.int64)
     left = np.zeros(n-1, dtype=np.int64)
     right = np.zeros(n-1, dtype=np.int64)
 
     for i in range(n-1):
+        left[i] = i+1
         right[i] = n-1
 
-    per_row_value = np.zeros(n-1, dtype=np.float64)
-
     # In this loop, we close in on the Q that we seek by doing a bisection search of each row,
     # with left and right representing the smallest and largest column #s still in the running.
     for counter in range(n+10):
         trial_distance, trial_q_row, trial_q_col = _choose_trial_val(left, right, x, n)
+
+        # In each row i, find the highest columns with distances x[j]-x[i] strictly less than the
+        # trial distance (column_below) and no more than the trial distance (column_upto).
+        # If such a column is out of the candidate range, then let it be left-1 or right.
+        # Compare only differences x[j]-x[i], as the trial distance is one of them and any rounding is the same.
+        candidates_below_trial_dist = 0
+        candidates_upto_trial_dist = 0
         for i in range(n-1):
-            per_row_value[i] = trial_distance + x[i]
-
-        # In each row i, find the highest index trial_column such that x[tc]-x[i] < trial_distance
-        # If such an index is out of the candidate range, then let it be left-1 or right.
-        # We must be extremely careful in this loop, because rounding errors can make
-        # (trial_distance + x[i]) != x[j] even when trial distance was defined as (x[j]-x[i])
-        # So instead we have the choose_trial_val tell us the (i,j) pair being considered
-        # and test for it.
-
-        # trial_column tracks the column in each row which is the highest column strictly less than
-        # the trial distance.
-        for i in range(per_row_value.shape[0]):
-            trial_val = per_row_value[i]
-
-            # Test for if this is the row containing the trial Q-value.  If so, column is known.
-            # Use this to avoid comparing exact equality of floats on the trial Q's (row,col).
-            if i == trial_q_row:
-                trial_column[i] = trial_q_col-1
-                continue
-
-            ia = left[i]
-            ib = right[i]
-            if ia > ib or x[ia] >= trial_val:
-                trial_column[i] = ia-1
-                continue
-            if x[ib] <= trial_val:
-                trial_column[i] = ib
-                continue
+            ia = left[i] - 1
+            ib = right[i] + 1
             while ib-ia > 1:
                 imiddle = (ib+ia) // 2
-                if x[imiddle] < trial_val:
+                if x[imiddle] - x[i] < trial_distance:
                     ia = imiddle
-                elif x[imiddle] > trial_val:
+                else:
                     ib = imiddle
+            column_below[i] = ia
+            ib = right[i] + 1
+            while ib-ia > 1:
+                imiddle = (ib+ia) // 2
+                if x[imiddle] - x[i] <= trial_distance:
+                    ia = imiddle
                 else:
-                    ia = imiddle - 1
                     ib = imiddle
-                    break
-            trial_column[i] = ia
+            column_upto[i] = ia
+            candidates_below_trial_dist += column_below[i] - i
+            candidates_upto_trial_dist += column_upto[i] - i
 
-        candidates_below_trial_dist = np.sum(trial_column) - ((n-2)*(n-1))/2
-
-        if candidates_below_trial_dist == target_k:
-            return trial_distance, counter
-        elif candidates_below_trial_dist > target_k:
+        if candidates_below_trial_dist > target_k:
             for i in range(n-1):
-                right[i] = trial_column[i]
-                if right[i] >= n:
-                    right[i] = n-1
-        else:
+                right[i] = column_below[i]
+        elif candidates_upto_trial_dist <= target_k:
             for i in range(n-1):
-                left[i] = trial_column[i] + 1
-            left[trial_q_row] += 1
+                left[i] = column_upto[i] + 1
+        else:
+            return trial_distance, counter
 
     return trial_distance, counter
-- 
2.43.0


From 75604dfc43d4bbeb97cc6763848347f33b547cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:04 +0000
Subject: [PATCH 070/134] fix: weighted means never ended when more than half
 the values are equal

---
 mass/mathstat/robust.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mass/mathstat/robust.pyx b/mass/mathstat/robust.pyx
index 9984ca2..4f3e1a0 100644
--- a/mass/mathstat/robust.pyx
+++ b/mass/mathstat/robust.pyx
@@ -54,7 +54,7 @@ def bisquare_weighted_mean(x, k, center=None, tol=None):
 
     The answer is found iteratively, revised until it changes by less than <tol>.  If
     <tol> is None (the default), then <tol> will use 1e-5 times the median absolute
-    deviation of <x> about its median.
+    deviation of <x> about its median (or 1e-5 times <k>, if that is zero).
 
     Data values a distance of more than <k> from the weighted mean are given no weight.
     """
@@ -62,7 +62,7 @@ def bisquare_weighted_mean(x, k, center=None, tol=None):
     if center is None:
         center = np.median(x)
     if tol is None:
-        tol = 1e-5*median_abs_dev(x, normalize=True)
+        tol = 1e-5*(median_abs_dev(x, normalize=True) or k)
 
     for _iteration in range(100):
         weights = (1-((x-center) / k)**2.0)**2.0
@@ -93,7 +93,7 @@ def huber_weighted_mean(x, k, center=None, tol=None):
 
     The answer is found iteratively, revised until it changes by less than <tol>.  If
     <tol> is None (the default), then <tol> will use 1e-5 times the median absolute
-    deviation of <x> about its median.
+    deviation of <x> about its median (or 1e-5 times <k>, if that is zero).
 
     Data values a distance of more than <k> from the weighted mean are given no weight.
     """
@@ -101,7 +101,7 @@ def huber_weighted_mean(x, k, center=None, tol=None):
     if center is None:
         center = np.median(x)
     if tol is None:
-        tol = 1e-5*median_abs_dev(x, normalize=True)
+        tol = 1e-5*(median_abs_dev(x, normalize=True) or k)
 
     for _iteration in range(100):
         weights = np.asarray((1.0*k)/np.abs(x-center))
-- 
2.43.0


From a1ddc08ce788b93062446a3af72f0657ca72f82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:48 +0000
Subject: [PATCH 071/134] fix: the shorth mean left out samples equal to the
 ends of the interval

---
 mass/mathstat/robust.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/mathstat/robust.pyx b/mass/mathstat/robust.pyx
index 4f3e1a0..81f48e6 100644
--- a/mass/mathstat/robust.pyx
+++ b/mass/mathstat/robust.pyx
@@ -207,7 +207,7 @@ def shorth_range(x, normalize=False, sort_inplace=False, location=False):
             shorth_range *= (n+1.0)/(n-1.0)
 
     if location:
-        return shorth_range, x[idxa:idxa+nobs].mean(), 0.5*(a+b)
+        return shorth_range, x[(x >= a) & (x <= b)].mean(), 0.5*(a+b)
     return shorth_range
 
 
-- 
2.43.0


From 1cdb8033dfd887f531e329129db5cd731b4cd900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:24 +0000
Subject: [PATCH 072/134] fix: flux jumps went uncorrected if the baseline
 moved a little the other way

---
 mass/core/analysis_algorithms.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mass/core/analysis_algorithms.pyx b/mass/core/analysis_algorithms.pyx
index 36f1567..ee00206 100644
--- a/mass/core/analysis_algorithms.pyx
+++ b/mass/core/analysis_algorithms.pyx
@@ -810,7 +810,10 @@ def correct_flux_jumps(vals, g, flux_quant):
     # difference between the largest and smallest values for "good" pulses. If
     # you don't exclude "bad" pulses, this check can be tricked in cases where
     # the pretrigger section contains a (sufficiently large) tail.
-    if (np.amax(vals) - np.amin(vals)) >= flux_quant:
+    #
+    # Values on different branches can be less than one quantum apart, if the
+    # baseline also moved in the other direction.
+    if (np.amax(vals) - np.amin(vals)) > 0.75*flux_quant:
         corrected = vals % (flux_quant)
         if (np.amax(corrected[g]) - np.amin(corrected[g])) > 0.75*flux_quant:
             corrected = (vals + flux_quant/4) % (flux_quant)
-- 
2.43.0


From e4bf060bd5498bfe60cda6efd48ad2386db080b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:05 +0000
Subject: [PATCH 073/134] fix: apply_cuts(forceNew=False) said that it skipped
 the cuts, but applied them

---
 mass/core/channel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 32085ee..50c767b 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1651,6 +1651,7 @@ class MicrocalDataSet:  # noqa: PLR0904
             if self.cuts.good().sum() != self.nPulses:
                 LOG.info("Chan %d skipped cuts: after %d are good, %d are bad of %d total pulses",
                          self.channum, self.cuts.good().sum(), self.cuts.bad().sum(), self.nPulses)
+                return
 
         if clear:
             self.clear_cuts()
-- 
2.43.0


From eb0ee3fe59830bd7bf4d29a6b466ce8cef71ccdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:05 +0000
Subject: [PATCH 074/134] fix: a range without limits among several ranges
 failed, or allowed what another did

---
 mass/core/cut.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mass/core/cut.py b/mass/core/cut.py
index c920948..700c841 100644
--- a/mass/core/cut.py
+++ b/mass/core/cut.py
@@ -464,6 +464,8 @@ class Cuts:
                             index = data[:] >= a
                         elif b is not None:
                             index = data[:] <= b
+                        else:
+                            index = slice(None)
                         cut_vec[index] = False
                     except Exception:
                         raise ValueError(
-- 
2.43.0


From cff6b73c54532bda857c31ed309c49e5e3e32ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:05 +0000
Subject: [PATCH 075/134] fix: auto_cuts took its derivative limit from the
 last noise record only

---
 mass/core/channel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 50c767b..dba691a 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2184,10 +2184,11 @@ class MicrocalDataSet:  # noqa: PLR0904
 
         # Step 2: analyze *noise* so we know how to cut on pretrig rms postpeak_deriv
         pretrigger_rms = np.zeros(self.noise_records.nPulses)
+        max_deriv = np.zeros(self.noise_records.nPulses)
         for i in range(self.noise_records.nPulses):
             data = self.noise_records.datafile.alldata[i]
             pretrigger_rms[i] = data[:self.nPresamples].std()
-        max_deriv = mass.analysis_algorithms.compute_max_deriv(data, ignore_leading=0)
+            max_deriv[i] = mass.analysis_algorithms.compute_max_deriv(data, ignore_leading=0)[0]
 
         # Multiply MAD by 1.4826 to get into terms of sigma, if distribution were Gaussian.
         md_med = np.median(max_deriv)
-- 
2.43.0


From cc2b1f2a0b50b4e5b62ecf19b8dd12e162c91d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:05 +0000
Subject: [PATCH 076/134] fix: the subframe period was unknown after reopening,
 so cuts on subframe differences failed

---
 mass/core/channel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index dba691a..e5dc21a 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -623,6 +623,8 @@ class MicrocalDataSet:  # noqa: PLR0904
 
         for a in self.expected_attributes:
             setattr(self, a, pulserec_dict[a])
+        if self.subframe_divisions:
+            self.subframe_timebase = self.timebase / float(self.subframe_divisions)
         self.filename = pulserec_dict.get('filename', 'virtual data set')
         self.pretrigger_ignore_samples = 0  # Cut this long before trigger in computing pretrig values
         self.cut_pre = 0  # Number of presamples to ignore at start of pulse
-- 
2.43.0


From 5de64127b21b6b9bcebe420e01c6aee73a25c60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:05 +0000
Subject: [PATCH 077/134] fix: auto cuts that were cleared were taken for done
 after reopening

---
 mass/core/channel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index e5dc21a..8d147eb 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1695,6 +1695,7 @@ class MicrocalDataSet:  # noqa: PLR0904
         """Clear all cuts."""
         self.cuts.clear_cut()
         self.saved_auto_cuts = None
+        self.hdf5_group["cuts"].pop("auto_cuts", None)
 
     def correct_flux_jumps(self, flux_quant):
         '''Remove 'flux' jumps' from pretrigger mean.
-- 
2.43.0


From cd3a5b25113960db142b9d7f7fd75823de886594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:05 +0000
Subject: [PATCH 078/134] fix: auto cuts loaded on reopening lacked their lower
 limits and the noise level

---
 mass/core/channel.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 8d147eb..9621f1c 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2230,6 +2230,8 @@ class MicrocalDataSet:  # noqa: PLR0904
         for attrname in ("peak_time_ms", "rise_time_ms", "pretrigger_rms",
                          "postpeak_deriv"):
             g.attrs[attrname] = cuts.cuts_prm[attrname][1]
+        g.attrs["pretrig_rms_median"] = cuts._pretrig_rms_median
+        g.attrs["pretrig_rms_sigma"] = cuts._pretrig_rms_sigma
 
     def __load_auto_cuts(self):
         """Load the results of auto-cuts, if any, from HDF5."""
@@ -2241,7 +2243,11 @@ class MicrocalDataSet:  # noqa: PLR0904
         cuts = mass.AnalysisControl()
         for attrname in ("peak_time_ms", "rise_time_ms", "pretrigger_rms",
                          "postpeak_deriv"):
-            cuts.cuts_prm[attrname] = (None, g.attrs[attrname])
+            lower = 0 if attrname.endswith("_time_ms") else None
+            cuts.cuts_prm[attrname] = (lower, g.attrs[attrname])
+        if "pretrig_rms_median" in g.attrs:
+            cuts._pretrig_rms_median = g.attrs["pretrig_rms_median"]
+            cuts._pretrig_rms_sigma = g.attrs["pretrig_rms_sigma"]
         self.saved_auto_cuts = cuts
 
     @_add_group_loop()
-- 
2.43.0


From 93c1195c0b1cfc6b2954c6a1972b78acc014ff6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:46 +0000
Subject: [PATCH 079/134] fix: summarizing segments of more than 65535 records
 failed

The compiled function counted records and samples in 16-bit integers.
---
 mass/core/cython_channel.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/core/cython_channel.pyx b/mass/core/cython_channel.pyx
index a07f273..96c6bf0 100644
--- a/mass/core/cython_channel.pyx
+++ b/mass/core/cython_channel.pyx
@@ -46,8 +46,8 @@ def summarize_data_cython(
         double ptm
         unsigned short peak_value, peak_index, min_value
         unsigned short signal
-        unsigned short nPulses, nSamples, seg_size
-        unsigned short e_nPresamples, s_prompt, e_prompt
+        Py_ssize_t nPulses, nSamples, seg_size
+        Py_ssize_t e_nPresamples, s_prompt, e_prompt
 
         unsigned short low_th, high_th
         unsigned short high_value
-- 
2.43.0


From 098f4e5bb77ad0fd6e0b94162738aa0f092de9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:46 +0000
Subject: [PATCH 080/134] fix: a record barely above its baseline stopped the
 summary of its channel

The pretrigger mean, rounded up, can equal the highest value of the record. Then
the promptness was a division by zero.
---
 mass/core/cython_channel.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mass/core/cython_channel.pyx b/mass/core/cython_channel.pyx
index 96c6bf0..43e5868 100644
--- a/mass/core/cython_channel.pyx
+++ b/mass/core/cython_channel.pyx
@@ -143,7 +143,11 @@ def summarize_data_cython(
         p_pretrig_rms_array[j] = <float>ptrms
         if ptm < peak_value:
             peak_value -= <unsigned short>(ptm+0.5)
-            p_promptness_array[j] = <float>((promptness_sum / 6.0 - ptm) / peak_value)
+            # The mean, rounded up, can equal the highest value. Avoid dividing by zero.
+            if peak_value > 0:
+                p_promptness_array[j] = <float>((promptness_sum / 6.0 - ptm) / peak_value)
+            else:
+                p_promptness_array[j] = <float>0.0
             p_peak_value_array[j] = <unsigned short>peak_value
             p_peak_index_array[j] = <unsigned short>peak_index
         else:
-- 
2.43.0


From 28cba248ac2592f7d4c5a3dd096cd23c2d59eff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:46 +0000
Subject: [PATCH 081/134] fix: summaries ignored the request to cut samples off
 the ends of the records

The default (compiled) implementation used all samples whatever cut_pre and cut_post.
---
 mass/core/channel.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 9621f1c..ad7170b 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -957,8 +957,9 @@ class MicrocalDataSet:  # noqa: PLR0904
                 first = segnum * self.pulse_records.pulses_per_seg
                 end = min(first + self.pulse_records.pulses_per_seg, self.nPulses)
                 idx_slice = slice(first, end)
-                results = sumdata(self.data[idx_slice], self.timebase, self.peak_samplenumber,
-                                  self.pretrigger_ignore_samples, self.nPresamples,
+                results = sumdata(self.data[idx_slice, self.cut_pre:self.nSamples - self.cut_post],
+                                  self.timebase, self.peak_samplenumber - self.cut_pre,
+                                  self.pretrigger_ignore_samples, self.nPresamples - self.cut_pre,
                                   0, end - first)
                 self.p_pretrig_mean[idx_slice] = results["pretrig_mean"][:]
                 self.p_pretrig_rms[idx_slice] = results["pretrig_rms"][:]
@@ -966,7 +967,7 @@ class MicrocalDataSet:  # noqa: PLR0904
                 self.p_pulse_rms[idx_slice] = results["pulse_rms"][:]
                 self.p_promptness[idx_slice] = results["promptness"][:]
                 self.p_postpeak_deriv[idx_slice] = results["postpeak_deriv"][:]
-                self.p_peak_index[idx_slice] = results["peak_index"][:]
+                self.p_peak_index[idx_slice] = np.asarray(results["peak_index"]) + self.cut_pre
                 self.p_peak_value[idx_slice] = results["peak_value"][:]
                 self.p_min_value[idx_slice] = results["min_value"][:]
                 self.p_rise_time[idx_slice] = results["rise_times"][:]
-- 
2.43.0


From 1527d2e2c7d4aea60101416124b523c3d5f3b72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:08 +0000
Subject: [PATCH 082/134] fix: pure-Python summaries gave huge peak values to
 records below their baseline

The difference wrapped around at 65536. Also round the mean as the compiled
implementation does.
---
 mass/core/channel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index ad7170b..aa2b72b 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1016,14 +1016,15 @@ class MicrocalDataSet:  # noqa: PLR0904
         self.p_pretrig_mean[idx_slice] = pretrig_data.mean(axis=1)
         self.p_pretrig_rms[idx_slice] = pretrig_data.std(axis=1)
         self.p_peak_index[idx_slice] = posttrig_data.argmax(axis=1) + self.nPresamples
-        self.p_peak_value[idx_slice] = posttrig_data.max(axis=1)
         self.p_min_value[idx_slice] = all_data.min(axis=1)
         self.p_pulse_average[idx_slice] = posttrig_data.mean(axis=1)
 
         # Remove the pretrigger mean from the peak value and the pulse average figures.
         ptm = self.p_pretrig_mean[idx_slice]
         self.p_pulse_average[idx_slice] -= ptm
-        self.p_peak_value[idx_slice] -= np.asarray(ptm, dtype=self.p_peak_value.dtype)
+        # The peak values are unsigned: zero for a record that never exceeds its pretrigger mean.
+        above_mean = posttrig_data.max(axis=1) - np.floor(ptm + 0.5)
+        self.p_peak_value[idx_slice] = np.maximum(above_mean, 0)
         self.p_pulse_rms[idx_slice] = np.sqrt(
             (posttrig_data**2.0).mean(axis=1)
             - ptm * (ptm + 2 * self.p_pulse_average[idx_slice]))
-- 
2.43.0


From 798baae6d55b9cbc14d8508f05621f9ec41e2c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:08 +0000
Subject: [PATCH 083/134] fix: rise times and slopes of a single record changed
 the shape of the caller's array

---
 mass/core/analysis_algorithms.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mass/core/analysis_algorithms.pyx b/mass/core/analysis_algorithms.pyx
index ee00206..8e9afe8 100644
--- a/mass/core/analysis_algorithms.pyx
+++ b/mass/core/analysis_algorithms.pyx
@@ -58,7 +58,7 @@ def estimateRiseTime(pulse_data, timebase, nPretrig):
     if ndim > 2 or ndim < 1:
         raise ValueError("input pulse_data should be a 1d or 2d array.")
     if ndim == 1:
-        pulse_data.shape = (1, pulse_data.shape[0])
+        pulse_data = pulse_data.reshape((1, pulse_data.shape[0]))
 
     # The following requires a lot of numpy foo to read. Sorry!
     if nPretrig >= 4:
@@ -102,7 +102,7 @@ def python_compute_max_deriv(pulse_data, ignore_leading, spike_reject=True, kern
     if ndim > 2 or ndim < 1:
         raise ValueError("input pulse_data should be a 1d or 2d array.")
     if ndim == 1:
-        pulse_data.shape = (1, pulse_data.shape[0])
+        pulse_data = pulse_data.reshape((1, pulse_data.shape[0]))
     pulse_data = np.array(pulse_data[:, ignore_leading:], dtype=float)
     NPulse, NSamp = pulse_data.shape
 
@@ -171,7 +171,7 @@ def compute_max_deriv(pulse_data, ignore_leading, spike_reject=True, kernel=None
     if ndim > 2 or ndim < 1:
         raise ValueError("input pulse_data should be a 1d or 2d array.")
     if ndim == 1:
-        pulse_data.shape = (1, pulse_data.shape[0])
+        pulse_data = pulse_data.reshape((1, pulse_data.shape[0]))
     pulse_view = pulse_data[:, ignore_leading:]
     NPulse = pulse_view.shape[0]
     NSamp = pulse_view.shape[1]
-- 
2.43.0


From 5fc53ec4f018e6976d4f9438cd78415a5f43d7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:08 +0000
Subject: [PATCH 084/134] fix: the estimated rise time of a record depended on
 where other records peak

---
 mass/core/analysis_algorithms.pyx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mass/core/analysis_algorithms.pyx b/mass/core/analysis_algorithms.pyx
index 8e9afe8..a96e494 100644
--- a/mass/core/analysis_algorithms.pyx
+++ b/mass/core/analysis_algorithms.pyx
@@ -67,11 +67,10 @@ def estimateRiseTime(pulse_data, timebase, nPretrig):
         baseline_value = pulse_data.min(axis=1)
         nPretrig = 0
     value_at_peak = pulse_data.max(axis=1) - baseline_value
-    idx_last_pk = pulse_data.argmax(axis=1).max()
 
     npulses = pulse_data.shape[0]
     try:
-        rising_data = ((pulse_data[:, nPretrig:idx_last_pk+1] - baseline_value[:, np.newaxis]) /
+        rising_data = ((pulse_data[:, nPretrig:] - baseline_value[:, np.newaxis]) /
                        value_at_peak[:, np.newaxis])
         # Find the last and first indices at which the data are in (0.1, 0.9] times the
         # peak value. Then make sure last is at least 1 past first.
-- 
2.43.0


From 80f097259dd7c7ea84afd3bdf157bb214c016f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:52 +0000
Subject: [PATCH 085/134] fix: the pure-Python pulse RMS was wrong, or not a
 number, on a high baseline

The difference of mean squares was taken in single precision.
---
 mass/core/channel.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index aa2b72b..083b97d 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1013,21 +1013,22 @@ class MicrocalDataSet:  # noqa: PLR0904
             self.p_pretrig_deriv[idx_slice] = 0.0
             self.p_pretrig_offset[idx_slice] = 0.0
 
-        self.p_pretrig_mean[idx_slice] = pretrig_data.mean(axis=1)
+        # Keep double precision here: the mean squares lose too much in single precision.
+        ptm = pretrig_data.mean(axis=1)
+        pulse_average = posttrig_data.mean(axis=1) - ptm
+        self.p_pretrig_mean[idx_slice] = ptm
         self.p_pretrig_rms[idx_slice] = pretrig_data.std(axis=1)
         self.p_peak_index[idx_slice] = posttrig_data.argmax(axis=1) + self.nPresamples
         self.p_min_value[idx_slice] = all_data.min(axis=1)
-        self.p_pulse_average[idx_slice] = posttrig_data.mean(axis=1)
 
         # Remove the pretrigger mean from the peak value and the pulse average figures.
-        ptm = self.p_pretrig_mean[idx_slice]
-        self.p_pulse_average[idx_slice] -= ptm
+        self.p_pulse_average[idx_slice] = pulse_average
         # The peak values are unsigned: zero for a record that never exceeds its pretrigger mean.
         above_mean = posttrig_data.max(axis=1) - np.floor(ptm + 0.5)
         self.p_peak_value[idx_slice] = np.maximum(above_mean, 0)
         self.p_pulse_rms[idx_slice] = np.sqrt(
             (posttrig_data**2.0).mean(axis=1)
-            - ptm * (ptm + 2 * self.p_pulse_average[idx_slice]))
+            - ptm * (ptm + 2 * pulse_average))
 
         shift1 = (self.data[idx_slice, self.nPresamples - 1] - ptm
                   > 4.3 * self.p_pretrig_rms[idx_slice])
-- 
2.43.0


From f868131d6b11cf7fcc83f44f69f2b4b93d68d917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:12 +0000
Subject: [PATCH 086/134] fix: the settings of the pulse summary were forgotten
 on reopening

The usual peak time, if given, the presamples ignored and the samples cut off at
either end: later steps (automatic cuts, filters) then used other values.
---
 mass/core/channel.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 083b97d..4a1dd3d 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -731,6 +731,9 @@ class MicrocalDataSet:  # noqa: PLR0904
 
         if "peak_samplenumber" in self.p_peak_index.attrs:
             self.peak_samplenumber = self.p_peak_index.attrs["peak_samplenumber"]
+        for name in ("pretrigger_ignore_samples", "cut_pre", "cut_post"):
+            if name in self.p_peak_index.attrs:
+                setattr(self, name, int(self.p_peak_index.attrs[name]))
 
         # Other vectors needed per-channel
         self.average_pulse = h5grp.require_dataset(
@@ -946,9 +949,14 @@ class MicrocalDataSet:  # noqa: PLR0904
         self.cut_pre = cut_pre
         self.cut_post = cut_post
 
+        # Store the settings with the results, for use after reopening
+        if self.peak_samplenumber is None:
+            self._compute_peak_samplenumber()
+        self.p_peak_index.attrs["peak_samplenumber"] = self.peak_samplenumber
+        for name in ("pretrigger_ignore_samples", "cut_pre", "cut_post"):
+            self.p_peak_index.attrs[name] = getattr(self, name)
+
         if use_cython:
-            if self.peak_samplenumber is None:
-                self._compute_peak_samplenumber()
             self.p_timestamp[:] = self.times[:]
             self.p_subframecount[:] = self.subframecount[:]
 
-- 
2.43.0


From d7c9cf3d865fd7ac92fc0cab267b542ddcdb4c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:42 +0000
Subject: [PATCH 087/134] fix: filtering transformed data failed, or used the
 wrong records, in files of several segments

---
 mass/core/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 4a1dd3d..df26d1f 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1461,7 +1461,7 @@ class MicrocalDataSet:  # noqa: PLR0904
         data = self.data[first:end]
         if transform is not None:
             ptmean = self.p_pretrig_mean[first:end]
-            data = transform(self.data - ptmean.reshape((seg_size, 1)))
+            data = transform(data - ptmean.reshape((seg_size, 1)))
         conv0 = np.dot(data[:, 1:], filter_values)
         conv1 = np.dot(data[:, 1:], filter_AT)
 
-- 
2.43.0


From 8b27e1388bbc628a802689975c10430ed1f1d548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:42 +0000
Subject: [PATCH 088/134] fix: the drift correction was forgotten on reopening

---
 mass/core/channel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index df26d1f..a93254c 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -815,7 +815,9 @@ class MicrocalDataSet:  # noqa: PLR0904
             self.calibration[k] = EnergyCalibration.load_from_hdf5(hdf5_cal_group, k)
 
     def __load_corrections(self):
-        # drift correction should be loaded here, but I don't think it is loaded at all, here or anywhere!
+        drift_attrs = self.p_filt_value_dc.attrs
+        self.drift_correct_info = {k: drift_attrs[k] for k in ("type", "slope", "median_pretrig_mean")
+                                   if k in drift_attrs}
         if "phase_correction" in self.hdf5_group:
             self.phaseCorrector = phase_correct.PhaseCorrector.fromHDF5(
                 self.hdf5_group, name="phase_correction")
-- 
2.43.0


From 20d705461c3168180c22ec74b6bc27ffb8d2001a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:42 +0000
Subject: [PATCH 089/134] fix: time drift correction ignored the requested
 number of degrees

---
 mass/core/channel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index a93254c..cdb615c 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2096,7 +2096,8 @@ class MicrocalDataSet:  # noqa: PLR0904
             g = np.logical_and(g, np.abs(attr[:] / pk - 1) < 0.5)
             w = max(pk / 3000., 1.0)
             info = time_drift_correct(self.p_timestamp[g], attr[g], w,
-                                      limit=[0.5 * pk, 2 * pk])
+                                      sec_per_degree=sec_per_degree, pulses_per_degree=pulses_per_degree,
+                                      max_degrees=max_degrees, limit=[0.5 * pk, 2 * pk])
             tnorm = info["normalize"](self.p_timestamp[:])
             corrected = attr[:] * (1 + info["model"](tnorm))
             self.p_filt_value_tdc[:] = corrected
-- 
2.43.0


From fd33ed3c14a3278ad1d6be3406b775acdf3d5926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:42 +0000
Subject: [PATCH 090/134] fix: a phase correction recorded the wrong name of
 the quantity it corrects

---
 mass/core/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index cdb615c..f324c7f 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1829,7 +1829,7 @@ class MicrocalDataSet:  # noqa: PLR0904
         self.phaseCorrector = phase_correct.phase_correct(self.p_filt_phase[good],
                                                           getattr(self, attr)[good],
                                                           ph_peaks=ph_peaks, method2017=method2017, kernel_width=kernel_width,
-                                                          indicatorName="p_filt_phase", uncorrectedName="p_filt_value_dc")
+                                                          indicatorName="p_filt_phase", uncorrectedName=attr)
 
         self.p_filt_phase_corr[:] = self.phaseCorrector.phase_uniformifier(self.p_filt_phase[:])
         self.p_filt_value_phc[:] = self.phaseCorrector(self.p_filt_phase[:], getattr(self, attr)[:])
-- 
2.43.0


From 5033ba39b0923d34e2f8e364bfc297c28acfaa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:42 +0000
Subject: [PATCH 091/134] fix: filtering with a 5-lag filter ignored the
 transform of the data

---
 mass/core/channel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index f324c7f..ae4547d 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1325,7 +1325,7 @@ class MicrocalDataSet:  # noqa: PLR0904
             return
 
         if use_cython is None:
-            use_cython = self._filter_type == "5lag"
+            use_cython = self._filter_type == "5lag" and transform is None
 
         if self.filter is not None:
             filter_values = self.filter.values
@@ -1335,6 +1335,8 @@ class MicrocalDataSet:  # noqa: PLR0904
         if use_cython:
             if self._filter_type == "ats":
                 raise ValueError("Cannot perform Arrival-Time-Safe filtering in Cython yet")
+            if transform is not None:
+                raise ValueError("Cannot transform data before filtering in Cython")
             fdata = mass.core.analysis_algorithms.filter_data_5lag_cython
             fv, fp = fdata(self.alldata, filter_values)
             self.p_filt_value[:] = fv[:]
-- 
2.43.0


From 1c7e3f7767c553cbc2bb6bec003c41f1022c21a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:42 +0000
Subject: [PATCH 092/134] fix: a stored filter was replaced on reopening by one
 computed from later results, or was incomplete

---
 mass/core/channel.py | 48 ++++++++++++++++++--------------------------
 1 file changed, 19 insertions(+), 29 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index ae4547d..a6c4c88 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -779,26 +779,19 @@ class MicrocalDataSet:  # noqa: PLR0904
                                     sample_time_sec=self.timebase, peak=modelpeak)
                 self.filter = maker.compute_ats(fmax=fmax, f_3db=f_3db)
         if version == 2:
-            if filter_type == "ats":
-                values = filter_group["values"][:]
-                dt_values = filter_group["dt_values"][:]
-                variance = filter_group["values"].attrs.get("variance", 0.0)
-                vdv = filter_group["values"].attrs.get("predicted_v_over_dv", 0.0)
-                peak = filter_group["values"].attrs.get("nominal_peak", 0.0)
-                self.filter = mass.Filter(values, peak, variance, vdv, dt_values, None, None, None,
-                                          1, fmax=fmax, f_3db=f_3db, _filter_type="ats")
-
-            else:
-                modelpeak = np.max(self.average_pulse)
-                maker = FilterMaker(self.average_pulse[:], self.nPresamples - self.pretrigger_ignore_samples,
-                                    self.noise_autocorr, self.noise_psd,
-                                    sample_time_sec=self.timebase, peak=modelpeak)
-                if filter_type == "5lag":
-                    self.filter = maker.compute_5lag(fmax=fmax, f_3db=f_3db)
-                elif filter_type == "fourier":
-                    self.filter = maker.compute_fourier(fmax=fmax, f_3db=f_3db)
-                else:
-                    raise Exception(f"filter_type={filter_type}, must be `ats`, `5lag`, or `fourier`")
+            if filter_type not in {"ats", "5lag", "fourier"}:
+                raise Exception(f"filter_type={filter_type}, must be `ats`, `5lag`, or `fourier`")
+            # Load the filter as it was stored: whatever it was computed from may have changed since.
+            attrs = filter_group["values"].attrs
+            arrays = {name: filter_group[name][:] if name in filter_group else None
+                      for name in ("values", "dt_values", "const_values", "signal_model", "dt_model")}
+            self.filter = mass.Filter(nominal_peak=attrs.get("nominal_peak", 0.0),
+                                      variance=attrs.get("variance", 0.0),
+                                      predicted_v_over_dv=attrs.get("predicted_v_over_dv", 0.0),
+                                      convolution_lags=int(attrs.get("convolution_lags", 1 if filter_type == "ats" else 5)),
+                                      fmax=fmax, f_3db=f_3db,
+                                      cut_pre=int(attrs.get("cut_pre", 0)), cut_post=int(attrs.get("cut_post", 0)),
+                                      _filter_type=filter_type, **arrays)
 
         self._filter_type = filter_type
 
@@ -1146,15 +1139,12 @@ class MicrocalDataSet:  # noqa: PLR0904
             h5grp.attrs['fmax'] = self.filter.fmax
         h5grp.attrs['filter_type'] = self.filter._filter_type
         h5grp.attrs["version"] = 2
-        for name in ("values", "dt_values"):
-            if name in h5grp:
-                del h5grp[name]
-        vec = h5grp.create_dataset("values", data=self.filter.values)
-        vec.attrs["nominal_peak"] = self.filter.nominal_peak
-        vec.attrs["variance"] = self.filter.variance
-        vec.attrs["predicted_v_over_dv"] = self.filter.predicted_v_over_dv
-        if self.filter._filter_type == "ats":
-            h5grp.create_dataset("dt_values", data=self.filter.dt_values)
+        for name in ("values", "dt_values", "const_values", "signal_model", "dt_model"):
+            vector = getattr(self.filter, name)
+            if vector is not None:
+                h5grp.create_dataset(name, data=vector)
+        for name in ("nominal_peak", "variance", "predicted_v_over_dv", "convolution_lags", "cut_pre", "cut_post"):
+            h5grp["values"].attrs[name] = getattr(self.filter, name)
 
     @property
     def shortname(self):
-- 
2.43.0


From 36fc385f2757cb3d9a97372ea36f714f4210cfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:42 +0000
Subject: [PATCH 093/134] fix: a phase correction stored over one with more
 corrections kept the extra ones

---
 mass/core/phase_correct.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mass/core/phase_correct.py b/mass/core/phase_correct.py
index c6e3f40..735bac2 100644
--- a/mass/core/phase_correct.py
+++ b/mass/core/phase_correct.py
@@ -40,6 +40,11 @@ class PhaseCorrector:
         for (i, correction) in enumerate(self.corrections):
             h5group_update(f"correction_{i}_x", correction._x)
             h5group_update(f"correction_{i}_y", correction._y)
+        # Remove what remains of an earlier object that had more corrections
+        i = len(self.corrections)
+        while f"correction_{i}_x" in group:
+            del group[f"correction_{i}_x"], group[f"correction_{i}_y"]
+            i += 1
 
     def correct(self, phase, ph):
         # attempt to force phases to fall between X and X
-- 
2.43.0


From e2adae8ab95a5c5e48ec3c35af1d57f3699a1325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:42 +0000
Subject: [PATCH 094/134] fix: the entropy of values separated by more than 745
 kernel widths failed

---
 mass/mathstat/entropy.pyx | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mass/mathstat/entropy.pyx b/mass/mathstat/entropy.pyx
index d776d96..165a021 100644
--- a/mass/mathstat/entropy.pyx
+++ b/mass/mathstat/entropy.pyx
@@ -90,14 +90,15 @@ cdef double laplace_entropy_array(np.ndarray[DTYPE_t, ndim=1] x, double w=1.0):
     for i in range(N-2, -1, -1):
         d[i] = e[i]*d[i+1] + stepsize
 
-    cdef double H, dp, r, r1, e2, A, B
+    cdef double H, dp, r1, e2, A, B
     H = w*d[0]*(1-log(d[0])) + w*c[N-1]*(1-log(c[N-1]))
     for i in range(N-1):
         dp = d[i+1]*e[i]
-        r = sqrt(c[i]/dp)
-        r1 = c[i]/d[i+1]
-        e2 = sqrt(e[i])
-        H += 4*w*sqrt(c[i]*dp)*atan((e2-1.0/e2)*r1**0.5/(r1+1.0))
+        # If neighbors are so far apart that e[i] underflows to zero, this term vanishes.
+        if e[i] > 0.0:
+            r1 = c[i]/d[i+1]
+            e2 = sqrt(e[i])
+            H += 4*w*sqrt(c[i]*dp)*atan((e2-1.0/e2)*r1**0.5/(r1+1.0))
         H += w*(dp-c[i])*(log(c[i]+dp)-1)
         A, B = d[i+1], c[i]*e[i]
         H -= w*(A-B)*(log(A+B)-1)
-- 
2.43.0


From fc4eca86cac6e2ee869359a33d0ba26a7bb9e38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:55 +0000
Subject: [PATCH 095/134] fix: a value that is not a number passed cuts that
 require it to lie within limits

---
 mass/core/cut.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mass/core/cut.py b/mass/core/cut.py
index 700c841..82254e0 100644
--- a/mass/core/cut.py
+++ b/mass/core/cut.py
@@ -480,12 +480,12 @@ class Cuts:
             try:
                 a, b = allowed
                 if a and b:
-                    self.cut(cut_id, (data[:] <= a) | (data[:] >= b))
+                    self.cut(cut_id, ~((data[:] > a) & (data[:] < b)))
                 else:
                     if a is not None:
-                        self.cut(cut_id, data[:] <= a)
+                        self.cut(cut_id, ~(data[:] > a))
                     if b is not None:
-                        self.cut(cut_id, data[:] >= b)
+                        self.cut(cut_id, ~(data[:] < b))
             except ValueError:
                 raise ValueError(f'{str(allowed)} was passed as a cut element, but only two-element sequences are valid.')
 
-- 
2.43.0


From 356a3920b8001baf54148651d6aabf21dc45c15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:19 +0000
Subject: [PATCH 096/134] fix: flag_crosstalking_pulses always failed, and took
 only the last category's neighbours for existing channels

---
 mass/core/channel.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index a6c4c88..51b3595 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2360,13 +2360,13 @@ class MicrocalDataSet:  # noqa: PLR0904
                     # Loop through nearest neighbor categories
                     for neighborCategory in self.hdf5_group[nn_channel_key]:
                         subgroupName = nn_channel_key + '/' + neighborCategory
-                        subgroupNeighbors = self.hdf5_group[subgroupName + '/neighbors_list'].value
+                        subgroupNeighbors = self.hdf5_group[subgroupName + '/neighbors_list'][:]
                         # Remove duplicates, sort
                         selectNeighbors = subgroupNeighbors[:, 0][np.isin(
                             subgroupNeighbors[:, 2], nearestNeighborsDistances)]
                         combinedNearestNeighbors = np.unique(
                             np.append(combinedNearestNeighbors, selectNeighbors).astype(int))
-                    if np.sum(np.isin(self.tes_group.channel.keys(), selectNeighbors)) > 0:
+                    if np.any(np.isin(list(self.tes_group.channel), combinedNearestNeighbors)):
                         h5grp[crosstalk_key][:] = crosstalk_flagging_loop(combinedNearestNeighbors)
                     else:
                         msg = f"Channel {self.channum} skipping crosstalk cuts: no nearest neighbors matching criteria"
@@ -2376,10 +2376,10 @@ class MicrocalDataSet:  # noqa: PLR0904
                     for neighborCategory in self.hdf5_group[nn_channel_key]:
                         categoryField = str(crosstalk_key + '_' + neighborCategory)
                         subgroupName = nn_channel_key + '/' + neighborCategory
-                        subgroupNeighbors = self.hdf5_group[subgroupName + '/neighbors_list'].value
+                        subgroupNeighbors = self.hdf5_group[subgroupName + '/neighbors_list'][:]
                         selectNeighbors = subgroupNeighbors[:, 0][np.isin(
                             subgroupNeighbors[:, 2], nearestNeighborsDistances)]
-                        if np.sum(np.isin(self.tes_group.channel.keys(), selectNeighbors)) > 0:
+                        if np.any(np.isin(list(self.tes_group.channel), selectNeighbors)):
                             LOG.info(f'Checking crosstalk between channel {self.channum} and {neighborCategory} neighbors...')
                             h5grp[categoryField][:] = crosstalk_flagging_loop(selectNeighbors)
                             h5grp[crosstalk_key][:] = np.logical_or(
-- 
2.43.0


From 5475c52ae765157057d1482f2d04255a3d9809df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:19 +0000
Subject: [PATCH 097/134] fix: crosstalk was flagged for the wrong pulses if
 the veto times of two pulses overlap

---
 mass/core/channel.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 51b3595..d524222 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2313,12 +2313,12 @@ class MicrocalDataSet:  # noqa: PLR0904
                 # Combine the pulses from all neighboring channels into a single array
                 compareChannelsPulsesList = np.append(compareChannelsPulsesList,
                                                       dsToCompare.p_subframecount[:] * dsToCompare.subframe_timebase)
-            # Create a histogram of the neighboring channel pulses using the bin edges from the channel you are flagging
-            hist, _bin_edges = np.histogram(compareChannelsPulsesList, bins=combinedEdges)
-            # Even corresponds to bins with a photon in channel 1 (crosstalk), odd are empty bins (no crosstalk)
-            badCountsHist = hist[::2]
-            # Even only histogram indices map directly to previously good flagged pulse indices for victim channel
-            crosstalking_pulses = badCountsHist > 0.0
+            # A pulse is crosstalking if any of the neighboring channels' pulses is between its start and stop edges.
+            # (The edges of different pulses can overlap.)
+            compareChannelsPulsesList.sort()
+            nBeforeStart = np.searchsorted(compareChannelsPulsesList, startEdges)
+            nBeforeStop = np.searchsorted(compareChannelsPulsesList, stopEdges)
+            crosstalking_pulses = nBeforeStop > nBeforeStart
             return crosstalking_pulses
 
         # Check to see if nearest neighbors list has already been set, otherwise skip
@@ -2345,13 +2345,11 @@ class MicrocalDataSet:  # noqa: PLR0904
                 priorTime /= 1000.0
                 postTime /= 1000.0
 
-                # Create uneven histogram edges, with a specified amount of time before and after a photon event
                 pulseTimes = self.p_subframecount[:] * self.subframe_timebase
 
                 # Create start and stop edges around pulses corresponding to veto times
                 startEdges = pulseTimes - priorTime
                 stopEdges = pulseTimes + postTime
-                combinedEdges = np.sort(np.append(startEdges, stopEdges))
 
                 if combineCategories:
                     LOG.info('Checking crosstalk between channel %d and combined neighbors...', self.channum)
-- 
2.43.0


From df70e67f07c773a5b55eafac17a3bc65cb2ef72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:19 +0000
Subject: [PATCH 098/134] fix: recomputed crosstalk flags kept old ones, and
 flags per category were skipped after combined ones

---
 mass/core/channel.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index d524222..10afcc8 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2328,6 +2328,12 @@ class MicrocalDataSet:  # noqa: PLR0904
             # Set up combined crosstalk flag array in hdf5 file
             h5grp = self.hdf5_group.require_group('crosstalk_flags')
 
+            # Flags of a kind that was not computed before have to be computed
+            crosstalk_fields = [crosstalk_key]
+            if not combineCategories:
+                crosstalk_fields += [f'{crosstalk_key}_{category}' for category in self.hdf5_group[nn_channel_key]]
+            done = all(field in h5grp for field in crosstalk_fields) and np.any(h5grp[crosstalk_key][:])
+
             crosstalk_array_dtype = bool
             self.__dict__[f'p_{crosstalk_key}'] = h5grp.require_dataset(
                 crosstalk_key, shape=(self.nPulses,), dtype=crosstalk_array_dtype)
@@ -2339,7 +2345,10 @@ class MicrocalDataSet:  # noqa: PLR0904
                         categoryField, shape=(self.nPulses,), dtype=crosstalk_array_dtype)
 
             # Check to see if crosstalk list has already been written and skip, unless forceNew
-            if (not np.any(h5grp[crosstalk_key][:]) or forceNew):
+            if not done or forceNew:
+                # Start afresh: no flags are left from an earlier computation
+                for field in crosstalk_fields:
+                    h5grp[field][:] = False
 
                 # Convert from ms input to s used in rest of MASS
                 priorTime /= 1000.0
-- 
2.43.0


From bb61f10daa5ca37beb081adb1d64bf3610b5267c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:44 +0000
Subject: [PATCH 099/134] fix: nearest neighbours could not be set anew (nor
 skipped) with a map of another size

---
 mass/core/channel.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 10afcc8..935bc48 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2491,21 +2491,24 @@ class MicrocalDataSet:  # noqa: PLR0904
 
         # Set up hdf5 group and repopulate arrays, if already calculated earlier
         h5grp = self.hdf5_group.require_group('nearest_neighbors')
-        h5grp.require_group(nearestNeighborCategory)
+        hnnc = h5grp.require_group(nearestNeighborCategory)
 
-        # Victim channel position dataset
-        self.__dict__[f'position_{nearestNeighborCategory}'] = \
-            h5grp[nearestNeighborCategory].require_dataset(
-                'position', shape=(nDims,), dtype=np.int64)
+        # Check to see if if data set already exists or if forceNew is set to True
+        needsNew = forceNew or 'neighbors_list' not in hnnc or not np.any(hnnc['neighbors_list'][:])
+        if needsNew:
+            # The new map can have another number of channels or dimensions
+            for name in ('position', 'neighbors_list'):
+                if name in hnnc:
+                    del hnnc[name]
+            hnnc.create_dataset('position', shape=(nDims,), dtype=np.int64)
+            hnnc.create_dataset('neighbors_list', shape=((len(channelNumbers), 3)), dtype=np.int64)
 
+        # Victim channel position dataset
+        self.__dict__[f'position_{nearestNeighborCategory}'] = hnnc['position']
         # Perpetrator channels dataset
-        hnnc = h5grp[nearestNeighborCategory]
-        self.__dict__[f'neighbors_list_{nearestNeighborCategory}'] = \
-            hnnc.require_dataset('neighbors_list', shape=((len(channelNumbers), 3)),
-                                 dtype=np.int64)
+        self.__dict__[f'neighbors_list_{nearestNeighborCategory}'] = hnnc['neighbors_list']
 
-        # Check to see if if data set already exists or if forceNew is set to True
-        if not np.any(h5grp[nearestNeighborCategory]['neighbors_list'][:]) or forceNew:
+        if needsNew:
 
             # Extract channel number and position of current channel, store in hdf5 file
             channum = self.channum
-- 
2.43.0


From dfa2a744e158de1bcb302aea1ba565b5f1661232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:27 +0000
Subject: [PATCH 100/134] fix: a noise record of just the allowed excursion
 counted in the autocorrelation but not in the spectrum

---
 mass/core/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 935bc48..fe5e140 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -196,7 +196,7 @@ class NoiseRecords:
 
         for d in data:
             y = d - d.mean()
-            if y.max() - y.min() < max_excursion and len(y) == spectrum.m2:
+            if y.max() - y.min() <= max_excursion and len(y) == spectrum.m2:
                 spectrum.addDataSegment(y, window=window)
 
         freq = spectrum.frequencies()
-- 
2.43.0


From 4186005fe3ecf0999c35690d4025ff4792e58883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:08 +0000
Subject: [PATCH 101/134] fix: continuous noise could be cut into segments only
 if they divide its whole length

---
 mass/core/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index fe5e140..14fe903 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -192,7 +192,7 @@ class NoiseRecords:
         if self.continuous and seg_length is not None:
             n = np.prod(data.shape)
             n -= n % seg_length
-            data = data[:n].reshape((n // seg_length, seg_length))
+            data = data.ravel()[:n].reshape((n // seg_length, seg_length))
 
         for d in data:
             y = d - d.mean()
-- 
2.43.0


From 023d12b6add13ddb74bcf06afdddba5f3e5b6bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:08 +0000
Subject: [PATCH 102/134] fix: the noise spectrum of records with an odd number
 of samples was not a number

---
 mass/core/channel.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 14fe903..169426f 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -182,6 +182,9 @@ class NoiseRecords:
         if seg_length is None:
             seg_length = self.nSamples
 
+        # Power spectra need segments of even length, so odd ones are shortened by one sample
+        seg_length -= seg_length % 2
+
         spectrum = mass.mathstat.power_spectrum.PowerSpectrum(seg_length // 2, dt=self.timebase)
         if window is None:
             window = np.ones(seg_length)
@@ -193,6 +196,8 @@ class NoiseRecords:
             n = np.prod(data.shape)
             n -= n % seg_length
             data = data.ravel()[:n].reshape((n // seg_length, seg_length))
+        else:
+            data = data[:, :seg_length]
 
         for d in data:
             y = d - d.mean()
-- 
2.43.0


From bfcf31953f99d751f0b9b52b9b86c4448af9ac12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:08 +0000
Subject: [PATCH 103/134] fix: the autocorrelation of a range of continuous
 noise samples used a range of records

---
 mass/core/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 169426f..784cbb6 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -324,7 +324,7 @@ class NoiseRecords:
         entries = 0.0
 
         first, last = data_samples
-        data = self.datafile.alldata[first:last].ravel()
+        data = self.datafile.alldata.ravel()[first:last]
         Nchunks = np.prod(data.shape) // chunksize
         datachunks = data[:Nchunks * chunksize].reshape(Nchunks, chunksize)
         for data in datachunks:
-- 
2.43.0


From 381e8b6458ae798e98493151bb8ee190027b404a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:08 +0000
Subject: [PATCH 104/134] fix: noise autocorrelations of a number of lags other
 than the record length, and noise records without an HDF5 group, always
 failed

---
 mass/core/channel.py | 48 ++++++++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 784cbb6..76af491 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -83,7 +83,12 @@ class NoiseRecords:
 
         self.__open_file(filename, use_records=use_records)
         self.continuous = records_are_continuous
+        self.hdf5_group = None
         self.noise_psd = None
+        self.autocorrelation = None
+        # Copy up some of the most important attributes
+        for attr in ("nSamples", "nPresamples", "nPulses", "timebase", "n_segments"):
+            setattr(self, attr, getattr(self.datafile, attr))
 
     def set_hdf5_group(self, hdf5_group):
         if hdf5_group is None:
@@ -206,11 +211,12 @@ class NoiseRecords:
 
         freq = spectrum.frequencies()
         psd = spectrum.spectrum()
-        if self.hdf5_group is not None:
+        if self.hdf5_group is None:
+            self.noise_psd = psd
+        elif len(psd) == len(self.noise_psd):
             self.noise_psd[:] = psd
             self.noise_psd.attrs["delta_f"] = freq[1] - freq[0]
-        else:
-            self.noise_psd = psd
+        # (Spectra of segments of another length than the records are not stored.)
         return spectrum
 
     def compute_fancy_power_spectra(self, window=mass.mathstat.power_spectrum.hann,
@@ -255,7 +261,7 @@ class NoiseRecords:
             <scale>    Scale all raw units by this number to convert counts to physical
             <sqrt_psd> Whether to take the sqrt(PSD) for plotting.  Default is no sqrt
         """
-        if all(self.noise_psd[:] == 0):
+        if self.noise_psd is None or all(self.noise_psd[:] == 0):
             self.compute_power_spectrum(plot=False)
         if axis is None:
             plt.clf()
@@ -263,7 +269,7 @@ class NoiseRecords:
         yvalue = self.noise_psd[1:] * (scale**2)
         if sqrt_psd:
             yvalue = np.sqrt(yvalue)
-        freq = np.arange(1, 1 + len(yvalue)) * self.noise_psd.attrs['delta_f']
+        freq = np.arange(1, 1 + len(yvalue)) / (2 * self.timebase * len(yvalue))
         axis.plot(freq, yvalue, **kwarg)
         plt.loglog()
         axis.grid()
@@ -346,7 +352,7 @@ class NoiseRecords:
 
         ac /= entries
         ac /= (np.arange(chunksize, chunksize - n_lags + 0.5, -1.0, dtype=float))
-        self.autocorrelation[:] = ac
+        return ac
 
     def compute_autocorrelation(self, n_lags=None, data_samples=None, plot=True, max_excursion=1000):
         """Compute the autocorrelation averaged across all "pulses" in the file.
@@ -357,17 +363,23 @@ class NoiseRecords:
         """
 
         if self.continuous:
-            self._compute_continuous_autocorrelation(n_lags=n_lags, data_samples=data_samples,
-                                                     max_excursion=max_excursion)
+            ac = self._compute_continuous_autocorrelation(n_lags=n_lags, data_samples=data_samples,
+                                                          max_excursion=max_excursion)
 
         else:
-            self._compute_broken_autocorrelation(n_lags=n_lags, data_samples=data_samples,
-                                                 max_excursion=max_excursion)
+            ac = self._compute_broken_autocorrelation(n_lags=n_lags, data_samples=data_samples,
+                                                      max_excursion=max_excursion)
 
-        if self.hdf5_group is not None:
-            grp = self.hdf5_group.require_group(f"reclen{n_lags}")
-            ds = grp.require_dataset("autocorrelation", shape=(n_lags,), dtype=np.float64)
-            ds[:] = self.autocorrelation[:]
+        if self.hdf5_group is None:
+            self.autocorrelation = ac
+        else:
+            # The number of lags found can differ from the record length
+            n_stored = min(len(ac), self.nSamples)
+            self.autocorrelation[:n_stored] = ac[:n_stored]
+            self.autocorrelation[n_stored:] = 0.0
+            grp = self.hdf5_group.require_group(f"reclen{len(ac)}")
+            ds = grp.require_dataset("autocorrelation", shape=(len(ac),), dtype=np.float64)
+            ds[:] = ac
 
         if plot:
             self.plot_autocorrelation()
@@ -403,13 +415,11 @@ class NoiseRecords:
 
         ac /= records_used
         ac /= self.nSamples - np.arange(self.nSamples, dtype=float)
-        if n_lags < self.nSamples:
-            ac = ac[:n_lags]
-        self.autocorrelation[:] = ac
+        return ac[:n_lags]
 
     def plot_autocorrelation(self, axis=None, color='blue', label=None):
         """Plot the autocorrelation function."""
-        if all(self.autocorrelation[:] == 0):
+        if self.autocorrelation is None or all(self.autocorrelation[:] == 0):
             LOG.info("Autocorrelation must be computed before it can be plotted")
             self.compute_autocorrelation(plot=False)
         if axis is None:
@@ -1606,7 +1616,7 @@ class MicrocalDataSet:  # noqa: PLR0904
                 (default None).
             forceNew (bool): whether to recompute if it already exists (default False).
         """
-        self.noise_records_nlags = NoiseRecords(self.noise_records.filename)
+        self.noise_records_nlags = NoiseRecords(self.noise_records.filename, records_are_continuous=True)
         self.noise_records_nlags.compute_power_spectrum_reshape(
             max_excursion=max_excursion, seg_length=n_lags)
         self.noise_records_nlags.compute_autocorrelation(
-- 
2.43.0


From 3ebe0cf5fbca35c6e48e498d11b37da896747305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:08 +0000
Subject: [PATCH 105/134] fix: noise spectra of several segment lengths always
 failed

---
 mass/core/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 76af491..e6daf14 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -226,7 +226,7 @@ class NoiseRecords:
         """
         assert self.continuous
 
-        n = np.prod(self.datafile.data.shape)
+        n = np.prod(self.datafile.alldata.shape)
         if seglength_choices is None:
             longest_seg = 1
             while longest_seg <= n // 16:
-- 
2.43.0


From b841eb1035033fa4fbdcf8e98e31fe05d90491d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:08 +0000
Subject: [PATCH 106/134] fix: the noise spectrum used all records though only
 some were asked for

---
 mass/core/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index e6daf14..bdd9551 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -196,7 +196,7 @@ class NoiseRecords:
         else:
             window = window(seg_length)
 
-        data = self.datafile.alldata
+        data = self.datafile.alldata[:self.nPulses]
         if self.continuous and seg_length is not None:
             n = np.prod(data.shape)
             n -= n % seg_length
-- 
2.43.0


From ba23734a09c2a39241efbb6c191ec4a4a17ee731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:08 +0000
Subject: [PATCH 107/134] fix: compute_noise_spectra of a channel always failed

---
 mass/core/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index bdd9551..9aec8a8 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1656,7 +1656,7 @@ class MicrocalDataSet:  # noqa: PLR0904
     @deprecated(deprecated_in="0.7.9", details="Use compute_noise(), which is equivalent but better named")
     def compute_noise_spectra(self, max_excursion=1000, n_lags=None, forceNew=False):
         """Replaced by the equivalent compute_noise(...)"""
-        return self.compute_noise(max_excursion=max_excursion, n_lags=n_lags, forceNew=forceNew)
+        return self.compute_noise(max_excursion=max_excursion, forceNew=forceNew)
 
     @_add_group_loop()
     def apply_cuts(self, controls, clear=False, forceNew=True):
-- 
2.43.0


From cbd5bd03867c9f1e82d2a8bab3e958ac487ea2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:08 +0000
Subject: [PATCH 108/134] fix: the assumed white noise spectrum had no (or an
 old) frequency step

---
 mass/core/channel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 9aec8a8..84c033c 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1602,6 +1602,7 @@ class MicrocalDataSet:  # noqa: PLR0904
             self.noise_autocorr[0] = noise_variance
             psd = 2.0 * noise_variance * self.timebase
             self.noise_psd[:] = psd
+            self.noise_psd.attrs['delta_f'] = 0.5 / (self.timebase * (len(self.noise_psd) - 1))
 
     @_add_group_loop()
     def compute_noise_nlags(self, n_lags, max_excursion=1000, plot=False):
-- 
2.43.0


From 562c76069ba26d53b352913389b51a075b9414a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:09 +0000
Subject: [PATCH 109/134] fix: data added to a copy of a power spectrum also
 changed the original

---
 mass/mathstat/power_spectrum.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mass/mathstat/power_spectrum.py b/mass/mathstat/power_spectrum.py
index b055573..7951b88 100644
--- a/mass/mathstat/power_spectrum.py
+++ b/mass/mathstat/power_spectrum.py
@@ -54,6 +54,7 @@ in the callable function itself.  It is allowed to use different windows
 on different data segments, though honestly that would be really weird.
 """
 
+import copy
 import numpy as np
 import pylab as plt
 
@@ -87,7 +88,7 @@ class PowerSpectrum:
         Handy when coding and you don't want to recompute everything, but
         you do want to update the method definitions."""
         c = PowerSpectrum(self.m, dt=self.dt)
-        c.__dict__.update(self.__dict__)
+        c.__dict__.update(copy.deepcopy(self.__dict__))
         return c
 
     def addDataSegment(self, data, window=None):
@@ -184,6 +185,12 @@ class PowerSpectrumOverlap(PowerSpectrum):
         PowerSpectrum.__init__(self, m, dt=dt)
         self.first = True
 
+    def copy(self):
+        """Return a copy of the object."""
+        c = PowerSpectrumOverlap(self.m, dt=self.dt)
+        c.__dict__.update(copy.deepcopy(self.__dict__))
+        return c
+
     def addDataSegment(self, data, window=None):
         "Process a data segment of length m using window."
         if self.first:
-- 
2.43.0


From 2406b5d92a577ecd8f4bfe58a4085b36f53b0e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:09 +0000
Subject: [PATCH 110/134] fix: the last bins of a rebinned power spectrum were
 not a number or shifted

---
 mass/mathstat/power_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/mathstat/power_spectrum.py b/mass/mathstat/power_spectrum.py
index 7951b88..01333f2 100644
--- a/mass/mathstat/power_spectrum.py
+++ b/mass/mathstat/power_spectrum.py
@@ -137,7 +137,7 @@ class PowerSpectrum:
         if nbins > self.m:
             raise ValueError(f"Cannot rebin into more than m={self.m} bins")
 
-        newbin = np.asarray(0.5 + np.arange(self.m + 1, dtype=float) / (self.m + 1) * nbins, dtype=int)
+        newbin = np.asarray(0.5 + np.arange(self.m + 1, dtype=float) * nbins / self.m, dtype=int)
         result = np.zeros(nbins + 1, dtype=float)
         for i in range(nbins + 1):
             result[i] = self.specsum[newbin == i].mean()
-- 
2.43.0


From 9c6ad71b98ab1b669c220184a13d0aed8cfa50a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:09 +0000
Subject: [PATCH 111/134] fix: the power spectrum of data in several segments
 ignored the last part of the data

---
 mass/mathstat/power_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/mathstat/power_spectrum.py b/mass/mathstat/power_spectrum.py
index 01333f2..6e7150d 100644
--- a/mass/mathstat/power_spectrum.py
+++ b/mass/mathstat/power_spectrum.py
@@ -300,7 +300,7 @@ def computeSpectrum(data, segfactor=1, dt=None, window=None):
         spec.addDataSegment(data[:2 * (len(data) // 2)], window=window)
     else:
         spec = PowerSpectrumOverlap(M, dt=dt)
-        for i in range(2 * segfactor - 1):
+        for i in range(2 * segfactor):
             spec.addDataSegment(data[i * M:(i + 1) * M], window=window)
 
     if dt is None:
-- 
2.43.0


From 37855ae1e7dcda84543e9d80d88e9e132e615d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:09 +0000
Subject: [PATCH 112/134] fix: autocorrelation_broken_from_pulses altered the
 data given, and failed for integers

---
 mass/mathstat/power_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/mathstat/power_spectrum.py b/mass/mathstat/power_spectrum.py
index 6e7150d..cc8c8cf 100644
--- a/mass/mathstat/power_spectrum.py
+++ b/mass/mathstat/power_spectrum.py
@@ -260,7 +260,7 @@ def autocorrelation_broken_from_pulses(noise_pulses):
 
     for i in range(npulses):
         pulse = noise_pulses[:, i]
-        pulse -= pulse.mean()
+        pulse = pulse - pulse.mean()  # NOQA: PLR6104
         ac += np.correlate(pulse, pulse, 'full')[nsamples - 1:]
 
     ac /= npulses
-- 
2.43.0


From b582167034eccf37ded873ddd8af4a2d356a2192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:49 +0000
Subject: [PATCH 113/134] fix: a Toeplitz system of a single equation could not
 be solved

---
 mass/mathstat/toeplitz.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mass/mathstat/toeplitz.py b/mass/mathstat/toeplitz.py
index 7320e52..36820e9 100644
--- a/mass/mathstat/toeplitz.py
+++ b/mass/mathstat/toeplitz.py
@@ -118,6 +118,8 @@ class ToeplitzSolver:
 
         T0 = self.T[n - 1]
         x[0] = y[0] / T0
+        if n == 1:
+            return x
         g[0] = self.T[n - 2] / T0
         h[0] = self.T[n] / T0
 
@@ -152,6 +154,8 @@ class ToeplitzSolver:
         self.gK_leading = np.zeros(n, dtype=float)
 
         T0 = self.T[0]
+        if n == 1:
+            return
         g[0] = self.T[1] / T0
 
         for K in range(1, n):  # K = M+1
@@ -181,6 +185,8 @@ class ToeplitzSolver:
         T = self.T
         T0 = T[0]
         x[0] = y[0] / T0
+        if n == 1:
+            return x
         g[0] = T[1] / T0
 
         for K in range(1, n):  # K = M+1
-- 
2.43.0


From b2c4c44fe8d8f8eeb8c8147869a5e6f58c754764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:49 +0000
Subject: [PATCH 114/134] fix: a Toeplitz matrix times a vector of integers was
 rounded to integers

---
 mass/mathstat/toeplitz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/mathstat/toeplitz.py b/mass/mathstat/toeplitz.py
index 36820e9..9ebe045 100644
--- a/mass/mathstat/toeplitz.py
+++ b/mass/mathstat/toeplitz.py
@@ -92,7 +92,7 @@ class ToeplitzSolver:
         x = np.asarray(x)
         N = len(x)
         assert N == self.n
-        y = np.zeros_like(x)
+        y = np.zeros(N, dtype=float)
         y[0] = np.dot(self.T, x)
         for i in range(1, N):
             y[i] = np.dot(self.T[:-i], x[i:])
-- 
2.43.0


From 8265abf26445064153bfef8235a339483fc64975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:49 +0000
Subject: [PATCH 115/134] fix: whitening data of integers was rounded to
 integers, or failed

---
 mass/core/optimal_filtering.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mass/core/optimal_filtering.py b/mass/core/optimal_filtering.py
index fe4d327..ff2e53d 100644
--- a/mass/core/optimal_filtering.py
+++ b/mass/core/optimal_filtering.py
@@ -65,7 +65,7 @@ class ToeplitzWhitener:
 
     def __call__(self, v: npt.ArrayLike) -> np.ndarray:
         "Return whitened vector (or matrix of column vectors) Wv"
-        v = np.asarray(v)
+        v = np.asarray(v, dtype=float)
         if v.ndim > 3:
             raise ValueError("v must be an array of dimension 1 or 2")
         elif v.ndim == 2:
@@ -97,7 +97,7 @@ class ToeplitzWhitener:
 
     def solveW(self, v: npt.ArrayLike) -> np.ndarray:
         "Return unwhitened vector (or matrix of column vectors) inv(W)*v"
-        v = np.asarray(v)
+        v = np.asarray(v, dtype=float)
         if v.ndim > 3:
             raise ValueError("v must be dimension 1 or 2")
         elif v.ndim == 2:
@@ -129,7 +129,7 @@ class ToeplitzWhitener:
 
     def solveWT(self, v: npt.ArrayLike) -> np.ndarray:
         "Return vector (or matrix of column vectors) inv(W')*v"
-        v = np.asarray(v)
+        v = np.asarray(v, dtype=float)
         if v.ndim > 3:
             raise ValueError("v must be dimension 1 or 2")
         elif v.ndim == 2:
@@ -149,7 +149,7 @@ class ToeplitzWhitener:
 
     def applyWT(self, v: npt.ArrayLike) -> np.ndarray:
         """Return vector (or matrix of column vectors) W'v"""
-        v = np.asarray(v)
+        v = np.asarray(v, dtype=float)
         if v.ndim > 3:
             raise ValueError("v must be dimension 1 or 2")
         elif v.ndim == 2:
-- 
2.43.0


From 5ad274d852454b0c3c05e9a16f1c2f38b33d89d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:49 +0000
Subject: [PATCH 116/134] fix: whitening an array of three dimensions gave
 nonsense instead of an error

---
 mass/core/optimal_filtering.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mass/core/optimal_filtering.py b/mass/core/optimal_filtering.py
index ff2e53d..d81807a 100644
--- a/mass/core/optimal_filtering.py
+++ b/mass/core/optimal_filtering.py
@@ -66,7 +66,7 @@ class ToeplitzWhitener:
     def __call__(self, v: npt.ArrayLike) -> np.ndarray:
         "Return whitened vector (or matrix of column vectors) Wv"
         v = np.asarray(v, dtype=float)
-        if v.ndim > 3:
+        if v.ndim > 2:
             raise ValueError("v must be an array of dimension 1 or 2")
         elif v.ndim == 2:
             w = np.zeros_like(v)
@@ -98,7 +98,7 @@ class ToeplitzWhitener:
     def solveW(self, v: npt.ArrayLike) -> np.ndarray:
         "Return unwhitened vector (or matrix of column vectors) inv(W)*v"
         v = np.asarray(v, dtype=float)
-        if v.ndim > 3:
+        if v.ndim > 2:
             raise ValueError("v must be dimension 1 or 2")
         elif v.ndim == 2:
             r = np.zeros_like(v)
@@ -130,7 +130,7 @@ class ToeplitzWhitener:
     def solveWT(self, v: npt.ArrayLike) -> np.ndarray:
         "Return vector (or matrix of column vectors) inv(W')*v"
         v = np.asarray(v, dtype=float)
-        if v.ndim > 3:
+        if v.ndim > 2:
             raise ValueError("v must be dimension 1 or 2")
         elif v.ndim == 2:
             r = np.zeros_like(v)
@@ -150,7 +150,7 @@ class ToeplitzWhitener:
     def applyWT(self, v: npt.ArrayLike) -> np.ndarray:
         """Return vector (or matrix of column vectors) W'v"""
         v = np.asarray(v, dtype=float)
-        if v.ndim > 3:
+        if v.ndim > 2:
             raise ValueError("v must be dimension 1 or 2")
         elif v.ndim == 2:
             r = np.zeros_like(v)
-- 
2.43.0


From afe655b1cfec9455867871266d7ea52143a1f30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:49 +0000
Subject: [PATCH 117/134] fix: a whitener of order 0 scaled the first sample
 twice

---
 mass/core/optimal_filtering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/core/optimal_filtering.py b/mass/core/optimal_filtering.py
index d81807a..136b7a7 100644
--- a/mass/core/optimal_filtering.py
+++ b/mass/core/optimal_filtering.py
@@ -89,7 +89,7 @@ class ToeplitzWhitener:
             for j in range(i):
                 y[i] -= y[j] * self.theta[i - j]
             y[i] /= self.theta[0]
-        for i in range(self.q, N):
+        for i in range(max(1, self.q), N):
             for j in range(i - self.q, i):
                 y[i] -= y[j] * self.theta[i - j]
             y[i] /= self.theta[0]
@@ -121,7 +121,7 @@ class ToeplitzWhitener:
             for j in range(i):
                 y[i] -= y[j] * self.phi[i - j]
             y[i] /= self.phi[0]
-        for i in range(self.p, N):
+        for i in range(max(1, self.p), N):
             for j in range(i - self.p, i):
                 y[i] -= y[j] * self.phi[i - j]
             y[i] /= self.phi[0]
-- 
2.43.0


From 02fcf58f203249383d96778350397fe2fda6dd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:49 +0000
Subject: [PATCH 118/134] fix: arrival-time-safe filters of a whitener without
 autocorrelation always failed

---
 mass/core/optimal_filtering.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mass/core/optimal_filtering.py b/mass/core/optimal_filtering.py
index 136b7a7..6630d48 100644
--- a/mass/core/optimal_filtering.py
+++ b/mass/core/optimal_filtering.py
@@ -572,6 +572,7 @@ class FilterMaker:
             filt = np.dot(Ainv, RinvM.T)
 
         band_limit(filt.T, self.sample_time_sec, fmax, f_3db)
+        variance = self._noise_variance(filt[0])
 
         if cut_pre > 0 or cut_post > 0:
             nfilt = filt.shape[0]
@@ -583,11 +584,17 @@ class FilterMaker:
         filt_dt = filt[1]
         filt_baseline = filt[2]
 
-        variance = bracketR(filt_noconst, self.noise_autocorr)
         vdv = peak / (np.log(2) * 8 * variance)**0.5
         return Filter(filt_noconst, peak, variance, vdv, filt_dt, filt_baseline, avg_signal, dt_model, 1,
                       fmax, f_3db, cut_pre, cut_post, "ats")
 
+    def _noise_variance(self, f: np.ndarray) -> float:
+        """The predicted variance of noise put into a filter `f` (before any zero weights are appended)."""
+        if self.noise_autocorr is None:
+            unwhitened = self.whitener.solveWT(f)
+            return np.dot(unwhitened, unwhitened)
+        return bracketR(f, np.asarray(self.noise_autocorr))
+
     def _compute_autocorr(self, cut_pre: int = 0, cut_post: int = 0) -> np.ndarray:
         """Return the noise autocorrelation, if any, cut down by the requested number of values at the start and end.
 
-- 
2.43.0


From 217986f10098ca38643a4fddd5b879abbfa4e333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:49 +0000
Subject: [PATCH 119/134] fix: 5-lag filters ignored a whitener, and failed
 without an autocorrelation

---
 mass/core/optimal_filtering.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/mass/core/optimal_filtering.py b/mass/core/optimal_filtering.py
index 6630d48..1771559 100644
--- a/mass/core/optimal_filtering.py
+++ b/mass/core/optimal_filtering.py
@@ -402,18 +402,20 @@ class FilterMaker:
         shorten = 2
         truncated_signal = avg_signal[shorten:-shorten]
         n = len(truncated_signal)
-        assert len(noise_autocorr) >= n, "Noise autocorrelation vector is too short for signal size"
-
-        noise_corr = noise_autocorr[:n]
-        TS = ToeplitzSolver(noise_corr, symmetric=True)
-        Rinv_sig = TS(truncated_signal)
-        Rinv_1 = TS(np.ones(n))
+        if self.whitener is not None:
+            Rinv_sig = self.whitener.applyWT(self.whitener(truncated_signal))
+            Rinv_1 = self.whitener.applyWT(self.whitener(np.ones(n)))
+        else:
+            assert len(noise_autocorr) >= n, "Noise autocorrelation vector is too short for signal size"
+            TS = ToeplitzSolver(noise_autocorr[:n], symmetric=True)
+            Rinv_sig = TS(truncated_signal)
+            Rinv_1 = TS(np.ones(n))
         filt_noconst = Rinv_1.sum() * Rinv_sig - Rinv_sig.sum() * Rinv_1
 
         band_limit(filt_noconst, self.sample_time_sec, fmax, f_3db)
 
         self._normalize_5lag_filter(filt_noconst, avg_signal)
-        variance = bracketR(filt_noconst, noise_corr)
+        variance = self._noise_variance(filt_noconst)
 
         # Set weights in the cut_pre and cut_post windows to 0
         if cut_pre > 0 or cut_post > 0:
-- 
2.43.0


From 6ecdafba3cfe06beaca0aa5de4d66b13c11cb4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:49 +0000
Subject: [PATCH 120/134] fix: Fourier filters always failed, and their
 predicted variance had other units than that of other filters

---
 mass/core/optimal_filtering.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/mass/core/optimal_filtering.py b/mass/core/optimal_filtering.py
index 1771559..9641133 100644
--- a/mass/core/optimal_filtering.py
+++ b/mass/core/optimal_filtering.py
@@ -466,10 +466,10 @@ class FilterMaker:
         noise_psd = np.asarray(self.noise_psd)
 
         shorten = 2  # to use in 5-lag style
-        avg_signal = avg_signal[shorten:-shorten]
+        truncated_signal = avg_signal[shorten:-shorten]
         n = len(noise_psd)
         window = 1.0
-        sig_ft = np.fft.rfft(avg_signal * window)
+        sig_ft = np.fft.rfft(truncated_signal * window)
 
         if len(sig_ft) != n - shorten:
             raise ValueError(f"signal real DFT and noise PSD are not the same length ({len(sig_ft)} and {n})")
@@ -478,15 +478,15 @@ class FilterMaker:
         # truncating the middle, and going back to Fourier space
         if shorten > 0:
             noise_autocorr = np.fft.irfft(noise_psd)
-            noise_autocorr = np.hstack((noise_autocorr[:n - shorten - 1],
-                                        noise_autocorr[-n + shorten:]))
-            noise_psd = np.fft.rfft(noise_autocorr)
+            noise_autocorr = np.hstack((noise_autocorr[:n - shorten],
+                                        noise_autocorr[-n + shorten + 2:]))
+            noise_psd = np.fft.rfft(noise_autocorr).real
         sig_ft_weighted = sig_ft / noise_psd
 
         # Band-limit
         if fmax is not None or f_3db is not None:
             freq = np.arange(0, n - shorten, dtype=float) * \
-                0.5 / ((n - 1) * self.sample_time_sec)
+                0.5 / ((n - shorten - 1) * self.sample_time_sec)
             if fmax is not None:
                 sig_ft_weighted[freq > fmax] = 0.0
             if f_3db is not None:
@@ -498,12 +498,13 @@ class FilterMaker:
 
         # How we compute the uncertainty depends on whether there's a noise autocorrelation result
         if self.noise_autocorr is None:
-            noise_ft_squared = (len(noise_psd) - 1) / self.sample_time_sec * noise_psd
-            kappa = (np.abs(sig_ft * self.peak)**2 / noise_ft_squared)[1:].sum()
-            variance_fourier = 1. / kappa
+            # The PSD is one-sided: each frequency but the first and last stands for two.
+            power = np.abs(np.fft.rfft(filt_fourier))**2 * noise_psd / (2 * self.sample_time_sec)
+            power[1:-1] *= 2
+            variance_fourier = power.sum() / len(filt_fourier)
         else:
             ac = np.array(self.noise_autocorr)[:len(filt_fourier)]
-            variance_fourier = bracketR(filt_fourier, ac) / self.peak**2
+            variance_fourier = bracketR(filt_fourier, ac)
         vdv = peak / (8 * np.log(2) * variance_fourier)**0.5
         return Filter(filt_fourier, peak, variance_fourier, vdv, None, None, avg_signal, None, 1 + 2 * shorten,
                       fmax, f_3db, cut_pre, cut_post, "fourier")
-- 
2.43.0


From d16099895370eb091b0555137f392cf427ec90f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:49 +0000
Subject: [PATCH 121/134] fix: filters of a negative-going signal were scaled
 by the largest fluctuation of the baseline

---
 mass/core/optimal_filtering.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/mass/core/optimal_filtering.py b/mass/core/optimal_filtering.py
index 9641133..b3c1d81 100644
--- a/mass/core/optimal_filtering.py
+++ b/mass/core/optimal_filtering.py
@@ -421,7 +421,7 @@ class FilterMaker:
         if cut_pre > 0 or cut_post > 0:
             filt_noconst = np.hstack([np.zeros(cut_pre), filt_noconst, np.zeros(cut_post)])
 
-        vdv = peak / (8 * np.log(2) * variance)**0.5
+        vdv = np.abs(peak) / (8 * np.log(2) * variance)**0.5
         return Filter(filt_noconst, peak, variance, vdv, None, None, avg_signal, None, 1 + 2 * shorten,
                       fmax, f_3db, cut_pre, cut_post, "5lag")
 
@@ -505,7 +505,7 @@ class FilterMaker:
         else:
             ac = np.array(self.noise_autocorr)[:len(filt_fourier)]
             variance_fourier = bracketR(filt_fourier, ac)
-        vdv = peak / (8 * np.log(2) * variance_fourier)**0.5
+        vdv = np.abs(peak) / (8 * np.log(2) * variance_fourier)**0.5
         return Filter(filt_fourier, peak, variance_fourier, vdv, None, None, avg_signal, None, 1 + 2 * shorten,
                       fmax, f_3db, cut_pre, cut_post, "fourier")
 
@@ -587,7 +587,7 @@ class FilterMaker:
         filt_dt = filt[1]
         filt_baseline = filt[2]
 
-        vdv = peak / (np.log(2) * 8 * variance)**0.5
+        vdv = np.abs(peak) / (np.log(2) * 8 * variance)**0.5
         return Filter(filt_noconst, peak, variance, vdv, filt_dt, filt_baseline, avg_signal, dt_model, 1,
                       fmax, f_3db, cut_pre, cut_post, "ats")
 
@@ -652,21 +652,20 @@ class FilterMaker:
 
         # Unless passed in, find the signal's peak value. This is normally peak=(max-pretrigger).
         # If signal is negative-going, however, then peak=(pretrigger-min).
+        a = avg_signal[cut_pre:ns - cut_post].min()
+        b = avg_signal[cut_pre:ns - cut_post].max()
+        is_negative = pre_avg - a > b - pre_avg
         if self.peak > 0.0:
             peak_signal = self.peak
+        elif is_negative:
+            peak_signal = a - pre_avg
         else:
-            a = avg_signal[cut_pre:ns - cut_post].min()
-            b = avg_signal[cut_pre:ns - cut_post].max()
-            is_negative = pre_avg - a > b - pre_avg
-            if is_negative:
-                peak_signal = a - pre_avg
-            else:
-                peak_signal = b - pre_avg
+            peak_signal = b - pre_avg
 
         # avg_signal: normalize to have unit peak
         avg_signal -= pre_avg
 
-        rescale = 1 / np.max(avg_signal)
+        rescale = 1 / (np.min(avg_signal) if is_negative else np.max(avg_signal))
         avg_signal *= rescale
         avg_signal[:self.n_pretrigger] = 0.0
         avg_signal = avg_signal[cut_pre:ns - cut_post]
-- 
2.43.0


From 5dc34a7b3c667ca1543b852d928f9a3188db4417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:43 +0000
Subject: [PATCH 122/134] fix: filters of a signal of integers, or of an
 arrival-time model given as a list, always failed

---
 mass/core/optimal_filtering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/core/optimal_filtering.py b/mass/core/optimal_filtering.py
index b3c1d81..d2cfa99 100644
--- a/mass/core/optimal_filtering.py
+++ b/mass/core/optimal_filtering.py
@@ -641,7 +641,7 @@ class FilterMaker:
         ValueError
             If negative numbers of samples are to be cut, or the entire record is to be cut.
         """
-        avg_signal = np.array(self.signal_model)
+        avg_signal = np.array(self.signal_model, dtype=float)
         ns = len(avg_signal)
         pre_avg = avg_signal[cut_pre:self.n_pretrigger - 1].mean()
 
@@ -672,7 +672,7 @@ class FilterMaker:
         if self.dt_model is None:
             dt_model = np.array([], dtype=float)
         else:
-            dt_model = self.dt_model * rescale
+            dt_model = np.asarray(self.dt_model) * rescale
             dt_model = dt_model[cut_pre:ns - cut_post]
         return avg_signal, peak_signal, dt_model
 
-- 
2.43.0


From dad8db9d3d9850234ab6414ba6cdb5c71189704c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:26 +0000
Subject: [PATCH 123/134] fix: smoothing an arrival-time-safe filter without a
 sample time divided by zero instead of being refused

---
 mass/core/optimal_filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/optimal_filtering.py b/mass/core/optimal_filtering.py
index d2cfa99..26b5e19 100644
--- a/mass/core/optimal_filtering.py
+++ b/mass/core/optimal_filtering.py
@@ -541,7 +541,7 @@ class FilterMaker:
             raise ValueError("Filter must have noise_autocorr or whitener arguments to generate ATS filters")
         if self.dt_model is None:
             raise ValueError("Filter must have dt_model to generate ATS filters")
-        if self.sample_time_sec is None and not (fmax is None and f_3db is None):
+        if self.sample_time_sec <= 0 and not (fmax is None and f_3db is None):
             raise ValueError(
                 "Filter must have a sample_time_sec if it's to be smoothed with fmax or f_3db")
 
-- 
2.43.0


From f19b28ced64d13000ef799c47a4074c8ab42ade4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:20 +0000
Subject: [PATCH 124/134] fix: arrival-time-safe filters may cut half the
 record or more (the cuts were compared to what they leave; _normalize_signal
 compares them to the record)

---
 mass/core/optimal_filtering.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/mass/core/optimal_filtering.py b/mass/core/optimal_filtering.py
index 26b5e19..55f3ea7 100644
--- a/mass/core/optimal_filtering.py
+++ b/mass/core/optimal_filtering.py
@@ -550,10 +550,6 @@ class FilterMaker:
 
         ns = len(avg_signal)
         assert ns == len(dt_model)
-        if cut_pre < 0 or cut_post < 0:
-            raise ValueError(f"(cut_pre,cut_post)=({cut_pre},{cut_post}), but neither can be negative")
-        if cut_pre + cut_post >= ns:
-            raise ValueError(f"cut_pre+cut_post = {cut_pre + cut_post} but should be < {ns}")
 
         MT = np.vstack((avg_signal, dt_model, np.ones(ns)))
 
-- 
2.43.0


From f3ff94e472399e2cd5df16de7c39af03a8c0ea3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:28 +0000
Subject: [PATCH 125/134] fix: evaluating a cubic spline at an array of a
 single point changed the shape of that array, and lost it

---
 mass/mathstat/interpolate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mass/mathstat/interpolate.py b/mass/mathstat/interpolate.py
index 1d886ba..8cafd8d 100644
--- a/mass/mathstat/interpolate.py
+++ b/mass/mathstat/interpolate.py
@@ -124,8 +124,8 @@ class CubicSpline:
         x = np.asarray(x)
         if x.size == 0:
             return np.array([])
-        elif x.size == 1:
-            x.shape = (1,)
+        shape = x.shape
+        x = np.atleast_1d(x)
         result = np.zeros_like(x, dtype=float)
 
         # Find which interval 0,...self._n-2 contains the points (or extrapolates to the points)
@@ -177,8 +177,8 @@ class CubicSpline:
                 result[interp] = .0
 
         if scalar:
-            result = result[0]
-        return result
+            return result[0]
+        return result.reshape(shape)
 
 
 class CubicSplineFunction(CubicSpline, Function):
-- 
2.43.0


From ba89aec24524bde02d5175011f5618c097906e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:28 +0000
Subject: [PATCH 126/134] fix: the third derivative of a cubic spline was
 multiplied, not divided, by the distance of its knots

---
 mass/mathstat/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/mathstat/interpolate.py b/mass/mathstat/interpolate.py
index 8cafd8d..d71d48f 100644
--- a/mass/mathstat/interpolate.py
+++ b/mass/mathstat/interpolate.py
@@ -172,7 +172,7 @@ class CubicSpline:
             elif der == 2:
                 result[interp] = a * self._y2[klo] + b * self._y2[khi]
             elif der == 3:
-                result[interp] = (-self._y2[klo] + self._y2[khi]) * dx
+                result[interp] = (-self._y2[klo] + self._y2[khi]) / dx
             elif der > 3:
                 result[interp] = .0
 
-- 
2.43.0


From b1a2385f0b62d01c92e9661d7407499ff06d494a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:53 +0000
Subject: [PATCH 127/134] fix: a Function plus, minus or times a number (on the
 right) could not be evaluated

---
 mass/mathstat/derivative.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mass/mathstat/derivative.py b/mass/mathstat/derivative.py
index a338e3a..b23d9a1 100644
--- a/mass/mathstat/derivative.py
+++ b/mass/mathstat/derivative.py
@@ -47,6 +47,8 @@ class Function:
         return NotImplemented(">> is not implemented.")
 
     def __add__(self, other):
+        if isinstance(other, (int, float)):
+            other = ConstantFunction(other)
         return Summation(self, other)
 
     def __radd__(self, other):
@@ -63,6 +65,8 @@ class Function:
         raise NotImplementedError("- is not implemented.")
 
     def __mul__(self, other):
+        if isinstance(other, (int, float)):
+            other = ConstantFunction(other)
         return Multiplication(self, other)
 
     def __rmul__(self, other):
-- 
2.43.0


From f9aa163cdb99208a8cf644358eff00051815b008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:53 +0000
Subject: [PATCH 128/134] fix: the square root of x**2 was x also for negative
 x

---
 mass/mathstat/derivative.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/mathstat/derivative.py b/mass/mathstat/derivative.py
index b23d9a1..6d6a25a 100644
--- a/mass/mathstat/derivative.py
+++ b/mass/mathstat/derivative.py
@@ -192,7 +192,8 @@ class ExprMeta(type):
                 return ConstantFunction(a(b.v))
             elif isinstance(b, Identity):
                 return a
-            elif isinstance(a, PowerFunction) and isinstance(b, PowerFunction):
+            elif isinstance(a, PowerFunction) and isinstance(b, PowerFunction) and a.n == int(a.n):
+                # (for other exponents, the signs of x and of x**b.n may differ: the square root of x**2 isn't x)
                 return PowerFunction(a.n * b.n)
             elif isinstance(a, ExponentialFunction) and isinstance(b, LogFunction):
                 return Identity()
-- 
2.43.0


From 6c27903e038c2ae7534e0ec22fcfd2c3ef04a69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:53 +0000
Subject: [PATCH 129/134] fix: the variance (and covariance) of a
 Gaussian-process spline at a single point failed

---
 mass/mathstat/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/mathstat/interpolate.py b/mass/mathstat/interpolate.py
index d71d48f..d4315c9 100644
--- a/mass/mathstat/interpolate.py
+++ b/mass/mathstat/interpolate.py
@@ -343,7 +343,7 @@ class GPRSpline(CubicSpline):
         This equals the diagonal of `self.covariance(xtest)`, but for large test sets,
         this method computes only the diagonal and should therefore be faster."""
         v = []
-        for x in np.asarray(xtest):
+        for x in np.atleast_1d(xtest):
             Ktest = self.sigmaf**2 * k_spline(x, self.x)
             LinvKtest = np.linalg.solve(self.L, Ktest)
             cov_ftest = self.sigmaf**2 * k_spline(x, x) - (LinvKtest**2).sum()
-- 
2.43.0


From 66c5983e88939e25bf121aa23a1aa02fdd9c6137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:53 +0000
Subject: [PATCH 130/134] fix: a smoothing spline of integer abscissas failed

---
 mass/mathstat/interpolate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/mathstat/interpolate.py b/mass/mathstat/interpolate.py
index d4315c9..45fe11c 100644
--- a/mass/mathstat/interpolate.py
+++ b/mass/mathstat/interpolate.py
@@ -471,8 +471,8 @@ class SmoothingSpline:
             slope = np.poly1d(np.polyder(roughfit, 1))(x)
             err = np.sqrt((dx * slope)**2 + dy * dy)
 
-        self.x = np.array(x)
-        self.xscale = (x**2).mean()**0.5
+        self.x = np.array(x, dtype=float)
+        self.xscale = (self.x**2).mean()**0.5
         self.x /= self.xscale
         self.y = np.array(y)
         self.dx = np.array(dx) / self.xscale
-- 
2.43.0


From eaa06fdaa2062fd0dc1a25c6fb47de83b7ea45cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:53 +0000
Subject: [PATCH 131/134] fix: SmoothingSplineLog divided the caller's errors
 dx by x

---
 mass/mathstat/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/mathstat/interpolate.py b/mass/mathstat/interpolate.py
index 45fe11c..64a2f36 100644
--- a/mass/mathstat/interpolate.py
+++ b/mass/mathstat/interpolate.py
@@ -620,7 +620,7 @@ class SmoothingSplineLog:
         if np.any(x <= 0) or np.any(y <= 0):
             raise ValueError("The x and y data must all be positive to use a SmoothingSplineLog")
         if dx is not None:
-            dx /= x
+            dx = dx / x
         self.linear_model = SmoothingSpline(np.log(x), np.log(y), dy / y, dx, maxchisq=maxchisq)
 
     def __call__(self, x, der=0):
-- 
2.43.0


From 99fef3f21699e7565b6dc97bfc3f61950e7ca5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:53 +0000
Subject: [PATCH 132/134] fix: derivatives of a SmoothingSplineLog were
 exponentials of those of its logarithm

---
 mass/mathstat/interpolate.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mass/mathstat/interpolate.py b/mass/mathstat/interpolate.py
index 64a2f36..c4bb2f0 100644
--- a/mass/mathstat/interpolate.py
+++ b/mass/mathstat/interpolate.py
@@ -624,7 +624,15 @@ class SmoothingSplineLog:
         self.linear_model = SmoothingSpline(np.log(x), np.log(y), dy / y, dx, maxchisq=maxchisq)
 
     def __call__(self, x, der=0):
-        return np.exp(self.linear_model(np.log(x), der=der))
+        y = np.exp(self.linear_model(np.log(x)))
+        if der == 0:
+            return y
+        slope = self.linear_model(np.log(x), der=1)
+        if der == 1:
+            return y * slope / x
+        if der == 2:
+            return y * (slope**2 - slope + self.linear_model(np.log(x), der=2)) / np.asarray(x)**2
+        raise NotImplementedError("SmoothingSplineLog has derivatives of order 2 at most")
 
 
 class GPRSplineFunction(GPRSpline, Function):
-- 
2.43.0


From e7406fb5e30c54afa980f3aaa3c66c668bc8a9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:02 +0000
Subject: [PATCH 133/134] fix: the slope of a smoothing spline beyond its ends
 was its value there, if flat

---
 mass/mathstat/interpolate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/mathstat/interpolate.py b/mass/mathstat/interpolate.py
index c4bb2f0..d426a66 100644
--- a/mass/mathstat/interpolate.py
+++ b/mass/mathstat/interpolate.py
@@ -569,14 +569,14 @@ class SmoothingSpline:
             if der == 0:
                 splresult[low] = self.lowline(x[low] - self.x[0])
             elif der == 1:
-                splresult[low] = self.lowline.coeffs[0]
+                splresult[low] = self.lowline.deriv()(0)
             elif der >= 2:
                 splresult[low] = 0.0
         if np.any(high):
             if der == 0:
                 splresult[high] = self.highline(x[high] - self.x[-1])
             elif der == 1:
-                splresult[high] = self.highline.coeffs[0]
+                splresult[high] = self.highline.deriv()(0)
             elif der >= 2:
                 splresult[high] = 0.0
         if der > 0:
-- 
2.43.0


From 8b274b21061f7328b4166096751d524fbdab39f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:02 +0000
Subject: [PATCH 134/134] fix: a smoothing spline of integer errors failed

---
 mass/mathstat/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/mathstat/interpolate.py b/mass/mathstat/interpolate.py
index d426a66..c381619 100644
--- a/mass/mathstat/interpolate.py
+++ b/mass/mathstat/interpolate.py
@@ -464,7 +464,7 @@ class SmoothingSpline:
         constraint, then the actual chi-squared will be less than maxchisq.
         """
         if dx is None:
-            err = np.array(np.abs(dy))
+            err = np.array(np.abs(dy), dtype=float)
             dx = np.zeros_like(err)
         else:
             roughfit = np.polyfit(x, y, 2)
-- 
2.43.0

