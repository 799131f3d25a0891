From eab53d903cae70de408b3cf60aeee647dc26eb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:19 +0000
Subject: [PATCH 01/17] fix: compare segmentations that contain no boundaries

Without any boundary there were no boundary types, so boundary statistics
took the maximum of an empty set and the agreement coefficients divided by
zero potential boundaries. Fall back to the default boundary type, 1.
---
 segeval/similarity/distance/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/segeval/similarity/distance/__init__.py b/segeval/similarity/distance/__init__.py
index e85f478..32bd799 100644
--- a/segeval/similarity/distance/__init__.py
+++ b/segeval/similarity/distance/__init__.py
@@ -15,4 +15,5 @@ def identify_types(string_a, string_b):
         for position in string:
             for boundary_type in position:
                 boundary_types.add(boundary_type)
-    return frozenset(boundary_types)
+    # Without any boundary, segmentations use the default boundary type
+    return frozenset(boundary_types) if boundary_types else frozenset([1])
-- 
2.43.0


From 0f39d6b185c788b63f02f5e42a7678bbd3878930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:24 +0000
Subject: [PATCH 02/17] fix: WindowDiff of texts that are no longer than the
 window

It divided by zero or by a negative number of windows; like Pk, report 0
when no window fits.
---
 segeval/window/windowdiff.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/segeval/window/windowdiff.py b/segeval/window/windowdiff.py
index 35f8195..1554f63 100644
--- a/segeval/window/windowdiff.py
+++ b/segeval/window/windowdiff.py
@@ -101,7 +101,7 @@ length (%(ref)i is not %(hyp)i).' % {'ref': len(reference),
                                              lamprier_et_al_2007_fix)[0]
     # Slide window over and sum the number of varying windows
     sum_differences = 0
-    measurements = len(units_ref_hyp) - window_size
+    measurements = max(len(units_ref_hyp) - window_size, 0)
     for i in range(0, measurements):
         window = units_ref_hyp[i: i + window_size + 1]
         ref_boundaries = 0
@@ -122,10 +122,10 @@ length (%(ref)i is not %(hyp)i).' % {'ref': len(reference),
             sum_differences += 1
     # Perform final division
     n = sum(convert_positions_to_masses(reference))
-    denominator = n - window_size
+    denominator = max(n - window_size, 0)
     if lamprier_et_al_2007_fix:
         denominator = measurements + 1
-    win_diff = Decimal(sum_differences) / denominator
+    win_diff = Decimal(sum_differences) / denominator if denominator > 0 else Decimal(0)
     # Check normalization
     assert denominator == measurements or lamprier_et_al_2007_fix
     # Check value
-- 
2.43.0


From 1d4c75ddef481f910e097f672ee135e25e588da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:28 +0000
Subject: [PATCH 03/17] fix: list the coders of datasets read from TSV and JSON
 files

Their set of coders stayed empty, so that agreement could not be computed on
a dataset that was read from a file.
---
 segeval/data/jsonutils.py | 1 +
 segeval/data/tsv.py       | 1 +
 2 files changed, 2 insertions(+)

diff --git a/segeval/data/jsonutils.py b/segeval/data/jsonutils.py
index 3d79b0c..d5b5787 100644
--- a/segeval/data/jsonutils.py
+++ b/segeval/data/jsonutils.py
@@ -84,6 +84,7 @@ def input_linear_mass_json(filepath):
             dataset[item] = dict()
             for coder, masses in coder_masses.items():
                 dataset[item][coder] = tuple(masses)
+                dataset.coders.add(coder)
         # Remove from properties
         del dataset.properties[Field.items]
     else:
diff --git a/segeval/data/tsv.py b/segeval/data/tsv.py
index 5ebdcaf..944687d 100644
--- a/segeval/data/tsv.py
+++ b/segeval/data/tsv.py
@@ -44,6 +44,7 @@ def input_linear_mass_tsv(filepath, delimiter=DEFAULT_DELIMITER):
                     # Skip the first col
                     if j is 0:
                         coder = str(col)
+                        dataset.coders.add(coder)
                         dataset[item][coder] = list()
                     else:
                         dataset[item][coder].append(int(col))
-- 
2.43.0


From 7d9d3d24eb3658114c3ca5667194e1333e5c0c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:32 +0000
Subject: [PATCH 04/17] fix: compute similarities under unscaled weights as
 decimals

With only integer weights the quotient was a float, so that one_minus and
summarize failed with a TypeError.
---
 segeval/similarity/boundary.py     | 2 +-
 segeval/similarity/segmentation.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/segeval/similarity/boundary.py b/segeval/similarity/boundary.py
index 9d7b4ef..207eee7 100644
--- a/segeval/similarity/boundary.py
+++ b/segeval/similarity/boundary.py
@@ -29,7 +29,7 @@ def __boundary_similarity__(*args, **kwargs):
     if return_parts:
         return numerator, denominator, additions, substitutions, transpositions
     else:
-        value = numerator / denominator if denominator > 0 else 1
+        value = Decimal(numerator) / denominator if denominator > 0 else 1
         if one_minus:
             return Decimal('1') - value
         else:
diff --git a/segeval/similarity/segmentation.py b/segeval/similarity/segmentation.py
index b68a23a..298fa8d 100644
--- a/segeval/similarity/segmentation.py
+++ b/segeval/similarity/segmentation.py
@@ -30,7 +30,7 @@ def __segmentation_similarity__(*args, **kwargs):
     if return_parts:
         return numerator, denominator
     else:
-        value = numerator / denominator if denominator > 0 else 1
+        value = Decimal(numerator) / denominator if denominator > 0 else 1
         if one_minus:
             return Decimal('1') - value
         else:
-- 
2.43.0


From 8ae3245595ff96554fa35f1fb709391766b060f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:38 +0000
Subject: [PATCH 05/17] fix: count potential boundaries once in segmentation
 similarity

The potential boundaries in the statistics are already multiplied by the
number of boundary types.
---
 segeval/similarity/segmentation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segeval/similarity/segmentation.py b/segeval/similarity/segmentation.py
index 298fa8d..8dbe6ee 100644
--- a/segeval/similarity/segmentation.py
+++ b/segeval/similarity/segmentation.py
@@ -23,7 +23,7 @@ def __segmentation_similarity__(*args, **kwargs):
     # Compute
     statistics = __boundary_statistics__(*args, **metric_kwargs)
     # Process
-    pbs = statistics['pbs'] * len(statistics['boundary_types'])
+    pbs = statistics['pbs']
     # Fraction
     denominator = pbs
     numerator = pbs - statistics['count_edits']
-- 
2.43.0


From 95f3ab2a48779617b81921fccf6325f541b2131f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:12 +0000
Subject: [PATCH 06/17] fix: compare labels, types and counts by value

Comparing by identity miscounts equal labels that are different objects, e.g.
names read from a file, and divides by zero for a diagonal of Decimal(0).
---
 segeval/data/tsv.py                             | 4 ++--
 segeval/ml/__init__.py                          | 4 ++--
 segeval/similarity/distance/multipleboundary.py | 4 ++--
 segeval/window/pk.py                            | 6 +++---
 segeval/window/windowdiff.py                    | 8 ++++----
 5 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/segeval/data/tsv.py b/segeval/data/tsv.py
index 944687d..f682036 100644
--- a/segeval/data/tsv.py
+++ b/segeval/data/tsv.py
@@ -34,7 +34,7 @@ def input_linear_mass_tsv(filepath, delimiter=DEFAULT_DELIMITER):
         reader = csv.reader(csv_file, delimiter=delimiter)
         for i, row in enumerate(reader):
             # Read annotators from header
-            if i is 0:
+            if i == 0:
                 for col_name in row[1:]:
                     header.append(col_name)
             # Read data
@@ -42,7 +42,7 @@ def input_linear_mass_tsv(filepath, delimiter=DEFAULT_DELIMITER):
                 coder = None
                 for j, col in enumerate(row):
                     # Skip the first col
-                    if j is 0:
+                    if j == 0:
                         coder = str(col)
                         dataset.coders.add(coder)
                         dataset[item][coder] = list()
diff --git a/segeval/ml/__init__.py b/segeval/ml/__init__.py
index a1cb2f7..878578a 100644
--- a/segeval/ml/__init__.py
+++ b/segeval/ml/__init__.py
@@ -70,7 +70,7 @@ def __precision__(matrix, classification, return_parts=False):
     if return_parts:
         return numerator, denominator
     else:
-        if numerator is 0:
+        if numerator == 0:
             return Decimal(0)
         else:
             return Decimal(numerator) / Decimal(denominator)
@@ -86,7 +86,7 @@ def __recall__(matrix, classification, return_parts=False):
     if return_parts:
         return numerator, denominator
     else:
-        if numerator is 0:
+        if numerator == 0:
             return Decimal(0)
         else:
             return Decimal(numerator) / Decimal(denominator)
diff --git a/segeval/similarity/distance/multipleboundary.py b/segeval/similarity/distance/multipleboundary.py
index 2ed4ba7..a165f96 100644
--- a/segeval/similarity/distance/multipleboundary.py
+++ b/segeval/similarity/distance/multipleboundary.py
@@ -69,7 +69,7 @@ def __additions_substitutions_sets__(d, a, b):
     # Add from b
     for addition in b - set(substituted):
         added.append(Addition(addition, 'b'))
-    assert len(added) is len(additions)
+    assert len(added) == len(additions)
     return added, set([Substitution(a_i, b_i) for a_i, b_i in set(substitutions)])
 
 
@@ -103,7 +103,7 @@ def __overlaps_existing__(i, j, d, options_transp):
         if position in options_transp:
             for t in options_transp[position]:
                 # If the transposition 't' is of the boundary type 'd'
-                if t[2] is d:
+                if t[2] == d:
                     return True
     return check_position(i) or check_position(j)
 
diff --git a/segeval/window/pk.py b/segeval/window/pk.py
index d5d0ca5..474aefc 100644
--- a/segeval/window/pk.py
+++ b/segeval/window/pk.py
@@ -46,10 +46,10 @@ def __pk__(hypothesis, reference, window_size, one_minus, boundary_format,
         window_ref = reference[i:i + window_size + 1]
         window_hyp = hypothesis[i:i + window_size + 1]
         # Probe agreement
-        agree_ref = window_ref[0] is window_ref[-1]
-        agree_hyp = window_hyp[0] is window_hyp[-1]
+        agree_ref = window_ref[0] == window_ref[-1]
+        agree_hyp = window_hyp[0] == window_hyp[-1]
         # If the windows agreements agree
-        if agree_ref is not agree_hyp:
+        if agree_ref != agree_hyp:
             sum_differences += 1
         measurements += 1
     # Perform final division
diff --git a/segeval/window/windowdiff.py b/segeval/window/windowdiff.py
index 1554f63..48107d5 100644
--- a/segeval/window/windowdiff.py
+++ b/segeval/window/windowdiff.py
@@ -107,18 +107,18 @@ length (%(ref)i is not %(hyp)i).' % {'ref': len(reference),
         ref_boundaries = 0
         hyp_boundaries = 0
         # Check that the number of loops is correct
-        assert len(window) is window_size + 1
+        assert len(window) == window_size + 1
         # For pair in window
         for j in range(0, len(window) - 1):
             ref_part, hyp_part = zip(*window[j:j + 2])
             # Boundary exists in the reference segmentation
-            if ref_part[0] is not ref_part[1]:
+            if ref_part[0] != ref_part[1]:
                 ref_boundaries += 1
             # Boundary exists in the hypothesis segmentation
-            if hyp_part[0] is not hyp_part[1]:
+            if hyp_part[0] != hyp_part[1]:
                 hyp_boundaries += 1
         # If the number of boundaries per segmentation in the window differs
-        if ref_boundaries is not hyp_boundaries:
+        if ref_boundaries != hyp_boundaries:
             sum_differences += 1
     # Perform final division
     n = sum(convert_positions_to_masses(reference))
-- 
2.43.0


From 4546e6ed73d2cb7b03951bcffeca649db4c27df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:17 +0000
Subject: [PATCH 07/17] fix: return the parts of WindowDiff with one_minus, too

As the other metrics do.
---
 segeval/window/windowdiff.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/segeval/window/windowdiff.py b/segeval/window/windowdiff.py
index 48107d5..f53bb9c 100644
--- a/segeval/window/windowdiff.py
+++ b/segeval/window/windowdiff.py
@@ -130,13 +130,13 @@ length (%(ref)i is not %(hyp)i).' % {'ref': len(reference),
     assert denominator == measurements or lamprier_et_al_2007_fix
     # Check value
     assert win_diff <= 1
-    if not one_minus:
-        if return_parts:
-            return sum_differences, denominator
+    if return_parts:
+        return sum_differences, denominator
+    else:
+        if one_minus:
+            return Decimal('1.0') - win_diff
         else:
             return win_diff
-    else:
-        return Decimal('1.0') - win_diff
 
 
 def window_diff(*args, **kwargs):
-- 
2.43.0


From 6f5e06e00f26850acde537ba203513788aee02a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:22 +0000
Subject: [PATCH 08/17] fix: accept position lists in edge-corrected WindowDiff

Only tuples could be extended by the phantom units.
---
 segeval/window/windowdiff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segeval/window/windowdiff.py b/segeval/window/windowdiff.py
index f53bb9c..e883a82 100644
--- a/segeval/window/windowdiff.py
+++ b/segeval/window/windowdiff.py
@@ -33,8 +33,8 @@ def __create_paired_window__(hypothesis, reference, window_size,
         phantom_size = window_size
         phantom_size = 1 if phantom_size <= 0 else phantom_size
         phantom = tuple([0] * phantom_size)
-        units_ref_hyp = zip(phantom + reference + phantom,
-                            phantom + hypothesis + phantom)
+        units_ref_hyp = zip(phantom + tuple(reference) + phantom,
+                            phantom + tuple(hypothesis) + phantom)
     return list(units_ref_hyp), phantom_size
 
 
-- 
2.43.0


From b99d5aa0796def8a14ae72b43530d0cfad6796e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:26 +0000
Subject: [PATCH 09/17] fix: compute the window size of datasets in position
 format

The labels of the dataset itself were converted instead of those of each
segmentation.
---
 segeval/window/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segeval/window/__init__.py b/segeval/window/__init__.py
index be26b63..b28eea3 100644
--- a/segeval/window/__init__.py
+++ b/segeval/window/__init__.py
@@ -40,13 +40,13 @@ def __compute_window_size__(reference, fnc_round, boundary_format):
         if hasattr(inner_coder_masses, 'items'):
             for cur_inner_coder_masses in inner_coder_masses.values():
                 __list_coder_masses__(cur_inner_coder_masses)
+        elif boundary_format == BoundaryFormat.position:
+            all_masses.extend(convert_positions_to_masses(inner_coder_masses))
         elif hasattr(inner_coder_masses, '__iter__') and not isinstance(inner_coder_masses, str):
             all_masses.extend(inner_coder_masses)
         else:
             raise SegmentationMetricError('Expected either a dict-like \
 collection of segmentations or a segmentation as a list-like object')
-    if boundary_format == BoundaryFormat.position:
-        reference = convert_positions_to_masses(reference)
     # Recurse and list all masses
     __list_coder_masses__(reference)
     # Convert to floats
-- 
2.43.0


From 6a39902a873d6e29034fbde03b294d75150aecdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:07 +0000
Subject: [PATCH 10/17] fix: compare the boundary formats of datasets by value

Equal formats held by different string objects were rejected.
---
 segeval/util/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segeval/util/__init__.py b/segeval/util/__init__.py
index 12efe7d..1330599 100644
--- a/segeval/util/__init__.py
+++ b/segeval/util/__init__.py
@@ -70,7 +70,7 @@ def __fnc_metric__(fnc_metric, args, kwargs, kw_defaults):
         if isinstance(hypothesis, Dataset) and isinstance(reference, Dataset):
             # Compare pairwise values between coders paired from two datasets
             metric_kwargs['boundary_format'] = hypothesis.boundary_format
-            if hypothesis.boundary_format is not reference.boundary_format:
+            if hypothesis.boundary_format != reference.boundary_format:
                 raise SegmentationMetricError(
                     'Datasets contain differing boundary formats; {0} != {1}'
                     .format(hypothesis.boundary_format, reference.boundary_format))
-- 
2.43.0


From eae2b1ea60e99e83326a98da6bcbdfbb1ec6742a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:12 +0000
Subject: [PATCH 11/17] fix: allow summarize to be imported first

Importing segeval.compute imported segeval.util, which imported names from
the half-initialised segeval.compute.
---
 segeval/util/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segeval/util/__init__.py b/segeval/util/__init__.py
index 1330599..1ee0b89 100644
--- a/segeval/util/__init__.py
+++ b/segeval/util/__init__.py
@@ -4,7 +4,6 @@ Utility functions and classes for the package.
 .. moduleauthor:: Chris Fournier <chris.m.fournier@gmail.com>
 '''
 from __future__ import absolute_import
-from segeval.compute import compute_pairwise_values
 
 
 class SegmentationMetricError(Exception):
@@ -31,6 +30,7 @@ class SegmentationMetricError(Exception):
 def __fnc_metric__(fnc_metric, args, kwargs, kw_defaults):
 
     from segeval.data import Dataset
+    from segeval.compute import compute_pairwise_values
     # Create default keyword arguments
     metric_kwargs = dict(kw_defaults)
     metric_kwargs.update(kwargs)
-- 
2.43.0


From e60483a5f8ace42f396e2dc51af3ac357f5825d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:16 +0000
Subject: [PATCH 12/17] fix: load data files of one folder that differ in their
 extension only

For a.tsv and a.csv, or a.json and a.JSON, only one of the files was read.
---
 segeval/data/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segeval/data/__init__.py b/segeval/data/__init__.py
index 65b8ec1..553f9fe 100644
--- a/segeval/data/__init__.py
+++ b/segeval/data/__init__.py
@@ -168,7 +168,7 @@ def load_nested_folders_dict(containing_dir, filetype, dataset=None,
             dirs[name] = path
         # Found a file
         else:
-            name, ext = os.path.splitext(name)
+            ext = os.path.splitext(name)[1]
             if len(ext) > 0 and ext.lower() in allowable_extensions:
                 files[name] = path
                 datafile_found = True
-- 
2.43.0


From e2cd7f18a5c0d9fd405dfc44ba7f1b8947f3face Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:20 +0000
Subject: [PATCH 13/17] fix: do not share codings between a sum of datasets and
 its operands

The codings of the second operand were put into the sum as they are, so that
changing a list of masses of the sum changed the operand.
---
 segeval/data/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segeval/data/__init__.py b/segeval/data/__init__.py
index 553f9fe..05f1fe3 100644
--- a/segeval/data/__init__.py
+++ b/segeval/data/__init__.py
@@ -84,7 +84,7 @@ class Dataset(defaultdict):
         Copy this dataset and add the other dataset to it.
         '''
         dataset = self.copy()
-        dataset += other
+        dataset += copy.deepcopy(other)
         return dataset
 
     def copy(self):
-- 
2.43.0


From 728d7fda1da42d67c998a2469df76982f95014d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:45 +0000
Subject: [PATCH 14/17] fix: compute agreement on datasets without any boundary

The coders agree completely, but boundary similarity then has nothing to
count, and the pooled value was a division by zero.
---
 segeval/agreement/__init__.py | 12 +++++++++++-
 segeval/agreement/kappa.py    |  5 +++--
 segeval/agreement/pi.py       |  5 +++--
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/segeval/agreement/__init__.py b/segeval/agreement/__init__.py
index e120173..5e35511 100644
--- a/segeval/agreement/__init__.py
+++ b/segeval/agreement/__init__.py
@@ -4,6 +4,7 @@ Inter-coder agreement statistics.
 .. moduleauthor:: Chris Fournier <chris.m.fournier@gmail.com>
 '''
 from __future__ import absolute_import, division
+from decimal import Decimal
 from segeval.data import get_coders
 from segeval.similarity import SIMILARITY_METRIC_DEFAULTS
 from segeval.similarity.boundary import boundary_similarity
@@ -77,6 +78,15 @@ def __boundaries__(segmentation, **kwargs):
     return sum([len(position) for position in boundary_string])
 
 
+def __overall_agreement__(numerators, denominators):
+    '''
+    Pool similarity numerators and denominators; coders that placed no
+    boundaries at all agree completely, as in boundary similarity.
+    '''
+    denominator = sum(denominators)
+    return Decimal(sum(numerators)) / denominator if denominator > 0 else Decimal(1)
+
+
 def __actual_agreement_linear__(dataset, **kwargs):
     '''
     Calculate actual (i.e., observed or :math:`\\text{A}_a`), segmentation
@@ -172,7 +182,7 @@ def __actual_agreement_linear__(dataset, **kwargs):
     if return_parts:
         return all_numerators, all_denominators, all_pbs, coders_boundaries
     else:
-        return sum(all_numerators) / sum(all_denominators)
+        return __overall_agreement__(all_numerators, all_denominators)
 
 
 def actual_agreement_linear(dataset, **kwargs):
diff --git a/segeval/agreement/kappa.py b/segeval/agreement/kappa.py
index fd1f858..e0d3d76 100644
--- a/segeval/agreement/kappa.py
+++ b/segeval/agreement/kappa.py
@@ -5,7 +5,8 @@ Inter-coder agreement statistic Fleiss' Kappa.
 '''
 from __future__ import absolute_import, division
 from decimal import Decimal
-from segeval.agreement import __fnc_metric__, __actual_agreement_linear__
+from segeval.agreement import (__fnc_metric__, __actual_agreement_linear__,
+                               __overall_agreement__)
 
 
 def __fleiss_kappa_linear__(dataset, **kwargs):
@@ -29,7 +30,7 @@ def __fleiss_kappa_linear__(dataset, **kwargs):
     all_numerators, all_denominators, _, coders_boundaries = \
         __actual_agreement_linear__(dataset, **metric_kwargs)
     # Calculate Aa
-    A_a = Decimal(sum(all_numerators)) / sum(all_denominators)
+    A_a = __overall_agreement__(all_numerators, all_denominators)
     # Calculate Ae
     coders = list(coders_boundaries.keys())
     P_segs = list()
diff --git a/segeval/agreement/pi.py b/segeval/agreement/pi.py
index 791b31b..6b1d96e 100644
--- a/segeval/agreement/pi.py
+++ b/segeval/agreement/pi.py
@@ -5,7 +5,8 @@ Inter-coder agreement statistic Fleiss' Pi.
 '''
 from __future__ import absolute_import, division
 from decimal import Decimal
-from segeval.agreement import __fnc_metric__, __actual_agreement_linear__
+from segeval.agreement import (__fnc_metric__, __actual_agreement_linear__,
+                               __overall_agreement__)
 
 
 def __fleiss_pi_linear__(dataset, **kwargs):
@@ -26,7 +27,7 @@ def __fleiss_pi_linear__(dataset, **kwargs):
     all_numerators, all_denominators, _, coders_boundaries = \
         __actual_agreement_linear__(dataset, **metric_kwargs)
     # Calculate Aa
-    A_a = Decimal(sum(all_numerators)) / sum(all_denominators)
+    A_a = __overall_agreement__(all_numerators, all_denominators)
     # Calculate Ae
     p_e_segs = list()
     for boundaries_info in coders_boundaries.values():
-- 
2.43.0


From b4c138301f74aaf03fdbe603462637c14adbe456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:52 +0000
Subject: [PATCH 15/17] fix: return the parts of pi and kappa when agreement is
 fully expected

---
 segeval/agreement/kappa.py | 6 ++----
 segeval/agreement/pi.py    | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/segeval/agreement/kappa.py b/segeval/agreement/kappa.py
index e0d3d76..aa82d06 100644
--- a/segeval/agreement/kappa.py
+++ b/segeval/agreement/kappa.py
@@ -48,13 +48,11 @@ def __fleiss_kappa_linear__(dataset, **kwargs):
                           (Decimal(boundaries_n) / total_boundaries_n))
     P_seg = Decimal(sum(P_segs)) / len(P_segs)
     A_e = P_seg
-    # Calculate pi
-    kappa = (A_a - A_e) / (Decimal('1') - A_e)
     # Return
     if return_parts:
         return A_a, A_e
-    else:
-        return kappa
+    # Calculate kappa
+    return (A_a - A_e) / (Decimal('1') - A_e)
 
 
 def fleiss_kappa_linear(dataset, **kwargs):
diff --git a/segeval/agreement/pi.py b/segeval/agreement/pi.py
index 6b1d96e..ae8896d 100644
--- a/segeval/agreement/pi.py
+++ b/segeval/agreement/pi.py
@@ -38,13 +38,11 @@ def __fleiss_pi_linear__(dataset, **kwargs):
     # Calculate P_e_seg
     P_e_seg = Decimal(sum(p_e_segs)) / len(p_e_segs)
     A_e = (P_e_seg ** 2)
-    # Calculate pi
-    pi = (A_a - A_e) / (Decimal('1') - A_e)
     # Return
     if return_parts:
         return A_a, A_e
-    else:
-        return pi
+    # Calculate pi
+    return (A_a - A_e) / (Decimal('1') - A_e)
 
 
 def fleiss_pi_linear(dataset, **kwargs):
-- 
2.43.0


From 976fe1fde6aacf0030dd6f7a2c0618f0f5110ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:07 +0000
Subject: [PATCH 16/17] fix: tell phantom units from units labelled 0 in
 WindowDiff

---
 segeval/window/windowdiff.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/segeval/window/windowdiff.py b/segeval/window/windowdiff.py
index e883a82..899e57a 100644
--- a/segeval/window/windowdiff.py
+++ b/segeval/window/windowdiff.py
@@ -32,7 +32,8 @@ def __create_paired_window__(hypothesis, reference, window_size,
     else:
         phantom_size = window_size
         phantom_size = 1 if phantom_size <= 0 else phantom_size
-        phantom = tuple([0] * phantom_size)
+        # A label that differs from every label of a segmentation
+        phantom = tuple([object()] * phantom_size)
         units_ref_hyp = zip(phantom + tuple(reference) + phantom,
                             phantom + tuple(hypothesis) + phantom)
     return list(units_ref_hyp), phantom_size
-- 
2.43.0


From c8cc6be7951c4f03e9d72275305b97d14109009c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:23 +0000
Subject: [PATCH 17/17] fix: reject delimited files that code a coder twice

---
 segeval/data/tsv.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/segeval/data/tsv.py b/segeval/data/tsv.py
index f682036..ddb356e 100644
--- a/segeval/data/tsv.py
+++ b/segeval/data/tsv.py
@@ -22,7 +22,7 @@ def input_linear_mass_tsv(filepath, delimiter=DEFAULT_DELIMITER):
     :type delimiter: str
     '''
 
-    from segeval.data import Dataset, name_from_filepath
+    from segeval.data import Dataset, DataIOError, name_from_filepath
     # List version of file
     header = []
     dataset = Dataset()
@@ -44,6 +44,9 @@ def input_linear_mass_tsv(filepath, delimiter=DEFAULT_DELIMITER):
                     # Skip the first col
                     if j == 0:
                         coder = str(col)
+                        if coder in dataset[item]:
+                            raise DataIOError('Duplicate coders of same name \
+%(coder)s found in file %(file)s' % {'coder': coder, 'file': filepath})
                         dataset.coders.add(coder)
                         dataset[item][coder] = list()
                     else:
-- 
2.43.0

