From d7d8acb52292978dfacfe60eb650971da65b44b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:05 +0000
Subject: [PATCH 01/82] fix: LCM drops itemsets whose relative support equals
 min_supp because of float rounding

---
 skmine/itemsets/lcm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skmine/itemsets/lcm.py b/skmine/itemsets/lcm.py
index ef198f7..bb87773 100644
--- a/skmine/itemsets/lcm.py
+++ b/skmine/itemsets/lcm.py
@@ -119,7 +119,8 @@ class LCM(TransformerMixin, BaseEstimator):
 
         _check_min_supp(self.min_supp)
         if isinstance(self.min_supp, float):  # make support absolute if needed
-            self.min_supp_ = self.min_supp * n_transactions_
+            # rounding absorbs the floating point error of the product, e.g. 0.28 * 25 = 7.000000000000001
+            self.min_supp_ = round(self.min_supp * n_transactions_, 9)
         else:
             self.min_supp_ = self.min_supp
 
-- 
2.43.0


From abca7f790789901ceb28d7a6eefab288364c4135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:28 +0000
Subject: [PATCH 02/82] fix: LCM file output deletes a TEMP_dir of the user and
 races with other runs in the same directory

---
 skmine/itemsets/lcm.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/skmine/itemsets/lcm.py b/skmine/itemsets/lcm.py
index bb87773..69a0ea3 100644
--- a/skmine/itemsets/lcm.py
+++ b/skmine/itemsets/lcm.py
@@ -13,6 +13,7 @@ as described in `http://lig-membres.imag.fr/termier/HLCM/hlcm.pdf`
 
 import os
 import shutil
+import tempfile
 from collections import defaultdict
 from itertools import takewhile
 
@@ -165,7 +166,7 @@ class LCM(TransformerMixin, BaseEstimator):
         out : str, default=None
             File where results are written. Discover return None. The 'out' option is usefull 
             to save memory : Instead of store all branch of lcm-tree in memory , each root 
-            branch of lcm is written in a separated file in dir (TEMP_dir), and all files are
+            branch of lcm is written in a separated file in a temporary dir, and all files are
             concatenated in the final 'out' file.
 
         Returns
@@ -219,10 +220,8 @@ class LCM(TransformerMixin, BaseEstimator):
             return df
 
         else:  # store results in files
-            temp_dir = 'TEMP_dir'  # temporary dir where root items branch files are written
-            if os.path.exists(temp_dir):  # remove dir TEMP_dir if it exists
-                shutil.rmtree(temp_dir)
-            os.mkdir(temp_dir)  # create dir TEMP_dir
+            # private temporary dir where root items branch files are written
+            temp_dir = tempfile.mkdtemp(prefix='lcm_')
 
             Parallel(n_jobs=self.n_jobs, prefer="processes")(
                 delayed(self._explore_root)(item, tids, root_file=f"{temp_dir}/root{k}.dat")
-- 
2.43.0


From 457cfadf65d49b2d445ee5e4d01faa8c9c970d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:22 +0000
Subject: [PATCH 03/82] fix: LCMMax.transform ignores its positional options

---
 skmine/itemsets/lcm.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/skmine/itemsets/lcm.py b/skmine/itemsets/lcm.py
index 69a0ea3..e8671d3 100644
--- a/skmine/itemsets/lcm.py
+++ b/skmine/itemsets/lcm.py
@@ -355,10 +355,9 @@ class LCMMax(LCM, TransformerMixin):
                 else:
                     yield itemset, len(tids), tids
 
-    def transform(self, X=None, *args, **kwargs):
-        outfile = kwargs.get('out')
-        kwargs['out'] = None
-        patterns = super().transform(X, **kwargs)
+    def transform(self, X=None, return_tids=False, lexicographic_order=True, max_length=-1, out=None):
+        outfile = out
+        patterns = super().transform(X, return_tids, lexicographic_order, max_length)
         # keep only maximal itemsets
         maximals = filter_maximal(patterns["itemset"])
         patterns = patterns[patterns.itemset.isin(maximals)].copy()
-- 
2.43.0


From 82c535ce2ca0cd20c2cc3759506727925276e528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:00 +0000
Subject: [PATCH 04/82] fix: LCMMax raises KeyError with max_length when no
 itemset is frequent

---
 skmine/itemsets/lcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/lcm.py b/skmine/itemsets/lcm.py
index e8671d3..3db47a1 100644
--- a/skmine/itemsets/lcm.py
+++ b/skmine/itemsets/lcm.py
@@ -365,7 +365,7 @@ class LCMMax(LCM, TransformerMixin):
         # keeps only itemsets smaller than max_length
         if self.max_length_ != -1:
             length_mask = patterns.itemset.apply(lambda x: len(x) <= self.max_length_)
-            patterns = patterns[length_mask]
+            patterns = patterns[length_mask.astype(bool)]
             patterns.reset_index(drop=True, inplace=True)
 
         # return a list of itemset sorted or not
-- 
2.43.0


From c80ce06af01c45741542bfd85b7c217ddf03e52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:38 +0000
Subject: [PATCH 05/82] fix: SLIM.reconstruct loses the empty transactions at
 the end of the data

---
 skmine/itemsets/slim.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 729af50..4e24454 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -578,9 +578,7 @@ class SLIM(BaseEstimator, TransformerMixin):
         pd.Series
             original database containing a list of transactions
         """
-        n_transactions = (max(map(Bitmap.max, filter(lambda e: e, self.codetable_.values()))) + 1)
-
-        D = pd.Series([set()] * n_transactions)
+        D = pd.Series([set()] * self.n_transactions_)
         for itemset, tids in self.codetable_.items():
             D.iloc[list(tids)] = D.iloc[list(tids)].map(itemset.union)
         return D.map(sorted)
@@ -632,9 +630,10 @@ class SLIM(BaseEstimator, TransformerMixin):
             if y is not None:
                 D = supervised_to_unsupervised(D, y)  # SKLEARN_COMPAT
             item_to_tids = {k: Bitmap(np.where(D[k])[0]) for k in D.columns}
+            self.n_transactions_ = len(D)
         else:
             # compute tids for each item in Bitmap
-            item_to_tids = _to_vertical(D)
+            item_to_tids, self.n_transactions_ = _to_vertical(D, return_len=True)
 
         sct = pd.Series(item_to_tids)  # sct for "standard code table"
         # The usage of an itemset X ∈ CT (Code Table) is the number of transactions t ∈ D which have X in their cover.
-- 
2.43.0


From e4705480248c24b860248afc4a008f7fb01fd0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:38 +0000
Subject: [PATCH 06/82] fix: SLIM cannot write itemsets of non-string items to
 a file

---
 skmine/itemsets/slim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 4e24454..8633c4d 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -542,7 +542,7 @@ class SLIM(BaseEstimator, TransformerMixin):
         if self.out_ is not None:
             with open(self.out_, 'w') as f:
                 for i, (itemset, usage) in enumerate(zip(itemsets, iusages)):
-                    line = "(" + str(usage) + ") " + " ".join(itemset) + "\n"
+                    line = "(" + str(usage) + ") " + " ".join(map(str, itemset)) + "\n"
                     if self.return_tids_:
                         line += " ".join(map(str, itids[i])) + "\n"
                     f.write(line)
-- 
2.43.0


From cb54c287cf6f3e6ee0954ce7ca8fdce92f6edcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:38 +0000
Subject: [PATCH 07/82] fix: SLIM reuses the supports of previous data when
 fitted again

---
 skmine/itemsets/slim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 8633c4d..082ff8c 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -656,6 +656,8 @@ class SLIM(BaseEstimator, TransformerMixin):
         # Convert Standard Codetable pandas.Series in list of (frozenset({.}), Bitmap({...}),...)
         ct_it = ((frozenset([e]), tids) for e, tids in self.standard_codetable_.items())
 
+        self.get_support.cache_clear()  # supports cached for previously fitted data are no longer valid
+
         # Sort Standard Codetable in standard_cover_order
         self.codetable_ = SortedDict(self._standard_cover_order, ct_it)
 
-- 
2.43.0


From a25804defc58815da8ca08da4363eff976585978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:38 +0000
Subject: [PATCH 08/82] fix: SLIM standard cover order depends on set iteration
 order instead of being lexicographic

---
 skmine/itemsets/slim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 082ff8c..4843eae 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -607,7 +607,7 @@ class SLIM(BaseEstimator, TransformerMixin):
         so that many itemsets can be sorted in Standard Cover Order :
         |X|↓ supp_D(X) ↓ lexicographically ↑
         """
-        return -len(itemset), -len(self.get_support(*itemset)), tuple(itemset)
+        return -len(itemset), -len(self.get_support(*itemset)), tuple(sorted(itemset))
 
     def prefit(self, D, y=None):  # -> self
         """
-- 
2.43.0


From 2a28e3e1391d7ad1eb0fcde6fbffedc3a5bdcdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:38 +0000
Subject: [PATCH 09/82] fix: SLIM loses data when evaluating an itemset which
 is already in the codetable

---
 skmine/itemsets/slim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 4843eae..d272156 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -388,7 +388,8 @@ class SLIM(BaseEstimator, TransformerMixin):
         # Get the id (``idx``) of the insertion of ``candidate`` in codetable w.r.t the standard cover order
         idx = self.codetable_.bisect(candidate)
         ct = list(self.codetable_)
-        ct.insert(idx, candidate)  # Insert the candidate to the CT w.r.t the usage order
+        if candidate not in self.codetable_:  # covering twice with the same itemset would lose its usage
+            ct.insert(idx, candidate)  # Insert the candidate to the CT w.r.t the usage order
         D = {k: v.copy() for k, v in self.standard_codetable_.items()}
         # Get the cover a standard codetable D with CT itemsets
         CTc = cover(D, ct)  # CTc is sorted in Standard Cover Order like D
-- 
2.43.0


From 39e2a21075e575523e2784311d96f045a568901e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:28 +0000
Subject: [PATCH 10/82] fix: SLIM.fit rejects tabular data given as a DataFrame
 of booleans

---
 skmine/itemsets/slim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index d272156..09f7901 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -164,7 +164,7 @@ class SLIM(BaseEstimator, TransformerMixin):
             self.classes_ = np.unique(y)
 
         self._validate_data(X, force_all_finite=False, accept_sparse=False, ensure_2d=False,
-                            ensure_min_samples=1, dtype=list)
+                            ensure_min_samples=1, dtype=object)
         self.n_features_in_ = X.shape[-1] if not isinstance(X, list) else len(X[-1])
         # TODO : significant for one-hot D, not for list of itemset
         start = time.time()
-- 
2.43.0


From 841f1c320c81fcb7125aa300db5f8d17d6621130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:02 +0000
Subject: [PATCH 11/82] fix: SlimClassifier ignores its pruning parameter

---
 skmine/itemsets/slim_classifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim_classifier.py b/skmine/itemsets/slim_classifier.py
index 5c32764..2903443 100644
--- a/skmine/itemsets/slim_classifier.py
+++ b/skmine/itemsets/slim_classifier.py
@@ -69,7 +69,7 @@ class SlimClassifier(BaseEstimator, ClassifierMixin):
         for c in self.classes_:
             transactions_classes = [transaction for transaction, target in zip(X, y) if target == c]
             self.classes_X_.append(transactions_classes)
-            self.models_.append(SLIM(items=self.items))
+            self.models_.append(SLIM(items=self.items, pruning=self.pruning))
 
         for model, data in zip(self.models_, self.classes_X_):
             model.fit(data)
-- 
2.43.0


From 9bcffb6292cc611b898f7b2bf812ea92ae627b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:01 +0000
Subject: [PATCH 12/82] fix: SlimClassifier predicts the first class for
 transactions with long codes

---
 skmine/itemsets/slim_classifier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim_classifier.py b/skmine/itemsets/slim_classifier.py
index 2903443..0e58aa8 100644
--- a/skmine/itemsets/slim_classifier.py
+++ b/skmine/itemsets/slim_classifier.py
@@ -89,7 +89,8 @@ class SlimClassifier(BaseEstimator, ClassifierMixin):
             Class labels for samples in X
         """
         check_is_fitted(self, "classes_")
-        self.models_scores = np.vstack([model.decision_function(X).values for model in self.models_]).T
+        # compare the code lengths themselves: decision_function underflows to 0 for every class on long transactions
+        self.models_scores = np.vstack([-model.get_code_length(X).values for model in self.models_]).T
 
         return self.classes_[self.models_scores.argmax(axis=1)]
 
-- 
2.43.0


From 194766a422bfdc6aea37d1e165d843ae7483ebcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:16 +0000
Subject: [PATCH 13/82] fix: SLIMVectorizer.fit fails as soon as stop_items is
 given

---
 skmine/feature_extraction/slim_vectorizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/feature_extraction/slim_vectorizer.py b/skmine/feature_extraction/slim_vectorizer.py
index 4c4ef0d..f7c0feb 100644
--- a/skmine/feature_extraction/slim_vectorizer.py
+++ b/skmine/feature_extraction/slim_vectorizer.py
@@ -81,7 +81,7 @@ class SLIMVectorizer(SLIM):
 
     def fit(self, D, y=None):
         if self.stop_items is not None:
-            D = _filter_stop_items(D, stop_items=self.stop_items)
+            D = list(_filter_stop_items(D, stop_items=self.stop_items))
         return super().fit(D)
 
     def transform(self, newD, y=None, **tsf_params) -> pd.DataFrame:
-- 
2.43.0


From 0f80109f4fb89072dbacc4a03b85e568abdb99d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:26 +0000
Subject: [PATCH 14/82] fix: MBDLLBorder.discover outputs itemsets which are
 not emerging

Itemsets between the borders are the supersets of some element of the left
border: not being included in one of them is not enough, and with an empty
left border there is nothing to discover.
---
 skmine/emerging/mbdldorber.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/skmine/emerging/mbdldorber.py b/skmine/emerging/mbdldorber.py
index 818ae51..fa0e0d7 100644
--- a/skmine/emerging/mbdldorber.py
+++ b/skmine/emerging/mbdldorber.py
@@ -90,14 +90,13 @@ def borders_to_patterns(left, right, min_size=None):
     -------
     pd.Series
     """
-    min_size = min_size or min(map(len, left))
+    min_size = min_size or min(map(len, left), default=1)
     patterns = list()
     for size in range(len(right) - 1, min_size - 1, -1):  # bigger patterns first
         combs = combinations(right, size)
         for pat in combs:
-            if any((e.issuperset(set(pat)) for e in left)):
-                continue
-            patterns.append(pat)
+            if any((e < set(pat) for e in left)):
+                patterns.append(pat)
 
     return pd.Series(patterns)
 
@@ -137,7 +136,7 @@ class MBDLLBorder(BaseMiner, DiscovererMixin):
     borders_: list of tuple[list[set], set]
         List of pairs representing left and right borders
         For every pair, emerging patterns will be uncovered by enumerating itemsets
-        from the right side, while checking for non membership in the left side
+        from the right side, while checking that they contain an itemset from the left side
 
 
     References
@@ -193,8 +192,8 @@ class MBDLLBorder(BaseMiner, DiscovererMixin):
     def discover(self, min_size=3):
         """
         Enumerate emerging patterns from borders
-        Subsets are drawn from the right borders, and are accepted iff
-        they do not belong to the corresponding left border.
+        Proper subsets are drawn from the right borders, and are accepted iff
+        they properly contain an itemset of the corresponding left border.
 
         This implementation is parallel, we consider every couple
         of right/left border in a separate worker and run the computation
-- 
2.43.0


From cd54c41ceda695bd87015388930adadfe0342e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:29 +0000
Subject: [PATCH 15/82] fix: MBDLLBorder.fit fails when no itemset is frequent
 in the first collection

---
 skmine/emerging/mbdldorber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/emerging/mbdldorber.py b/skmine/emerging/mbdldorber.py
index fa0e0d7..e883003 100644
--- a/skmine/emerging/mbdldorber.py
+++ b/skmine/emerging/mbdldorber.py
@@ -39,7 +39,7 @@ def border_diff(U, S):
     See ``BORDER-DIFF`` in section 4.1
     """
     # assert len(R1) < len(U)  # assert we iterate on the smallest ensemble
-    L2 = [{x} for x in U - S[0]]
+    L2 = [{x} for x in (U - S[0] if S else U)]
     for i in range(1, len(S)):
         _L2 = [X | {x} for x in U - S[i] for X in L2]
         L2 = list(filter_minimal(_L2))
-- 
2.43.0


From c86c10219f4628c1c8e3de552e961d5dbf535bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:33 +0000
Subject: [PATCH 16/82] fix: MBDLLBorder.fit rejects targets given as a list

---
 skmine/emerging/mbdldorber.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skmine/emerging/mbdldorber.py b/skmine/emerging/mbdldorber.py
index e883003..3ea1c84 100644
--- a/skmine/emerging/mbdldorber.py
+++ b/skmine/emerging/mbdldorber.py
@@ -172,6 +172,7 @@ class MBDLLBorder(BaseMiner, DiscovererMixin):
             Must contain only two disctinct values, i.e len(np.unique(y)) == 2
         """
 
+        y = np.asarray(y)
         labels = np.unique(y)
         assert len(labels) == 2
         assert isinstance(D, pd.Series)  # TODO : accept tabular data
-- 
2.43.0


From 84dbc16cf1985bdaba4678e06b88a9ef0a5d1554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:09 +0000
Subject: [PATCH 17/82] fix: filter_minimal keeps every copy of an itemset, so
 MBDLLBorder.fit takes exponential time

---
 skmine/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/utils.py b/skmine/utils.py
index 7e1ac89..f923792 100644
--- a/skmine/utils.py
+++ b/skmine/utils.py
@@ -83,7 +83,7 @@ def filter_minimal(itemsets):
     for iset in itemsets:
         lts = minimals.irange(None, iset)
         # is there a subset amongst the smaller itemsets ?
-        if not any(map(lambda e: e < iset, lts)):
+        if not any(map(lambda e: e <= iset, lts)):
             minimals.add(iset)
 
     return minimals
-- 
2.43.0


From 21505729928b04791cdcb368f9163b3eb7dd87ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:32 +0000
Subject: [PATCH 18/82] fix: MDLPDiscretizer.transform applies the cut points
 of other columns when columns are reordered

---
 skmine/preprocessing/mdlp_discretizer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/skmine/preprocessing/mdlp_discretizer.py b/skmine/preprocessing/mdlp_discretizer.py
index 468e419..b172226 100644
--- a/skmine/preprocessing/mdlp_discretizer.py
+++ b/skmine/preprocessing/mdlp_discretizer.py
@@ -240,11 +240,16 @@ class MDLPDiscretizer(BaseMiner):
 
         if isinstance(X, pd.DataFrame) and not set(self.cut_points_) == set(X.columns):
             raise ValueError(f"X columns should be {self.cut_points_.keys()}")
-        _X = X.values if isinstance(X, pd.DataFrame) else X
+        if isinstance(X, pd.DataFrame):
+            _X = X.values
+            all_cut_points = [self.cut_points_[col] for col in X.columns]
+        else:
+            _X = X
+            all_cut_points = list(self.cut_points_.values())
 
         vects = Parallel(n_jobs=self.n_jobs, prefer="threads")(
             delayed(np.searchsorted)(cut_points, _X[:, idx])
-            for idx, cut_points in enumerate(self.cut_points_.values())
+            for idx, cut_points in enumerate(all_cut_points)
         )
 
         vects = [v.reshape(len(v), 1) for v in vects]
-- 
2.43.0


From a495f6340a7948ab46eb939076b97fd41a535c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:37 +0000
Subject: [PATCH 19/82] fix: MDLPDiscretizer.transform loses the index of
 DataFrames

---
 skmine/preprocessing/mdlp_discretizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/preprocessing/mdlp_discretizer.py b/skmine/preprocessing/mdlp_discretizer.py
index b172226..f2682f0 100644
--- a/skmine/preprocessing/mdlp_discretizer.py
+++ b/skmine/preprocessing/mdlp_discretizer.py
@@ -256,7 +256,7 @@ class MDLPDiscretizer(BaseMiner):
         _X = np.concatenate(vects, axis=1)
 
         if isinstance(X, pd.DataFrame):
-            _X = pd.DataFrame(_X, columns=X.columns)
+            _X = pd.DataFrame(_X, index=X.index, columns=X.columns)
 
         return _X
 
-- 
2.43.0


From 6905d4f72a7bb801c50b20dfa24066072e80fdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:42 +0000
Subject: [PATCH 20/82] fix: MDLPDiscretizer cut points overflow on small
 integer types

---
 skmine/preprocessing/mdlp_discretizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skmine/preprocessing/mdlp_discretizer.py b/skmine/preprocessing/mdlp_discretizer.py
index f2682f0..227b579 100644
--- a/skmine/preprocessing/mdlp_discretizer.py
+++ b/skmine/preprocessing/mdlp_discretizer.py
@@ -122,8 +122,8 @@ class MDLPVectDiscretizer(MDLOptimizer):
 
             is_better = self.evaluate(y, start, end, k)
             if k == -1 or not is_better:
-                front = -np.inf if start == 0 else (X[start - 1] + X[start]) / 2
-                back = np.inf if end == len(X) else (X[end - 1] + X[end]) / 2
+                front = -np.inf if start == 0 else X[start - 1] / 2 + X[start] / 2
+                back = np.inf if end == len(X) else X[end - 1] / 2 + X[end] / 2
 
                 if front != -np.inf:
                     cut_points.add(front)
-- 
2.43.0


From 6cd02660981170fa8697b8aa29bf851f50548662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:47 +0000
Subject: [PATCH 21/82] fix: MDLPDiscretizer ignores cut points with 40 classes
 or more because of an integer overflow

---
 skmine/preprocessing/mdlp_discretizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skmine/preprocessing/mdlp_discretizer.py b/skmine/preprocessing/mdlp_discretizer.py
index 227b579..de434e6 100644
--- a/skmine/preprocessing/mdlp_discretizer.py
+++ b/skmine/preprocessing/mdlp_discretizer.py
@@ -6,6 +6,8 @@ Multi-Interval Discretization of Continuous-Valued Attributes for Classification
 #
 # License: BSD 3 clause
 
+import math
+
 import numpy as np
 import pandas as pd
 from joblib import Parallel, delayed
@@ -87,7 +89,7 @@ class MDLPVectDiscretizer(MDLOptimizer):
         N = end - start
 
         part1 = 1 / N * ((cut_point - start) * entropy1 + (end - cut_point) * entropy2)
-        delta = np.log2(pow(3, k0) - 2) - (k0 * whole_entropy - k1 * entropy1 - k2 * entropy2)
+        delta = math.log2(3 ** int(k0) - 2) - (k0 * whole_entropy - k1 * entropy1 - k2 * entropy2)
 
         gain = whole_entropy - part1
 
-- 
2.43.0


From 380df985003f586ef3c791cf9bfff268a5611bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:53 +0000
Subject: [PATCH 22/82] fix: MDLPDiscretizer rejects negative labels

---
 skmine/preprocessing/mdlp_discretizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/preprocessing/mdlp_discretizer.py b/skmine/preprocessing/mdlp_discretizer.py
index de434e6..de73545 100644
--- a/skmine/preprocessing/mdlp_discretizer.py
+++ b/skmine/preprocessing/mdlp_discretizer.py
@@ -112,7 +112,7 @@ class MDLPVectDiscretizer(MDLOptimizer):
 
         order = np.argsort(X)
         X = X[order]
-        y = y[order]
+        y = np.unique(y[order], return_inverse=True)[1]  # labels may be negative
 
         cut_points = set()
         search_intervals = [(0, len(X), 0)]
-- 
2.43.0


From 71fe761839878c53532df8a927a0067b2340bde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:11 +0000
Subject: [PATCH 23/82] fix: PeriodicPatternMiner cannot reconstruct without
 patterns, nor give residuals when there are none

---
 skmine/periodic/cycles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 2dcb750..478f661 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -346,7 +346,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
 
                 reconstruct_list.append(dict_)
 
-        reconstruct_pd = pd.DataFrame(reconstruct_list)
+        reconstruct_pd = pd.DataFrame(reconstruct_list, columns=["time", "event"])
 
         if self.is_datetime_:
             reconstruct_pd['time'] = reconstruct_pd['time'].astype("datetime64[ns]")
@@ -402,7 +402,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
             dict_ = {"time": time0, "event": map_ev[res[1]]}
             residuals_transf_list.append(dict_)
 
-        residuals_transf_pd = pd.DataFrame(residuals_transf_list)
+        residuals_transf_pd = pd.DataFrame(residuals_transf_list, columns=["time", "event"])
 
         if self.auto_time_scale and self.is_datetime_:
             residuals_transf_pd['time'] = residuals_transf_pd['time'].astype("datetime64[ns]")
-- 
2.43.0


From dba98f5f2ec76929c988f8ef76e79bdd3b3ab075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:16 +0000
Subject: [PATCH 24/82] fix: PeriodicPatternMiner.transform and get_residuals
 fail with auto_time_scale=False

---
 skmine/periodic/cycles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 478f661..29ae6f9 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -142,6 +142,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
         else:
             serie.index = S_times_nano
             resolution = "nano-second"
+            self.n_zeros_ = 0
             self.div_nb_sec_ = 1
 
         # TODO : merge self.div_nb_sec_ and self.n_zeros_ to just one number, by which nano-seconds are divided
@@ -404,7 +405,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
 
         residuals_transf_pd = pd.DataFrame(residuals_transf_list, columns=["time", "event"])
 
-        if self.auto_time_scale and self.is_datetime_:
+        if self.is_datetime_:
             residuals_transf_pd['time'] = residuals_transf_pd['time'].astype("datetime64[ns]")
         else:
             residuals_transf_pd['time'] = residuals_transf_pd['time'].astype("int64")
-- 
2.43.0


From 40239688b4cb837ff19777aadfeeff72b6ad30b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:21 +0000
Subject: [PATCH 25/82] fix: PeriodicPatternMiner.get_residuals of selected
 patterns returns wrong occurrences

---
 skmine/periodic/cycles.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 29ae6f9..96cc9a3 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -412,7 +412,9 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
 
         reconstruct_ = self.reconstruct(patterns_id)
         reconstruct_all = self.reconstruct()
-        complementary_reconstruct = reconstruct_all[~reconstruct_all.isin(reconstruct_)].dropna()
+        complementary_reconstruct = pd.merge(reconstruct_all, reconstruct_, how="left", indicator=True)
+        complementary_reconstruct = complementary_reconstruct.loc[
+            complementary_reconstruct["_merge"] == "left_only", ["time", "event"]]
 
         if pd.merge(reconstruct_all, residuals_transf_pd, how='inner').empty:
             residuals_transf_pd = pd.concat([residuals_transf_pd, complementary_reconstruct], ignore_index=True)
-- 
2.43.0


From 827be236c5840741a407dcfa0f19ac2969fe0cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:57 +0000
Subject: [PATCH 26/82] fix: PeriodicPatternMiner.fit fails when distinct
 events happen at the same time

---
 skmine/periodic/cycles.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 96cc9a3..c187c0e 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -120,15 +120,11 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
 
         self.is_datetime_ = isinstance(S.index, pd.DatetimeIndex)
         serie = S.copy(deep=True)
-        if serie.index.duplicated().any():  # there are potentially duplicates, i.e. occurrences that happened at the
-            # same time AND with the same event. At this line, the second condition is not yet verified.
-            len_S = len(serie)
-            serie = serie.groupby(by=serie.index).apply(lambda x: x.drop_duplicates())
-            # if same time and same event,  create Multi inde names =[timestamp, timestamp]
-            diff = len_S - len(serie)
-            if diff:
-                serie = serie.reset_index(level=0, drop=True)
-                warnings.warn(f"found {diff} duplicates in the input sequence, they have been removed.")
+        # occurrences that happened at the same time AND with the same event are duplicates
+        duplicates = pd.DataFrame({"time": serie.index, "event": serie.values}).duplicated().values
+        if duplicates.any():
+            serie = serie[~duplicates]
+            warnings.warn(f"found {duplicates.sum()} duplicates in the input sequence, they have been removed.")
 
         S_times_nano = serie.index.astype("int64")
         verbose = False
-- 
2.43.0


From d47478f565e4def968aab176377d81d07a29c828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:02 +0000
Subject: [PATCH 27/82] fix: PeriodicPatternMiner.fit fails or hangs on logs
 which are not in chronological order

---
 skmine/periodic/cycles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index c187c0e..49b0e87 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -119,7 +119,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
             raise TypeError(f"S must have an index with a type amongst {INDEX_TYPES}")
 
         self.is_datetime_ = isinstance(S.index, pd.DatetimeIndex)
-        serie = S.copy(deep=True)
+        serie = S.sort_index(kind="stable")  # a sorted copy, occurrences must come in chronological order
         # occurrences that happened at the same time AND with the same event are duplicates
         duplicates = pd.DataFrame({"time": serie.index, "event": serie.values}).duplicated().values
         if duplicates.any():
-- 
2.43.0


From b83ccd4cbd0a34e2768f204bb3ebf8bd14f34724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:47 +0000
Subject: [PATCH 28/82] fix: PeriodicPatternMiner misreads datetimes whose unit
 is not the nanosecond

---
 skmine/periodic/cycles.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 49b0e87..31c5488 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -126,7 +126,10 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
             serie = serie[~duplicates]
             warnings.warn(f"found {duplicates.sum()} duplicates in the input sequence, they have been removed.")
 
-        S_times_nano = serie.index.astype("int64")
+        times = serie.index.values
+        if self.is_datetime_:
+            times = times.astype("datetime64[ns]")  # times may come in another unit
+        S_times_nano = times.astype("int64")
         verbose = False
         if self.auto_time_scale:
             converted_times_res, n_digit_nano_shifted, resolution, div_nb_sec = autoscale_time_unit(S_times_nano,
-- 
2.43.0


From ae2824884569abc3833eb4e8f5f64c4e7126338e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:36 +0000
Subject: [PATCH 29/82] fix: PeriodicPatternMiner.transform does not restore
 the time scale of corrections and displayed patterns on integer times

---
 skmine/periodic/cycles.py  | 2 +-
 skmine/periodic/pattern.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 31c5488..9251aac 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -211,11 +211,11 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
 
         if self.auto_time_scale:  # restore time in nano-second
             self.cycles.loc[:, ["t0", "period_major"]] *= (10 ** self.n_zeros_) * self.div_nb_sec_
+            self.cycles["E"] = self.cycles.E.map(lambda x: [e * 10 ** self.n_zeros_ * self.div_nb_sec_ for e in x])
 
             if self.is_datetime_:
                 self.cycles.loc[:, "t0"] = self.cycles.t0.astype("datetime64[ns]")
                 self.cycles.loc[:, "period_major"] = self.cycles.period_major.astype("timedelta64[ns]")
-                self.cycles.loc[:, "E"] = self.cycles.E.map(np.array) * (10 ** self.n_zeros_ * self.div_nb_sec_)
 
                 def to_timedelta(x): return pd.to_timedelta(x, unit='ns')
 
diff --git a/skmine/periodic/pattern.py b/skmine/periodic/pattern.py
index a0eafca..d259994 100644
--- a/skmine/periodic/pattern.py
+++ b/skmine/periodic/pattern.py
@@ -910,16 +910,16 @@ class Pattern(object):
         if self.isInterm(nid):
             r = self.nodes[nid].get("r", "-")
             p = self.nodes[nid].get("p", "-")
-            if is_datetime:
+            if p != "-":
                 p *= (10 ** n_zeros * div_nb_sec) # restore time in nano-second
-                p = timedelta(microseconds=p / 1000)
+                if is_datetime:
+                    p = timedelta(microseconds=p / 1000)
             ss = "[r=%s p=%s]" % (r, p)
             sc = ""
             for ni, nn in enumerate(self.nodes[nid]["children"]):
                 if ni > 0:
-                    d = nn[1]
+                    d = nn[1] * (10 ** n_zeros * div_nb_sec) # restore time in nano-second
                     if is_datetime:
-                        d *= (10 ** n_zeros * div_nb_sec) # restore time in nano-second
                         d = timedelta(microseconds=d / 1000)
                     sc += " [d=%s] " % d
                 sc += self.__str__(nn[0], map_ev, leaves_first, n_zeros, div_nb_sec, is_datetime)
-- 
2.43.0


From 7630debe2673c015bc313b8a61a11ea97ca44a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:08 +0000
Subject: [PATCH 30/82] fix: PeriodicPatternMiner.export_patterns fails, or
 exports patterns of another model, when there is no pattern

---
 skmine/periodic/cycles.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 9251aac..8d5458a 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -205,6 +205,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
                                                                                is_datetime=self.is_datetime_)
 
         if not patterns_list_of_dict:
+            self.cycles = pd.DataFrame(columns=["pattern_json_tree"])
             return pd.DataFrame()  # FIXME
 
         self.cycles = pd.DataFrame(patterns_list_of_dict)
-- 
2.43.0


From 1a93645a2e1b4d1346a748134e930d9f29d38b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:08 +0000
Subject: [PATCH 31/82] fix: PeriodicPatternMiner.export_patterns renumbers the
 patterns

---
 skmine/periodic/cycles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 8d5458a..71cb6c4 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -242,7 +242,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
         """
         # allows us to call export_patterns without explicitly calling transform method before
         dummy_var = 17
-        self.transform(dummy_var)
+        self.transform(dummy_var, chronological_order=False)  # keep the ids of the patterns
 
         big_dict_list = [i for i in self.cycles["pattern_json_tree"].values]
 
-- 
2.43.0


From 571e4121a34cb4b7ecbfef84948fe452749e3f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:08 +0000
Subject: [PATCH 32/82] fix: PeriodicPatternMiner loses the type and the order
 of non-string events when exported, and cannot export imported patterns

---
 skmine/periodic/cycles.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 71cb6c4..ff2b692 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -246,9 +246,12 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
 
         big_dict_list = [i for i in self.cycles["pattern_json_tree"].values]
 
-        data_dict = self.alpha_groups_.copy()
-        for k, v in data_dict.items():
-            data_dict[k] = v.to_list()
+        data_dict = {}
+        for num, event in self.data_details_.getNumToEv().items():
+            event = event.item() if isinstance(event, np.generic) else event
+            data_dict[event] = [int(t) for t in self.data_details_.getSequence(num)]
+        if not all(isinstance(event, str) for event in data_dict):
+            data_dict = list(data_dict.items())  # keys of json objects can only be strings
 
         big_dict = {
             "is_datetime_": self.is_datetime_,
-- 
2.43.0


From 16f8ae7f58644e0711e8f2b943c766ebd9a6a976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:08 +0000
Subject: [PATCH 33/82] fix: patterns imported by a PeriodicPatternMiner with
 auto_time_scale=False have wrong times

---
 skmine/periodic/cycles.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index ff2b692..b44e70d 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -210,10 +210,11 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
 
         self.cycles = pd.DataFrame(patterns_list_of_dict)
 
-        if self.auto_time_scale:  # restore time in nano-second
-            self.cycles.loc[:, ["t0", "period_major"]] *= (10 ** self.n_zeros_) * self.div_nb_sec_
-            self.cycles["E"] = self.cycles.E.map(lambda x: [e * 10 ** self.n_zeros_ * self.div_nb_sec_ for e in x])
+        # restore time in nano-second
+        self.cycles.loc[:, ["t0", "period_major"]] *= (10 ** self.n_zeros_) * self.div_nb_sec_
+        self.cycles["E"] = self.cycles.E.map(lambda x: [e * 10 ** self.n_zeros_ * self.div_nb_sec_ for e in x])
 
+        if self.auto_time_scale:
             if self.is_datetime_:
                 self.cycles.loc[:, "t0"] = self.cycles.t0.astype("datetime64[ns]")
                 self.cycles.loc[:, "period_major"] = self.cycles.period_major.astype("timedelta64[ns]")
@@ -341,10 +342,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
             occs = p.getOccs(occsStar, t0, Ed)
 
             for k, occ in enumerate(occs):
-                if self.auto_time_scale:
-                    time0 = occ * 10 ** self.n_zeros_ * self.div_nb_sec_ # restore time in nano-second
-                else:
-                    time0 = occ
+                time0 = occ * 10 ** self.n_zeros_ * self.div_nb_sec_ # restore time in nano-second
                 dict_ = {'time': time0,
                          "event": map_ev[occsStar[k][1]]}
 
@@ -399,10 +397,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
         residuals_transf_list = []
 
         for res in residuals:
-            if self.auto_time_scale:
-                time0 = res[0] * 10 ** self.n_zeros_ * self.div_nb_sec_  # restore time in nano-second
-            else:
-                time0 = res[0]
+            time0 = res[0] * 10 ** self.n_zeros_ * self.div_nb_sec_  # restore time in nano-second
             dict_ = {"time": time0, "event": map_ev[res[1]]}
             residuals_transf_list.append(dict_)
 
-- 
2.43.0


From 83bcad8e264f0db1dcb66a212b915a69d14fcb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:29 +0000
Subject: [PATCH 34/82] fix: patterns imported by a PeriodicPatternMiner with
 auto_time_scale=False are drawn with wrong times

---
 skmine/periodic/cycles.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index b44e70d..e5f9a77 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -456,22 +456,22 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
                     pattern[nid]["event"] = list(self.data_details_.map_ev_num.keys())[int(pattern[nid]["event"])]
 
                 elif "p" in pattern[nid].keys():
+                    pattern[nid]["p"] *= (10 ** self.n_zeros_ * self.div_nb_sec_)  # restore time in nano-second
                     if self.auto_time_scale:
-                        pattern[nid]["p"] *= (10 ** self.n_zeros_ * self.div_nb_sec_)  # restore time in nano-second
                         if self.is_datetime_:
                             pattern[nid]["p"] = timedelta(microseconds=pattern[nid]["p"] / 1000)
                     for i, child in enumerate(pattern[nid]["children"]):
                         new_distance = child[1]
-                        if i != 0 and self.auto_time_scale:
+                        if i != 0:
                             new_distance = child[1] * (
                                         10 ** self.n_zeros_ * self.div_nb_sec_)  # restore time in nano-second
-                            if self.is_datetime_:
+                            if self.auto_time_scale and self.is_datetime_:
                                 new_distance = timedelta(microseconds=new_distance / 1000)
                         pattern[nid]["children"][i] = (child[0], new_distance)
 
             elif nid == "t0":
+                pattern["t0"] *= (10 ** self.n_zeros_ * self.div_nb_sec_)  # restore time in nano-second
                 if self.auto_time_scale:
-                    pattern["t0"] *= (10 ** self.n_zeros_ * self.div_nb_sec_)  # restore time in nano-second
                     if self.is_datetime_:
                         pattern["t0"] = datetime.utcfromtimestamp(pattern["t0"] / 1_000_000_000)
 
-- 
2.43.0


From 7995edadd68109760997a3c4bf9f0df4df5935e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:15 +0000
Subject: [PATCH 35/82] fix: GraphMDL.fit crashes or never ends when a
 candidate has already been tested

---
 skmine/graph/graphmdl/graph_mdl.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index 70a4d3b..6784aad 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -139,20 +139,17 @@ class GraphMDL(BaseMiner):
                             self._compute_pruning_candidates()
                             self._pruning()
                             break
-                        elif temp_code_length > self._description_length and candidates.index(candidate) == len(
-                                candidates) - 1:
-                            utils.MyLogger.info("None best code table found")
-                            utils.MyLogger.info(f"search time = {time.time() - b}")
-                            self._code_table.remove_row(row)
-                            stop = self._graph_mdl_end()
-                            if self._timeout is not None:
-                                current = self._timeout
-                            break
                         else:
                             # if the candidate not improve the result, remove it to the code table
                             self._code_table.remove_row(row)
                     else:
-                        utils.MyLogger().debug("Already test")
+                        utils.MyLogger.debug("Already test")
+                else:  # no candidate, tested now or before, improves the code table
+                    utils.MyLogger.info("None best code table found")
+                    utils.MyLogger.info(f"search time = {time.time() - b}")
+                    stop = self._graph_mdl_end()
+                    if self._timeout is not None:
+                        current = self._timeout
             else:
                 stop = self._graph_mdl_end()
                 if self._timeout is not None:
-- 
2.43.0


From 9f3024bf485abbffa09e5f810bd7ad1f45966e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:22 +0000
Subject: [PATCH 36/82] fix: GraphMDL.fit fails on vertices with three labels
 or more

---
 skmine/graph/graphmdl/candidate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skmine/graph/graphmdl/candidate.py b/skmine/graph/graphmdl/candidate.py
index 83163b4..d340284 100644
--- a/skmine/graph/graphmdl/candidate.py
+++ b/skmine/graph/graphmdl/candidate.py
@@ -156,7 +156,7 @@ class Candidate:
                 for l in first_label:
                     if l not in label:
                         label.append(l)
-                return label
+                return tuple(label)
         else:
             label = list(second_label)
             if type(first_label) is str:
@@ -166,7 +166,7 @@ class Candidate:
                 for l in first_label:
                     if l not in label:
                         label.append(l)
-            return label
+            return tuple(label)
 
     def _is_ports_equals(self, ports):
         """ Check if the candidate ports list are similar to a given ports list
-- 
2.43.0


From 5becb0b48f3bc4cfeb4bf3aab9c929dc3470cfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:26 +0000
Subject: [PATCH 37/82] fix: GraphMDL.fit writes its cover marks into the graph
 of the user

---
 skmine/graph/graphmdl/graph_mdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index 6784aad..032e1d1 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -83,7 +83,7 @@ class GraphMDL(BaseMiner):
         if D is None:
             raise ValueError("You should give a graph")
         else:
-            self._data = D
+            self._data = D.copy()  # the cover marks the graph
             self._init_graph_mdl()
             self._anytime_graph_mdl_with_timeout()
             return self
-- 
2.43.0


From 6a9968487a8eca2167b7a3ca7e398f1310d76cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:29 +0000
Subject: [PATCH 38/82] fix: GraphMDL.fit without timeout keeps the timeout of
 an earlier fit

---
 skmine/graph/graphmdl/graph_mdl.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index 032e1d1..0a5d7ac 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -78,8 +78,7 @@ class GraphMDL(BaseMiner):
             -------
             GraphMDL
         """
-        if timeout is not None and timeout != 0:
-            self._timeout = timeout
+        self._timeout = timeout if timeout else None
         if D is None:
             raise ValueError("You should give a graph")
         else:
-- 
2.43.0


From 255011dbf9845e86c65ca25f67d2b74b185f03f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:32 +0000
Subject: [PATCH 39/82] fix: GraphMDL pruning fails because of the rows of
 earlier fits and of duplicated rows

---
 skmine/graph/graphmdl/graph_mdl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index 0a5d7ac..0ce26a9 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -52,6 +52,7 @@ class GraphMDL(BaseMiner):
             the initial code table (CT0), and run a cover computation to create the first rewritten graph.
         """
         self._already_test = []
+        self._pruning_rows = []
         self._label_codes = LabelCodes(self._data)  # label codes creation
         # CT0 creation
         self._code_table = CodeTable(self._label_codes, self._data)
@@ -221,7 +222,7 @@ class GraphMDL(BaseMiner):
         """
         for r in self._code_table.rows():
             if r.pattern() in self._old_usage.keys():
-                if r.pattern_usage() < self._old_usage[r.pattern()]:
+                if r.pattern_usage() < self._old_usage[r.pattern()] and r not in self._pruning_rows:
                     self._pruning_rows.append(r)
 
     def _pruning(self):
-- 
2.43.0


From c2e55017fe01adb628fac886c324fe5903f51697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:36 +0000
Subject: [PATCH 40/82] fix: GraphMDL.patterns forgets a pattern which alone
 covers the data

---
 skmine/graph/graphmdl/graph_mdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index 0ce26a9..0f8172a 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -260,7 +260,7 @@ class GraphMDL(BaseMiner):
         self._patterns = set()
         if self._code_table is not None:
             for r in self._code_table.rows():
-                if r.code_length() != 0:
+                if r.pattern_usage() != 0:
                     self._patterns.add(r.pattern())
 
             for s in self._code_table.singleton_code_length().keys():
-- 
2.43.0


From f74df1448ffcc292a2c1a2f20e4f22504f1b16c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:39 +0000
Subject: [PATCH 41/82] fix: GraphMDL.patterns returns an exception instead of
 raising it

---
 skmine/graph/graphmdl/graph_mdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index 0f8172a..f647cb2 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -269,7 +269,7 @@ class GraphMDL(BaseMiner):
             return self._patterns
 
         else:
-            return ValueError("The fit method must be called first")
+            raise ValueError("The fit method must be called first")
 
     def description_length(self):
         """
-- 
2.43.0


From ddaf34e6e7d280cece4920101ed0e598b6ac199b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:44 +0000
Subject: [PATCH 42/82] fix: GraphMDL.discover fails as soon as there is a
 pattern

---
 skmine/graph/graphmdl/code_table_row.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/code_table_row.py b/skmine/graph/graphmdl/code_table_row.py
index bedf673..b1277d1 100644
--- a/skmine/graph/graphmdl/code_table_row.py
+++ b/skmine/graph/graphmdl/code_table_row.py
@@ -176,7 +176,7 @@ class CodeTableRow:
         -------
         list
         """
-        return [utils.draw_pattern(self._pattern), self._pattern_usage, self._code_length,
+        return [utils.display_graph(self._pattern), self._pattern_usage, self._code_length,
                 len(self._pattern_port_usage),
                 self._pattern_port_usage, self._port_code_length]
 
-- 
2.43.0


From c11b6c3c86e38a3de76ed7ba8959e03f08052ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:48 +0000
Subject: [PATCH 43/82] fix: GraphMDL code table rows keep the used embeddings
 of earlier covers

---
 skmine/graph/graphmdl/code_table.py     | 1 +
 skmine/graph/graphmdl/code_table_row.py | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index ac22bdb..2d83fd1 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -762,6 +762,7 @@ class CodeTable:
         """
         cover_usage = 0
         port_usage = dict()
+        row.reset_used_embeddings()
         if not utils.is_without_edge(row.pattern()):
             for embedding in row.embeddings():
                 if not self.is_embedding_marked(embedding, row.pattern(), graph, cover_marker):
diff --git a/skmine/graph/graphmdl/code_table_row.py b/skmine/graph/graphmdl/code_table_row.py
index b1277d1..68487c8 100644
--- a/skmine/graph/graphmdl/code_table_row.py
+++ b/skmine/graph/graphmdl/code_table_row.py
@@ -96,6 +96,9 @@ class CodeTableRow:
     def add_used_embeddings(self, embedding):
         self._used_embeddings.append(embedding)
 
+    def reset_used_embeddings(self):
+        self._used_embeddings = []
+
     def used_embeddings(self):
         return self._used_embeddings
 
-- 
2.43.0


From 02d5b558094a9083c66395f72a80010ed6ae113d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:52 +0000
Subject: [PATCH 44/82] fix: GraphMDL description length encodes the ports of a
 pattern from their numbers instead of their usages

---
 skmine/graph/graphmdl/code_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index 2d83fd1..a9d5022 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -174,7 +174,7 @@ class CodeTable:
                  if 'is_Pattern' not in node[1]])
 
             # edges labels
-            edges_label = [utils.prequential_code([v for v in row.pattern_port_usage().keys()])
+            edges_label = [utils.prequential_code([v for v in row.pattern_port_usage().values()])
                            for row in self._rows if row.pattern_usage() != 0]
             # the code for vertex pattern is zero
             edges_label.extend([utils.prequential_code([v, v]) for v in self._edge_singleton_usage.values()])
-- 
2.43.0


From 176b9e84a0cacdf614900401ef97b5449ec6c549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:55 +0000
Subject: [PATCH 45/82] fix: GraphMDL mistakes a label for the port of the same
 name

---
 skmine/graph/graphmdl/code_table.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index a9d5022..f4764a1 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -742,8 +742,9 @@ class CodeTable:
         rewritten_node
         data_node : the port node in the initial data graph
         """
-        if str(data_node) in dict(rewritten_graph.nodes(data='label')).values():
-            port_node = utils.get_key_from_value(dict(rewritten_graph.nodes(data='label')), str(data_node))
+        ports = {node: data['label'] for node, data in rewritten_graph.nodes(data=True) if 'is_Pattern' not in data}
+        if str(data_node) in ports.values():
+            port_node = utils.get_key_from_value(ports, str(data_node))
             rewritten_graph.add_edge(rewritten_node, port_node, label=f"v{kwargs['pattern_port']}")
         else:
             last = len(rewritten_graph.nodes())
-- 
2.43.0


From 01737bd712235b0cc8b2a86c3ac7254e6aff2dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:03 +0000
Subject: [PATCH 46/82] fix: GraphMDL loses the link between a pattern and a
 vertex whose labels were already covered

---
 skmine/graph/graphmdl/code_table.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index f4764a1..f6d1af0 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -620,10 +620,10 @@ class CodeTable:
         i = 0
         while i <= len(keys) - 1:
             if not self.is_node_edges_marked(graph, keys[i], pattern, values[i]) \
-                    or not self.is_node_all_labels_marked(keys[i], graph, cover_marker):
+                    or not self.is_node_all_labels_marked(keys[i], graph, cover_marker) \
+                    or graph.nodes[keys[i]].get('port') == cover_marker:  # already a port in this cover
                 res.append((keys[i], values[i]))
-                if 'port' not in graph.nodes[keys[i]]:  # if the node is not already marked as port
-                    graph.nodes[keys[i]]['port'] = True  # mark it
+                graph.nodes[keys[i]]['port'] = cover_marker  # mark it as port
 
                 if values[i] in port_usage:
                     port_usage[values[i]] = port_usage[values[i]] + 1
@@ -816,8 +816,8 @@ class CodeTable:
                 edge_singleton_usage[edge[2]['label']] += 1
                 self.mark_edge(edge[0], edge[1], graph, cover_marker, edge[2]['label'])  # Mark the edge
                 # Mark the edge nodes as data port
-                graph.nodes[edge[0]]['port'] = True
-                graph.nodes[edge[1]]['port'] = True
+                graph.nodes[edge[0]]['port'] = cover_marker
+                graph.nodes[edge[1]]['port'] = cover_marker
                 singleton_used_embeddings[edge[2]['label']].append(({edge[0]: 1,
                                                                      edge[1]: 2},
                                                                     [(edge[0], 1), (edge[1], 2)]))
@@ -831,7 +831,7 @@ class CodeTable:
                         if not self.is_node_marked(node[0], graph, cover_marker, label):
                             vertex_singleton_usage[label] += 1
                             self.mark_node(node[0], graph, cover_marker, label)
-                            graph.nodes[node[0]]['port'] = True  # mark the node as port
+                            graph.nodes[node[0]]['port'] = cover_marker  # mark the node as port
                             singleton_used_embeddings[label].append(({node[0]: 1}, [node[0], 1]))  # store the
                             # singleton used embedding
 
@@ -841,7 +841,7 @@ class CodeTable:
                     if not self.is_node_marked(node[0], graph, cover_marker, node[1]['label']):
                         vertex_singleton_usage[node[1]['label']] += 1
                         self.mark_node(node[0], graph, cover_marker, node[1]['label'])
-                        graph.nodes[node[0]]['port'] = True  # mark as port
+                        graph.nodes[node[0]]['port'] = cover_marker  # mark as port
                         # create the singleton embedding in the rewritten graph
                         self.create_vertex_singleton_node(rewritten_graph, node[1]['label'], node[0])
 
-- 
2.43.0


From 64041f5a099255bb7b1cd700baca439586eeca97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:08 +0000
Subject: [PATCH 47/82] fix: GraphMDL fails on parallel edges of multigraphs

---
 skmine/graph/graphmdl/code_table.py | 6 +++---
 skmine/graph/graphmdl/utils.py      | 6 ++----
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index f6d1af0..9fe1027 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -417,7 +417,7 @@ class CodeTable:
         -------
         int
         """
-        res = [i for i, j in enumerate(values, start=0) if
+        res = [i for i, j in values.items() if
                'label' in j and j['label'] == label]
         if len(res) != 0:
             return res[0]
@@ -443,7 +443,7 @@ class CodeTable:
             if type(graph) is nx.MultiDiGraph:
                 if not (False in ['label' in v
                                   for v in graph.get_edge_data(start, end).values()]):
-                    edge_index = self._get_edge_index_from_label(graph.get_edge_data(start, end).values(), label)
+                    edge_index = self._get_edge_index_from_label(graph.get_edge_data(start, end), label)
                     if edge_index is not None:
                         edge = graph[start][end][edge_index]
                         return 'cover_mark' in edge and label in edge['cover_mark'] and edge['cover_mark'][
@@ -477,7 +477,7 @@ class CodeTable:
             if type(graph) is nx.MultiDiGraph:
                 if not (False in ['label' in v
                                   for v in graph.get_edge_data(start, end).values()]):
-                    edge_index = self._get_edge_index_from_label(graph.get_edge_data(start, end).values(), label)
+                    edge_index = self._get_edge_index_from_label(graph.get_edge_data(start, end), label)
                     if 'cover_mark' in graph[start][end][edge_index]:
                         graph[start][end][edge_index]['cover_mark'][label] = cover_marker
                     else:
diff --git a/skmine/graph/graphmdl/utils.py b/skmine/graph/graphmdl/utils.py
index 2f5b8fc..d3ace57 100644
--- a/skmine/graph/graphmdl/utils.py
+++ b/skmine/graph/graphmdl/utils.py
@@ -335,10 +335,8 @@ def _edge_match_for_multigraph(edge1, edge2):
     -------
     bool
     """
-    edge1_values = dict(edge1).values()
-    edge2_values = dict(edge2).values()
-    edge1_labels = [list(edge1_values)[0][i] for i in list(edge1_values)[0].keys() if i == 'label']
-    edge2_labels = [list(edge2_values)[0][i] for i in list(edge2_values)[0].keys() if i == 'label']
+    edge1_labels = [edge['label'] for edge in dict(edge1).values() if 'label' in edge]
+    edge2_labels = [edge['label'] for edge in dict(edge2).values() if 'label' in edge]
     if len(edge2_labels) != 0 and len(edge1_labels) != 0:
         return not (False in [label in edge1_labels for label in edge2_labels])
     else:
-- 
2.43.0


From 6b9547aefc5611be6044cba9312a44ad8b9c74dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:01 +0000
Subject: [PATCH 48/82] fix: fimi.fetch_file fails on, or invents an empty item
 for, blank lines and repeated separators

---
 skmine/datasets/fimi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skmine/datasets/fimi.py b/skmine/datasets/fimi.py
index 2e4b5b5..c2531eb 100644
--- a/skmine/datasets/fimi.py
+++ b/skmine/datasets/fimi.py
@@ -45,7 +45,8 @@ def _read_dat(filepath, int_values=True, separator=' ', zip=False):
               f"deleted.")
         raise
 
-    transactions = [[int(item) if int_values else item for item in line.rstrip().split(separator)] for line in lines]
+    transactions = [[int(item) if int_values else item for item in line.rstrip().split(separator) if item]
+                    for line in lines]
 
     return transactions
 
-- 
2.43.0


From f8f2db7ccdc4e6c1dfb5f158bcb75c4a5e49825a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:04 +0000
Subject: [PATCH 49/82] fix: dataset loaders fail when the data_home they are
 given does not exist yet

---
 skmine/datasets/fimi.py     | 2 +-
 skmine/datasets/periodic.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/skmine/datasets/fimi.py b/skmine/datasets/fimi.py
index c2531eb..1b6f35b 100644
--- a/skmine/datasets/fimi.py
+++ b/skmine/datasets/fimi.py
@@ -103,7 +103,7 @@ def fetch_any(filename, base_url=BASE_URL_FIMI, data_home=None):
         Transactions from the requested dataset,
         as an in-memory pandas Series
     """
-    data_home = data_home or get_data_home()
+    data_home = get_data_home(data_home)
     filepath = os.path.join(data_home, filename)
     name, _ = os.path.splitext(filename)
     if filename in os.listdir(data_home):  # already fetched
diff --git a/skmine/datasets/periodic.py b/skmine/datasets/periodic.py
index 52ccf74..084565e 100644
--- a/skmine/datasets/periodic.py
+++ b/skmine/datasets/periodic.py
@@ -83,7 +83,7 @@ def fetch_health_app(data_home=None, filename="health_app.csv"):
         System logs from the health app dataset, as an in-memory pandas Series.
         Events are indexed by timestamps.
     """
-    data_home = data_home or get_data_home()
+    data_home = get_data_home(data_home)
     p = os.path.join(data_home, filename)
     kwargs = dict(header=None, index_col=0, dtype="string")
     if filename in os.listdir(data_home):
@@ -139,7 +139,7 @@ def fetch_canadian_tv(data_home=None, filename="canadian_tv.txt"):
     -------
     skmine.datasets.get_data_home
     """
-    data_home = data_home or get_data_home()
+    data_home = get_data_home(data_home)
     p = os.path.join(data_home, filename)
     kwargs = dict(header=None, dtype="string", index_col=0)
 
@@ -187,7 +187,7 @@ def fetch_ubiq(user_filename="25_F_ISE_data.dat", data_home=None):  # pragma : n
     -------
     skmine.datasets.get_data_home
     """
-    data_home = data_home or get_data_home()
+    data_home = get_data_home(data_home)
     ubiq_dir = os.path.join(data_home, 'UbiqLog')
     user_ubiq_dir = os.path.join(ubiq_dir, 'users_ubiq')
     if not os.path.exists(ubiq_dir):
-- 
2.43.0


From dcbfe2582fc0cfbcacedb8e621b63b83015ba8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:08 +0000
Subject: [PATCH 50/82] fix: periodic.fetch_file turns events named NA, None or
 null into missing values

---
 skmine/datasets/periodic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skmine/datasets/periodic.py b/skmine/datasets/periodic.py
index 084565e..cc3163b 100644
--- a/skmine/datasets/periodic.py
+++ b/skmine/datasets/periodic.py
@@ -38,7 +38,8 @@ def fetch_file(filepath, separator=',', format=None):
         Logs from the custom dataset, as an in-memory pandas Series.
         Events are indexed by timestamps.
     """
-    s = pd.read_csv(filepath, sep=separator, header=None, dtype="string", skipinitialspace=True).squeeze(axis="columns")
+    s = pd.read_csv(filepath, sep=separator, header=None, dtype="string", skipinitialspace=True,
+                    keep_default_na=False, na_values=[""]).squeeze(axis="columns")
     if type(s) == pd.DataFrame:
         s = pd.Series(s[1].values, index=s[0])
         try:
-- 
2.43.0


From 96e485929d769b6cdbae6a954efd154e64d82b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:11 +0000
Subject: [PATCH 51/82] fix: periodic.fetch_file reads integer timestamps
 between 1000 and 9999 as years

---
 skmine/datasets/periodic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skmine/datasets/periodic.py b/skmine/datasets/periodic.py
index cc3163b..50aa822 100644
--- a/skmine/datasets/periodic.py
+++ b/skmine/datasets/periodic.py
@@ -42,10 +42,10 @@ def fetch_file(filepath, separator=',', format=None):
                     keep_default_na=False, na_values=[""]).squeeze(axis="columns")
     if type(s) == pd.DataFrame:
         s = pd.Series(s[1].values, index=s[0])
-        try:
-            s.index = pd.to_datetime(s.index, format=format)
-        except ValueError:
+        if format is None and s.index.str.fullmatch(r"\s*[+-]?\d+\s*").all():
             s.index = s.index.astype("int64")
+        else:
+            s.index = pd.to_datetime(s.index, format=format)
     s.index.name = "timestamp"
     s.name = filepath
     return s
-- 
2.43.0


From c2abb34754c2891cd09a4da906a35b6548b2cfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:15 +0000
Subject: [PATCH 52/82] fix: an interrupted fetch leaves a truncated dataset in
 the cache

---
 skmine/datasets/periodic.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/skmine/datasets/periodic.py b/skmine/datasets/periodic.py
index 50aa822..a46f869 100644
--- a/skmine/datasets/periodic.py
+++ b/skmine/datasets/periodic.py
@@ -51,6 +51,14 @@ def fetch_file(filepath, separator=',', format=None):
     return s
 
 
+def _to_cache(s, path):
+    """Store a Series in the cache. The file appears under its name only once it is complete."""
+    tmp = f"{path}.{os.getpid()}.tmp"
+    s.to_csv(tmp, header=False)
+    if os.path.exists(tmp):
+        os.replace(tmp, path)
+
+
 def fetch_health_app(data_home=None, filename="health_app.csv"):
     """Fetch and return the health app log dataset
 
@@ -91,7 +99,7 @@ def fetch_health_app(data_home=None, filename="health_app.csv"):
         s = pd.read_csv(p, **kwargs).squeeze(axis="columns")
     else:
         s = pd.read_csv(health_app_url, sep="|", on_bad_lines='skip', usecols=[0, 1], **kwargs).squeeze(axis="columns")
-        s.to_csv(p, header=False)
+        _to_cache(s, p)
     s.index.name = "timestamp"
     s.index = pd.to_datetime(s.index, format="%Y%m%d-%H:%M:%S:%f")
 
@@ -146,7 +154,7 @@ def fetch_canadian_tv(data_home=None, filename="canadian_tv.txt"):
 
     if filename not in os.listdir(data_home):
         s = pd.read_csv(canadianTV_url, **kwargs).squeeze(axis="columns")
-        s.to_csv(p, index=True, header=False)
+        _to_cache(s, p)
     else:
         s = pd.read_csv(p, **kwargs).squeeze(axis="columns")
 
-- 
2.43.0


From 2d6c682db8cfd59c2a7fd59c3be0d7472d24e5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:19 +0000
Subject: [PATCH 53/82] fix: make_classification is not reproducible when
 shuffling

---
 skmine/datasets/_samples_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/datasets/_samples_generator.py b/skmine/datasets/_samples_generator.py
index 51177f6..b564df4 100644
--- a/skmine/datasets/_samples_generator.py
+++ b/skmine/datasets/_samples_generator.py
@@ -175,6 +175,6 @@ def make_classification(
     df = pd.concat(dfs, axis=0)
 
     if shuffle:
-        df = df.sample(frac=1)
+        df = df.sample(frac=1, random_state=random_state)
 
     return df["transaction"], df["class"]
-- 
2.43.0


From cef3fb91a14f6ab8d660660ea1a83f5f30c88d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:23 +0000
Subject: [PATCH 54/82] fix: _check_D leaves pandas in use_inf_as_na mode when
 the data contain missing values

---
 skmine/utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/skmine/utils.py b/skmine/utils.py
index f923792..bb53276 100644
--- a/skmine/utils.py
+++ b/skmine/utils.py
@@ -114,10 +114,9 @@ def _check_D_sklearn(D):
     if D.shape[1] == 0:  # SKLEARN : check_empty_data_messages
         raise ValueError("Empty data")
 
-    pd.options.mode.use_inf_as_na = True
-    if D.isnull().values.any():
-        raise ValueError("esimator does not check for NaN and inf")
-    pd.options.mode.use_inf_as_na = False
+    with pd.option_context("mode.use_inf_as_na", True):
+        if D.isnull().values.any():
+            raise ValueError("esimator does not check for NaN and inf")
 
 
 def _check_D(D):
-- 
2.43.0


From 3e7c0e04ec1a73aaeba53fcaab8fd1a0733afa76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:28 +0000
Subject: [PATCH 55/82] fix: intersect2d misses common rows when first values
 are repeated

---
 skmine/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/skmine/utils.py b/skmine/utils.py
index bb53276..a929507 100644
--- a/skmine/utils.py
+++ b/skmine/utils.py
@@ -179,13 +179,13 @@ def intersect2d(ar1, ar2, return_indices=True):
     """
     ar1, ar2 = np.asanyarray(ar1), np.asanyarray(ar2)
     assert ar1.ndim == ar2.ndim == 2
-    _, x_ind, y_ind = np.intersect1d(ar1[:, 0], ar2[:, 0], return_indices=True)
-    x, y = ar1[x_ind], ar2[y_ind]
-    xy_where = np.argwhere((x == y).all(axis=1)).reshape(-1)
-    x_ind = x_ind[xy_where]
+    x, x_first = np.unique(ar1, axis=0, return_index=True)
+    y, y_first = np.unique(ar2, axis=0, return_index=True)
+    y_rows = {tuple(row): i for row, i in zip(y.tolist(), y_first)}
+    common = [(i, y_rows[tuple(row)]) for row, i in zip(x.tolist(), x_first) if tuple(row) in y_rows]
+    x_ind, y_ind = np.array(common, dtype=np.intp).reshape(-1, 2).T
 
     if return_indices:
-        y_ind = y_ind[xy_where]
         return ar1[x_ind], x_ind, y_ind
     else:
         return ar1[x_ind]
-- 
2.43.0


From 36b1ac5e8909fcf6e1b249e7cbdda5e72ccb4824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:31 +0000
Subject: [PATCH 56/82] fix: bron_kerbosch empties the graph of the caller

---
 skmine/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skmine/utils.py b/skmine/utils.py
index a929507..78e4bdb 100644
--- a/skmine/utils.py
+++ b/skmine/utils.py
@@ -322,6 +322,7 @@ def bron_kerbosch(candidates: dict, clique=None, excluded=None, depth=0):
 
     # pass None as default arg instead of dict()
     # fix collisions in pytest, really obscure
+    candidates = dict(candidates)  # candidates are consumed below
     clique = clique or dict()
     excluded = excluded or dict()
 
-- 
2.43.0


From 20baf0242841de8d0c19f085b3380e131790e344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:36 +0000
Subject: [PATCH 57/82] fix: callbacks which compare an attribute of self are
 rejected as assignments

---
 skmine/callbacks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/callbacks.py b/skmine/callbacks.py
index baa9254..7381eef 100644
--- a/skmine/callbacks.py
+++ b/skmine/callbacks.py
@@ -14,7 +14,7 @@ def has_self_assigment(f):
     check if no assignment is made on the ``self`` keyword
     """
     try:
-        p = r"self(\.\w+)?\s*=.*"
+        p = r"self(\.\w+)?\s*=(?!=).*"
         return any(re.finditer(p, getsource(f)))
     except TypeError:
         return False
-- 
2.43.0


From c429e755da9ec1a8b9ed1abc74cf113eec8dddc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:40 +0000
Subject: [PATCH 58/82] fix: callbacks whose source code is not available are
 rejected

---
 skmine/callbacks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/callbacks.py b/skmine/callbacks.py
index 7381eef..ab389f4 100644
--- a/skmine/callbacks.py
+++ b/skmine/callbacks.py
@@ -16,7 +16,7 @@ def has_self_assigment(f):
     try:
         p = r"self(\.\w+)?\s*=(?!=).*"
         return any(re.finditer(p, getsource(f)))
-    except TypeError:
+    except (TypeError, OSError):  # builtins, or no source file
         return False
 
 
-- 
2.43.0


From d8305950011fb2093888036944c07b5cd8c9e26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:44 +0000
Subject: [PATCH 59/82] fix: callbacks which raise a TypeError are called twice

---
 skmine/callbacks.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/skmine/callbacks.py b/skmine/callbacks.py
index ab389f4..5b9c088 100644
--- a/skmine/callbacks.py
+++ b/skmine/callbacks.py
@@ -30,6 +30,17 @@ def _get_params(fn):
     return params
 
 
+def _accepts(callback, args):
+    """check if the callback can be called with ``args`` unpacked"""
+    try:
+        signature(callback).bind(*args)
+    except TypeError:  # args is not iterable, or does not match the signature
+        return False
+    except ValueError:  # no signature available, ``args`` is a single value unless it is a tuple
+        return isinstance(args, tuple)
+    return True
+
+
 def post(self, func_name, callback):
     """decorator, call callback on returned values, after main function"""
     func = getattr(self, func_name)
@@ -43,9 +54,9 @@ def post(self, func_name, callback):
             args_ = (self,) + (_w if len(callback_params) > 1 else tuple())
         else:
             args_ = res
-        try:
+        if _accepts(callback, args_):
             callback(*args_)
-        except TypeError:
+        else:
             callback(args_)  # list.extend
         return res
 
-- 
2.43.0


From 82917ee34822cda8b53921dd15a8aa1062a5e999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:35 +0000
Subject: [PATCH 60/82] fix: callbacks receive the content of returned lists
 instead of the list, depending on its length

---
 skmine/callbacks.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/skmine/callbacks.py b/skmine/callbacks.py
index 5b9c088..e86d51c 100644
--- a/skmine/callbacks.py
+++ b/skmine/callbacks.py
@@ -34,10 +34,8 @@ def _accepts(callback, args):
     """check if the callback can be called with ``args`` unpacked"""
     try:
         signature(callback).bind(*args)
-    except TypeError:  # args is not iterable, or does not match the signature
+    except (TypeError, ValueError):  # args does not match the signature, or there is no signature
         return False
-    except ValueError:  # no signature available, ``args`` is a single value unless it is a tuple
-        return isinstance(args, tuple)
     return True
 
 
@@ -53,11 +51,11 @@ def post(self, func_name, callback):
             _w = (res,) if len(callback_params) == 2 else res
             args_ = (self,) + (_w if len(callback_params) > 1 else tuple())
         else:
-            args_ = res
+            args_ = res if isinstance(res, tuple) else (res,)
         if _accepts(callback, args_):
             callback(*args_)
         else:
-            callback(args_)  # list.extend
+            callback(res)  # list.extend
         return res
 
     return _
-- 
2.43.0


From d7f1af01eefcefc360a6ffc3d88e0abef7d6347c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:32 +0000
Subject: [PATCH 61/82] fix: get_data_home fails when another process creates
 the directory at the same time

---
 skmine/datasets/_base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skmine/datasets/_base.py b/skmine/datasets/_base.py
index d756731..c085b4e 100644
--- a/skmine/datasets/_base.py
+++ b/skmine/datasets/_base.py
@@ -28,6 +28,5 @@ def get_data_home(data_home=None):
     if data_home is None:
         data_home = os.environ.get("SCIKIT_MINE_DATA", os.path.join(sk_root, "scikit_mine_data"))
     data_home = os.path.expanduser(data_home)
-    if not os.path.exists(data_home):
-        os.makedirs(data_home)
+    os.makedirs(data_home, exist_ok=True)
     return data_home
-- 
2.43.0


From 7b8e8bb5a3b75ed27dcd21daa0d225df34e8fe09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:13 +0000
Subject: [PATCH 62/82] fix: RandomState instances are rejected by
 make_transactions

---
 skmine/datasets/_samples_generator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skmine/datasets/_samples_generator.py b/skmine/datasets/_samples_generator.py
index b564df4..f96bd41 100644
--- a/skmine/datasets/_samples_generator.py
+++ b/skmine/datasets/_samples_generator.py
@@ -6,6 +6,8 @@ Mainly for benchmarks and experiments
 import numpy as np
 import pandas as pd
 
+from ..utils import _check_random_state
+
 
 def make_transactions(
     n_transactions=1000, n_items=100, density=0.5, random_state=None, item_start=0
@@ -63,7 +65,7 @@ def make_transactions(
 
     avg_transaction_size = density * n_items
 
-    generator = np.random.RandomState(random_state)  # pylint: disable= no-member
+    generator = _check_random_state(random_state)
 
     item_stop = item_start + n_items
     choices = np.arange(start=item_start, stop=item_stop)
-- 
2.43.0


From 85b29d05b0ca696c6068ac35fbee4dfd080cf35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:16 +0000
Subject: [PATCH 63/82] fix: make_transactions fails when no transaction is
 asked for, and make_classification when a class is small

---
 skmine/datasets/_samples_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/datasets/_samples_generator.py b/skmine/datasets/_samples_generator.py
index f96bd41..109cd55 100644
--- a/skmine/datasets/_samples_generator.py
+++ b/skmine/datasets/_samples_generator.py
@@ -74,7 +74,7 @@ def make_transactions(
         p=0.5,  # centered around avg_transaction_size
         size=n_transactions,
     )
-    max_size = t_sizes.max()
+    max_size = t_sizes.max(initial=0)
     if max_size > n_items:
         delta = max_size - n_items
         t_sizes = np.clip(t_sizes, a_min=t_sizes.min() + delta, a_max=n_items)
-- 
2.43.0


From f4ab929ffd963393f35cf426fcbef893d5b6d3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:21 +0000
Subject: [PATCH 64/82] fix: make_classification generates fewer samples than
 asked for when weights are not multiples of 1 / n_samples

---
 skmine/datasets/_samples_generator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skmine/datasets/_samples_generator.py b/skmine/datasets/_samples_generator.py
index 109cd55..888de1d 100644
--- a/skmine/datasets/_samples_generator.py
+++ b/skmine/datasets/_samples_generator.py
@@ -152,9 +152,13 @@ def make_classification(
 
     res = dict()
 
+    # cumulative rounding, so that sizes of classes add up to n_samples
+    stops = np.rint(np.cumsum(weights) / np.sum(weights) * n_samples).astype(int)
+    sizes = np.diff(stops, prepend=0)
+
     padding = 0
     for _class in range(n_classes):
-        _n_samples = int(weights[_class] * n_samples)
+        _n_samples = sizes[_class]
         density = densities[_class]
         transactions = make_transactions(
             n_transactions=_n_samples,
-- 
2.43.0


From d39a223143f6bd71da9862bc243f78323e1340a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:24 +0000
Subject: [PATCH 65/82] fix: make_classification truncates the number of
 separating items because of floating point errors

---
 skmine/datasets/_samples_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/datasets/_samples_generator.py b/skmine/datasets/_samples_generator.py
index 888de1d..806d22a 100644
--- a/skmine/datasets/_samples_generator.py
+++ b/skmine/datasets/_samples_generator.py
@@ -170,7 +170,7 @@ def make_classification(
         res[_class] = transactions
 
         # if class_sep == 1.0, then separation is strict
-        padding += int(n_items_per_class - (n_items_per_class * (1 - class_sep)))
+        padding += round(n_items_per_class * class_sep)
 
     dfs = list()
     for _class, transactions in res.items():
-- 
2.43.0


From 5a133f15c9b411e94539c62f6b324323a26b6d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:54 +0000
Subject: [PATCH 66/82] fix: make_classification fails when a class gets no
 sample

---
 skmine/datasets/_samples_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/datasets/_samples_generator.py b/skmine/datasets/_samples_generator.py
index 806d22a..f816ecb 100644
--- a/skmine/datasets/_samples_generator.py
+++ b/skmine/datasets/_samples_generator.py
@@ -175,7 +175,7 @@ def make_classification(
     dfs = list()
     for _class, transactions in res.items():
         df = transactions.to_frame(name="transaction")
-        df.loc[:, "class"] = _class
+        df["class"] = _class
         dfs.append(df)
 
     df = pd.concat(dfs, axis=0)
-- 
2.43.0


From 2502610aac4e92654380fd658c66493efbcdff58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:58 +0000
Subject: [PATCH 67/82] fix: describe_logs fails on logs with dates

---
 skmine/datasets/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/datasets/utils.py b/skmine/datasets/utils.py
index 628609f..ad8c35a 100644
--- a/skmine/datasets/utils.py
+++ b/skmine/datasets/utils.py
@@ -71,6 +71,6 @@ def describe_logs(D):
 
     return dict(
         n_events=len(gb),
-        avg_delta_per_event=a.str[0].mean(),
+        avg_delta_per_event=a.str[0].infer_objects().mean(),
         avg_nb_points_per_event=avg_nb_points,
     )
-- 
2.43.0


From bf93d4e54b1f0dfd4c4643327cef169a3d784556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:08 +0000
Subject: [PATCH 68/82] fix: CallBacks can be modified, bypassing its checks,
 despite being immutable

---
 skmine/callbacks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skmine/callbacks.py b/skmine/callbacks.py
index e86d51c..29b3789 100644
--- a/skmine/callbacks.py
+++ b/skmine/callbacks.py
@@ -104,8 +104,8 @@ class CallBacks(dict):
     def _frozen(self, *args, **kwargs):
         raise NotImplementedError(f"{type(self)} is immutable")
 
-    __setitem__ = _frozen
-    update = _frozen
+    __setitem__ = __delitem__ = __ior__ = _frozen
+    update = setdefault = pop = popitem = clear = _frozen
 
     def __call__(self, miner):
         # print("dir(miner)", dir(miner))
-- 
2.43.0


From f45fea2fe8919c7a0942aedea9dd47442656a517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:12 +0000
Subject: [PATCH 69/82] fix: callbacks which modify self with augmented
 assignments, or modify items or attributes of its attributes, are accepted

---
 skmine/callbacks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/callbacks.py b/skmine/callbacks.py
index 29b3789..839b5b1 100644
--- a/skmine/callbacks.py
+++ b/skmine/callbacks.py
@@ -14,7 +14,7 @@ def has_self_assigment(f):
     check if no assignment is made on the ``self`` keyword
     """
     try:
-        p = r"self(\.\w+)?\s*=(?!=).*"
+        p = r"\bself(\.\w+|\[[^\]]*\])*\s*([-+*/%@&|^]|//|\*\*|<<|>>)?=(?!=).*"
         return any(re.finditer(p, getsource(f)))
     except (TypeError, OSError):  # builtins, or no source file
         return False
-- 
2.43.0


From 98cbffd99d79034bb4fbf37c8f0d028d6d341e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:41 +0000
Subject: [PATCH 70/82] fix: clone and set_params ignore or reject the
 parameters SLIMVectorizer inherits from SLIM

---
 skmine/feature_extraction/slim_vectorizer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/skmine/feature_extraction/slim_vectorizer.py b/skmine/feature_extraction/slim_vectorizer.py
index f7c0feb..9d87446 100644
--- a/skmine/feature_extraction/slim_vectorizer.py
+++ b/skmine/feature_extraction/slim_vectorizer.py
@@ -45,6 +45,9 @@ class SLIMVectorizer(SLIM):
     stop_items: iterable, default=None
         Set of items to filter out while ingesting the input data.
 
+    max_time, items:
+        See :class:`skmine.itemsets.SLIM`.
+
 
     Examples
     --------
@@ -70,10 +73,9 @@ class SLIMVectorizer(SLIM):
     patterns should output matrices with very few zeros.
     """
 
-    def __init__(self, strategy="codes", k=5, pruning=False, stop_items=None, **kwargs):
-        super().__init__(**kwargs)
+    def __init__(self, strategy="codes", k=5, pruning=False, stop_items=None, max_time=-1, items=None):
+        super().__init__(pruning=pruning, max_time=max_time, items=items)
         self.k = k
-        self.pruning = pruning
         self.stop_items = stop_items
         if strategy not in STRATEGIES:
             raise ValueError(f"strategy must be one of {STRATEGIES}")
-- 
2.43.0


From af6a043c3e5d414c16004848071753ec43a46adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:51 +0000
Subject: [PATCH 71/82] fix: fitted SLIM models cannot be copied or unpickled

---
 skmine/itemsets/slim.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 09f7901..9d4b157 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -610,6 +610,17 @@ class SLIM(BaseEstimator, TransformerMixin):
         """
         return -len(itemset), -len(self.get_support(*itemset)), tuple(sorted(itemset))
 
+    def __getstate__(self):
+        state = dict(super().__getstate__())
+        if "codetable_" in state:  # its order needs the standard codetable, see __setstate__
+            state["codetable_"] = dict(state["codetable_"])
+        return state
+
+    def __setstate__(self, state):
+        super().__setstate__(state)
+        if "codetable_" in state:
+            self.codetable_ = SortedDict(self._standard_cover_order, state["codetable_"])
+
     def prefit(self, D, y=None):  # -> self
         """
         Parameters
-- 
2.43.0


From 601051b791ec098bad43f73ba9fe0841925b6abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:17 +0000
Subject: [PATCH 72/82] fix: fitted GraphMDL models cannot be pickled

---
 skmine/graph/graphmdl/code_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index 9fe1027..e34e479 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -809,7 +809,7 @@ class CodeTable:
         """
         edge_singleton_usage = defaultdict(int)
         vertex_singleton_usage = defaultdict(int)
-        singleton_used_embeddings = defaultdict(lambda: [])
+        singleton_used_embeddings = defaultdict(list)
         # for edge label
         for edge in graph.edges(data=True):
             if not self.is_edge_marked(edge[0], edge[1], graph, cover_marker, edge[2]['label']):
-- 
2.43.0


From 34f3d2824b4bfd7062168ba0395e3c2f5fd2ca32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:16 +0000
Subject: [PATCH 73/82] fix: GraphMDL counts the labels shared by vertices and
 edges only once

---
 skmine/graph/graphmdl/utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/skmine/graph/graphmdl/utils.py b/skmine/graph/graphmdl/utils.py
index d3ace57..a3de77d 100644
--- a/skmine/graph/graphmdl/utils.py
+++ b/skmine/graph/graphmdl/utils.py
@@ -107,11 +107,10 @@ def get_total_label(graph: Graph):
          float
     """
 
-    labels = count_edge_label(graph)
-    labels.update(count_vertex_label(graph))
     total = 0.0  # The total number of labels in the graph
-    for i in labels.values():
-        total = total + i
+    for labels in (count_edge_label(graph), count_vertex_label(graph)):
+        for i in labels.values():
+            total = total + i
 
     return total
 
-- 
2.43.0


From 06365f99e6a85b930935069f385fc21c2c42e0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:16 +0000
Subject: [PATCH 74/82] fix: GraphMDL.patterns forgets vertex labels that are
 also edge labels

---
 skmine/graph/graphmdl/graph_mdl.py | 5 ++++-
 skmine/graph/graphmdl/utils.py     | 5 +++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index f647cb2..7e38c24 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -264,7 +264,10 @@ class GraphMDL(BaseMiner):
                     self._patterns.add(r.pattern())
 
             for s in self._code_table.singleton_code_length().keys():
-                self._patterns.add(utils.create_singleton_pattern(s, self._code_table))
+                if self._code_table.is_ct_edge_singleton(s):
+                    self._patterns.add(utils.create_singleton_pattern(s, self._code_table))
+                if self._code_table.is_ct_vertex_singleton(s):
+                    self._patterns.add(utils.create_singleton_pattern(s, self._code_table, vertex=True))
 
             return self._patterns
 
diff --git a/skmine/graph/graphmdl/utils.py b/skmine/graph/graphmdl/utils.py
index a3de77d..db11696 100644
--- a/skmine/graph/graphmdl/utils.py
+++ b/skmine/graph/graphmdl/utils.py
@@ -976,12 +976,13 @@ def generate_candidates(rewritten_graph, code_table):
     return candidates
 
 
-def create_singleton_pattern(label, code_table):
+def create_singleton_pattern(label, code_table, vertex=False):
     """ Create a graph who represent a singleton
     Parameters
     ----------
     label
     code_table
+    vertex: if the label is both a vertex and an edge label, create the vertex singleton
     Returns
     -------
     Graph
@@ -991,7 +992,7 @@ def create_singleton_pattern(label, code_table):
     else:
         pattern = nx.DiGraph()
 
-    if code_table.is_ct_edge_singleton(label):
+    if code_table.is_ct_edge_singleton(label) and not vertex:
         pattern.add_nodes_from(range(1, 3))
         pattern.add_edge(1, 2, label=label)
     elif code_table.is_ct_vertex_singleton(label):
-- 
2.43.0


From 850049c8373c8a70fcf818c9f5847b5b3233d858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:18 +0000
Subject: [PATCH 75/82] fix: copy of a SLIM estimator loses max_time and the
 class of SLIMVectorizer

---
 skmine/itemsets/slim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 9d4b157..53e28d7 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -793,4 +793,4 @@ class SLIM(BaseEstimator, TransformerMixin):
         return CTc, data_size, model_size
 
     def __copy__(self):
-        return SLIM(items=self.items, pruning=self.pruning)
+        return type(self)(**self.get_params())
-- 
2.43.0


From f848f511af8c100eef78c98d7189c225ba50516f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:40 +0000
Subject: [PATCH 76/82] fix: fetch_ubiq gives times that are 60 times too short

parse_all_user wrote minutes, read_ubiq_user reads seconds, which is the documented unit.
---
 skmine/datasets/periodic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/datasets/periodic.py b/skmine/datasets/periodic.py
index a46f869..389539a 100644
--- a/skmine/datasets/periodic.py
+++ b/skmine/datasets/periodic.py
@@ -323,7 +323,7 @@ def parse_all_user(infile: str, out_dir: str, min_occ=10) -> None:  # pragma : n
             evs_tmp = [d for d in dt["ev"] if dt["counts"].get(d[1], 0) > min_occ]
             if len(evs_tmp) > min_occ:
                 evs_tmp = sorted(evs_tmp)
-                evs = sorted([(int((d[0] - evs_tmp[0][0]).total_seconds() / 60), d[-1]) for d in evs_tmp])
+                evs = sorted([(int((d[0] - evs_tmp[0][0]).total_seconds()), d[-1]) for d in evs_tmp])
                 with open("%s/%s_ISE_data.dat" % (out_dir, user), "w") as fo:
                     fo.write("### user=%s\tstart_time=%s\n" % (user, evs_tmp[0][0]))
                     prev = None
-- 
2.43.0


From 4179b29c86574bab0df2f920f204c241115e8395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:57 +0000
Subject: [PATCH 77/82] fix: an interrupted fetch_ubiq can never be completed,
 and changes the working directory

The existence of the UbiqLog directory was taken for a complete dataset, and failures of the download were ignored.
---
 skmine/datasets/periodic.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/skmine/datasets/periodic.py b/skmine/datasets/periodic.py
index 389539a..63e191a 100644
--- a/skmine/datasets/periodic.py
+++ b/skmine/datasets/periodic.py
@@ -3,6 +3,9 @@ Base IO for all periodic datasets
 """
 import os
 import re
+import subprocess
+import tempfile
+import zipfile
 from datetime import datetime, timedelta
 
 import pandas as pd
@@ -199,17 +202,24 @@ def fetch_ubiq(user_filename="25_F_ISE_data.dat", data_home=None):  # pragma : n
     data_home = get_data_home(data_home)
     ubiq_dir = os.path.join(data_home, 'UbiqLog')
     user_ubiq_dir = os.path.join(ubiq_dir, 'users_ubiq')
-    if not os.path.exists(ubiq_dir):
+    if not os.path.exists(user_ubiq_dir):
         os.makedirs(ubiq_dir, exist_ok=True)
-        os.chdir(ubiq_dir)
-
-        infile = "all_log_applications_nonbin.txt"
-        os.system("wget " + UBIQ_url)
-        os.system("unzip UbiqLog4UCI.zip")
-        os.system("rm __MACOSX -rf")
-        os.system('grep "\\"Application\\":" UbiqLog4UCI/*/log_*.txt > ' + infile)
-        os.makedirs(user_ubiq_dir)
-        parse_all_user(infile, user_ubiq_dir, min_occ=10)
+        # the users' files appear in the cache all at once, when they are complete
+        with tempfile.TemporaryDirectory(dir=ubiq_dir) as tmp_dir:
+            infile = "all_log_applications_nonbin.txt"
+            subprocess.run(["wget", UBIQ_url], check=True, cwd=tmp_dir)
+            with zipfile.ZipFile(os.path.join(tmp_dir, "UbiqLog4UCI.zip")) as archive:
+                archive.extractall(tmp_dir)
+            subprocess.run('grep "\\"Application\\":" UbiqLog4UCI/*/log_*.txt > ' + infile,
+                           shell=True, check=True, cwd=tmp_dir)
+            tmp_users = os.path.join(tmp_dir, 'users_ubiq')
+            os.makedirs(tmp_users)
+            parse_all_user(os.path.join(tmp_dir, infile), tmp_users, min_occ=10)
+            try:
+                os.rename(tmp_users, user_ubiq_dir)
+            except OSError:  # another process has been faster
+                if not os.path.exists(user_ubiq_dir):
+                    raise
 
     filename = os.path.join(user_ubiq_dir, user_filename)
     if not os.path.exists(filename):
-- 
2.43.0


From d8f0ac6f385eeb11eaf6e0b351d6931ee055df2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:03 +0000
Subject: [PATCH 78/82] fix: SLIM loses a boolean item

---
 skmine/itemsets/slim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 53e28d7..2b826a2 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -653,7 +653,7 @@ class SLIM(BaseEstimator, TransformerMixin):
         usage = sct.map(len).astype(np.uint32)
         usage = usage.nlargest(len(sct))
         # Descending usage sorting
-        sct = sct[usage.index]
+        sct = sct.reindex(usage.index)  # [] would take boolean items for a mask
 
         # Build Standard Codetable <class 'pandas.core.series.Series'> in usage descending order :
         self.standard_codetable_ = sct
-- 
2.43.0


From e1d394a7a5796b640a71ca3f4135dbb9f320bb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:29 +0000
Subject: [PATCH 79/82] fix: SLIMVectorizer gives NaN features for data
 described by unused itemsets

---
 skmine/feature_extraction/slim_vectorizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/feature_extraction/slim_vectorizer.py b/skmine/feature_extraction/slim_vectorizer.py
index 9d87446..23cab8c 100644
--- a/skmine/feature_extraction/slim_vectorizer.py
+++ b/skmine/feature_extraction/slim_vectorizer.py
@@ -118,7 +118,7 @@ class SLIMVectorizer(SLIM):
         mat = pd.DataFrame(mat, columns=list(covers.keys()))
 
         if self.strategy == "codes":
-            ct_codes = code_lengths[isets.index] / code_lengths.sum()
+            ct_codes = code_lengths[isets.index] / max(code_lengths.sum(), 1)  # all usages may be null
             mat = (mat * ct_codes).astype(np.float32)
 
         return mat
-- 
2.43.0


From a7661f938318785c9cdc5731784bc3941107baf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:56 +0000
Subject: [PATCH 80/82] fix: PeriodicPatternMiner.fit crashes on a categorical
 series with an unused category

---
 skmine/periodic/cycles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index e5f9a77..4d5b22e 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -151,7 +151,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
         if verbose:
             print(f"Adjusted unit time for algorithm : {self.resolution}")
 
-        self.alpha_groups_ = serie.groupby(serie.values).groups
+        self.alpha_groups_ = serie.groupby(serie.values, observed=True).groups
         # associates to each event (key) its associated datetimes (list of values)
         cpool, data_details, pc = mine_seqs(dict(self.alpha_groups_), complex=self.complex)
 
-- 
2.43.0


From 983ce4ec08c0f486a7c74836740b785804ef9cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:47 +0000
Subject: [PATCH 81/82] fix: GraphMDL takes attributes of the graph of the user
 for its own cover marks

---
 skmine/graph/graphmdl/graph_mdl.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index 7e38c24..454720b 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -84,6 +84,10 @@ class GraphMDL(BaseMiner):
             raise ValueError("You should give a graph")
         else:
             self._data = D.copy()  # the cover marks the graph
+            self._data.graph.clear()
+            for *_, attributes in [*self._data.nodes(data=True), *self._data.edges(data=True)]:
+                for mark in ('port', 'cover_mark'):  # the marks, not attributes of the user with these names
+                    attributes.pop(mark, None)
             self._init_graph_mdl()
             self._anytime_graph_mdl_with_timeout()
             return self
-- 
2.43.0


From 6cccc6bf970ef97794db67a28cf695ee665cbef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:47 +0000
Subject: [PATCH 82/82] fix: files of transactions are cut at line ends only,
 not at other Unicode line boundaries inside items

---
 skmine/datasets/fimi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skmine/datasets/fimi.py b/skmine/datasets/fimi.py
index 1b6f35b..2272040 100644
--- a/skmine/datasets/fimi.py
+++ b/skmine/datasets/fimi.py
@@ -36,10 +36,10 @@ def _read_dat(filepath, int_values=True, separator=' ', zip=False):
     try:
         if zip:
             with gzip.open(filepath, 'rt') as f:
-                lines = f.read().splitlines()
+                lines = f.readlines()
         else:
             with open(filepath, 'r') as f:
-                lines = f.read().splitlines()
+                lines = f.readlines()
     except UnicodeDecodeError:
         print(f"The file {filepath} is already present in your data_home but it is a binary file, it must be "
               f"deleted.")
-- 
2.43.0

